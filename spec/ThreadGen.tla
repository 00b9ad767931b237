----------------------------- MODULE ThreadGen -----------------------------
(* Orders in which the threads get on, one step at a time.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Steps
VARIABLES left, order
GInit == left = [t \in 1..N |-> Steps] /\ order = <<>>
Go(t) == left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ order' = Append(order, t)
GSpec == GInit /\ [][\E t \in 1..N : Go(t)]_<< left, order >>
Emit == Len(order) = N * Steps => PrintT("@" \o ToJson(order))
=============================================================================
