------------------------------- MODULE Faults -------------------------------
(* Calls which may be refused the memory they ask for. A call gives what it  *)
(* gives on fresh objects, or gives up if it was refused memory. Either way  *)
(* the objects it works on stay sound, its inputs stay what they were, and   *)
(* when the objects are gone nothing they asked for is left.                 *)
EXTENDS Integers, Sequences
VARIABLES usual, there
\* usual: what the calls give on fresh objects; there: the objects exist
Alone(r, left) == left = 0 /\ usual' = Append(usual, r) /\ UNCHANGED there
Make == ~there /\ there' = TRUE /\ UNCHANGED usual
Give(k, r) == there /\ k \in DOMAIN usual /\ r = usual[k] /\ UNCHANGED << usual, there >>
GiveUp(k, refused) == there /\ k \in DOMAIN usual /\ refused /\ UNCHANGED << usual, there >>
Drop(left) == there /\ left = 0 /\ there' = FALSE /\ UNCHANGED usual
=============================================================================
