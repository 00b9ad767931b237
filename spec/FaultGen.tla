----------------------------- MODULE FaultGen -----------------------------
(* Histories of calls which are given the memory they ask for, or are refused *)
(* it early, late or anywhere. The calls are numbered as they first appear.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls, L
VARIABLES h, known
GInit == h = <<>> /\ known = 0
Add(c, f) == /\ Len(h) < L /\ c <= known + 1
             /\ h' = Append(h, << c, f >>) /\ known' = IF c > known THEN c ELSE known
GSpec == GInit /\ [][\E c \in 1..Calls, f \in 0..3 : Add(c, f)]_<< h, known >>
Refusals == { j \in DOMAIN h : h[j][2] # 0 }
Emit == (Len(h) = L /\ Refusals # {} /\ h[L][2] = 0) => PrintT("@" \o ToJson(h))
=============================================================================
