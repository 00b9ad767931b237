----------------------------- MODULE ContourGen -----------------------------
(* Histories of one finder: settings and images, chosen by TLC.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE hist
Op(r) == hist' = Append(hist, r)
\* image shapes and patterns are named, the harness draws them
Shapes == { << 3, 3 >>, << 6, 4 >>, << 4, 6 >>, << 5, 1 >>, << 0, 0 >> }
Patterns == {"ones", "ring", "random"}
GProcess == \E s \in Shapes : \E p \in Patterns : \E v \in BOOLEAN : Op([op |-> "process", w |-> s[1], h |-> s[2], p |-> p, view |-> v])
GRule == hist # <<>> /\ hist[Len(hist)].op = "process" /\ \E r \in {4, 8} : Op([op |-> "rule", rule |-> r])
GLimits == hist # <<>> /\ hist[Len(hist)].op = "process" /\ \E l \in {<< 0, 100 >>, << 5, 9 >>, << 0, 0 >>} : Op([op |-> "limits", min |-> l[1], max |-> l[2]])
GSave == hist # <<>> /\ hist[Len(hist)].op = "process" /\ \E b \in BOOLEAN : Op([op |-> "save", save |-> b])
GNext == Len(hist) < Depth /\ (GProcess \/ GRule \/ GLimits \/ GSave)
GSpec == hist = <<>> /\ [][GNext]_hist
Emit == (Len(hist) = Depth /\ hist[Depth].op = "process") => PrintT("@" \o ToJson(hist))
=============================================================================
