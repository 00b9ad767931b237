--------------------------- MODULE ContourHistory ---------------------------
(* One finder with a history: what it produces depends on its settings and   *)
(* the image only. Recorded are the memory around input and label image      *)
(* before and after a call and the result of a freshly created finder.       *)
EXTENDS Contours, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, set    \* settings of the finder: [rule, min, max, save]
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
\* cells of a w x h view
Cell(v, k) == v.off + ((k - 1) \div v.w) * v.stride + ((k - 1) % v.w) + 1
Cells(v) == { Cell(v, k) : k \in 1..(v.w * v.h) }
View(a) == [off |-> a[1], stride |-> a[2], w |-> a[3], h |-> a[4]]

TInit == i = 1 /\ set = [rule |-> 8, min |-> 0, max |-> 0, save |-> TRUE]
HInit == Is("init") /\ set' = [rule |-> Ev.rule, min |-> 0, max |-> 2147483647, save |-> TRUE]
HRule == Is("rule") /\ set' = [set EXCEPT !.rule = Ev.rule]
HLimits == Is("limits") /\ set' = [set EXCEPT !.min = Ev.min, !.max = Ev.max]
HSave == Is("save") /\ set' = [set EXCEPT !.save = Ev.save]
HProcess ==
    /\ Is("process") /\ UNCHANGED set
    \* the comparison is made with a new finder which has the same settings
    /\ Ev.fresh = << set.rule, set.min, set.max, IF set.save THEN 1 ELSE 0 >>
    /\ LET vi == View(Ev.vin) vo == View(Ev.vout) IN
       \* nothing around or inside the input changes
       /\ Ev.in0 = Ev.in1
       /\ vo.w = vi.w /\ vo.h = vi.h
       \* around the label image nothing changes, in it there is exactly the result
       /\ Len(Ev.out1) = Len(Ev.out0)
       /\ LET cs == TLCEval(Cells(vo)) IN
          \A c \in 1..Len(Ev.out0) : c \notin cs => Ev.out1[c] = Ev.out0[c]
       /\ Ev.flabels = [k \in 1..(vo.w * vo.h) |-> Ev.out1[Cell(vo, k)]]
       \* foreground is labelled, background is not
       /\ \A k \in 1..(vo.w * vo.h) : (Ev.flabels[k] = 0) = (Ev.in0[Cell(vi, k)] = 0)
    /\ Ev.blobs = Ev.fblobs
    /\ Ev.sets = Ev.fsets
TNext == HInit \/ HRule \/ HLimits \/ HSave \/ HProcess
TSpec == TInit /\ [][TNext]_<< i, set >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
