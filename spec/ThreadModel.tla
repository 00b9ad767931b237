---------------------------- MODULE ThreadModel ----------------------------
(* Calls as programs over memory cells: a call copies what it reads into    *)
(* scratch space, works on that and writes its output. Every step reads and *)
(* writes cells of its own or reads shared ones. Checked: that no step      *)
(* writes what another call's step reads or writes, that neighbouring steps *)
(* of different calls commute, and that this implies that every             *)
(* interleaving refines Threads: the result is that of running alone.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Thr, L, Vals
VARIABLES mem, pc
vars == << mem, pc >>
\* cells: << "in", 0, j >> shared input, << "scr", t, j >> scratch, << "out", t, j >> output
Cell == ({"in"} \X {0} \X (1..L)) \cup ({"scr", "out"} \X Thr \X (1..L))
\* step number p of a call of thread t. L steps fill the scratch space, L steps write the output from it
Reads(t, p) == IF p <= L THEN { << "in", 0, p >> } ELSE { << "scr", t, j >> : j \in 1..L } \cup { << "in", 0, p - L >> }
Writes(t, p) == IF p <= L THEN { << "scr", t, p >> } ELSE { << "out", t, p - L >> }
Sum(m, t) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + m[<< "scr", t, j >>] IN S(L)
Value(m, t, p) == IF p <= L THEN m[<< "in", 0, p >>] + t ELSE Sum(m, t) - m[<< "in", 0, p - L >>]
Apply(m, t, p) == LET v == Value(m, t, p) w == Writes(t, p) IN [c \in Cell |-> IF c \in w THEN v ELSE m[c]]
Init == /\ pc = [t \in Thr |-> 0]
        /\ \E f \in [1..L -> Vals], junk \in Vals : mem = [c \in Cell |-> IF c[1] = "in" THEN f[c[3]] ELSE junk]
Start(t) == pc[t] = 0 /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED mem
Inside(t) == pc[t] \in 1..(2 * L) /\ mem' = Apply(mem, t, pc[t]) /\ pc' = [pc EXCEPT ![t] = @ + 1]
Finish(t) == pc[t] = 2 * L + 1 /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED mem
Next == \E t \in Thr : Start(t) \/ Inside(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
Active == { t \in Thr : pc[t] \in 1..(2 * L) }
Disjoint == \A t, u \in Active : t # u => Writes(t, pc[t]) \cap (Reads(u, pc[u]) \cup Writes(u, pc[u])) = {}
Commute == \A t, u \in Active : t # u => Apply(Apply(mem, t, pc[t]), u, pc[u]) = Apply(Apply(mem, u, pc[u]), t, pc[t])
\* what the call gives alone, from the shared cells only
Expected(t) == LET s == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + mem[<< "in", 0, j >>] + t IN S(L) IN
               [j \in 1..L |-> s - mem[<< "in", 0, j >>]]
Result(t) == [j \in 1..L |-> mem[<< "out", t, j >>]]
Inputs == [j \in 1..L |-> mem[<< "in", 0, j >>]]
AbsAlone == [k \in Thr \X {1} |-> Expected(k[1])]
AbsRun == [t \in Thr |-> IF pc[t] \in 1..(2 * L + 1) THEN 1 ELSE 0]
AbsDone == [t \in Thr |-> IF pc[t] = 2 * L + 2 THEN 1 ELSE 0]
Abs == INSTANCE Threads WITH alone <- AbsAlone, running <- AbsRun, done <- AbsDone, shared <- Inputs
RefNext == \E t \in Thr : Abs!Begin(t, 1) \/ Abs!Step(t) \/ Abs!End(t, 1, Result(t))
Refines == [][RefNext]_<< AbsAlone, AbsRun, AbsDone, Inputs >>
Right == \A t \in Thr : pc[t] > 2 * L => Result(t) = Expected(t)
=============================================================================
