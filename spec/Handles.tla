------------------------------ MODULE Handles ------------------------------
(* What Java sees of native objects: every live handle has the kind and the   *)
(* parameters it was created with, and settings which are the last ones set   *)
(* for this handle.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE hs     \* live handle -> record
Rules == {4, 8}
Largest == 2147483647
Fresh(kind, real, java) == [kind |-> kind, real |-> real, java |-> java, rule |-> 4, min |-> 0, max |-> Largest, save |-> 1]
New(h, kind, real, java) == h \notin DOMAIN hs /\ hs' = [x \in DOMAIN hs \cup {h} |-> IF x = h THEN Fresh(kind, real, java) ELSE hs[x]]
Destroy(h) == h \in DOMAIN hs /\ hs' = [x \in DOMAIN hs \ {h} |-> hs[x]]
CanSet(what, v) == what = "rule" => v \in Rules
Set(h, what, v) ==
    CASE what = "rule" -> hs' = [hs EXCEPT ![h].rule = v]
      [] what = "min" -> hs' = [hs EXCEPT ![h].min = v]
      [] what = "max" -> hs' = [hs EXCEPT ![h].max = v]
      [] what = "save" -> hs' = [hs EXCEPT ![h].save = v]
Value(h, what) ==
    CASE what = "rule" -> hs[h].rule [] what = "min" -> hs[h].min [] what = "max" -> hs[h].max [] what = "save" -> hs[h].save
Settings(h) == << hs[h].rule, hs[h].min, hs[h].max, hs[h].save >>
=============================================================================
