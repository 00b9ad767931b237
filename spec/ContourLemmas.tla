--------------------------- MODULE ContourLemmas ---------------------------
(* The certificate used for large images and the definitions through roots   *)
(* agree with the topological definitions, for every small image:            *)
(* - only the true components can be certified                               *)
(* - the background above the root of a blob is the background which stays   *)
(*   connected to the outside if the blob were the only one                  *)
(* - the component above the root of a hole is the one which encloses it     *)
EXTENDS Contours, TLC
CONSTANTS Sizes
VARIABLES w, h, rule, img
LInit == /\ \E s \in Sizes : w = s \div 10 /\ h = s % 10
         /\ rule \in {4, 8} /\ img = <<>>
LNext == img = <<>> /\ img' \in [1..(w * h) -> {0, 1}] /\ UNCHANGED << w, h, rule >>
LSpec == LInit /\ [][LNext]_<< w, h, rule, img >>
W == w + 2
RECURSIVE Levels(_, _, _)
Levels(x, done, front) ==
    IF front = {} THEN << >>
    ELSE LET all == done \cup front
             next == (UNION { Same(x, k, rule, W) : k \in front }) \ all
         IN << front >> \o Levels(x, all, next)
\* breadth first distance to the root
Distances(x, c) == LET lv == Levels(x, {}, { k \in 1..Len(x) : c[k] = k }) IN
     [k \in 1..Len(x) |-> (CHOOSE n \in 1..Len(lv) : k \in lv[n]) - 1]
RootsDefine(x, c) == \A r \in Roots(x, c, 1) :
    LET only == [k \in 1..Len(x) |-> IF x[k] = 1 /\ c[k] = r THEN 1 ELSE 0]
        out == ComponentOf(only, rule, W, 1)
        o == Off(Dual(rule), W)
        adj == { c[q] : q \in { z \in 1..Len(x) : x[z] = 0 /\ \E d \in 1..Len(o) : z + o[d] \in 1..Len(x) /\ only[z + o[d]] = 1 } } IN
    /\ { z \in adj : z \in out } = { Surrounding(c, W, r) }
    /\ { z \in adj : z \notin out } = Holes(x, c, W, r)
Lemmas == img # <<>> =>
    LET x == Enlarge(img, w, h)
        c == [k \in 1..Len(x) |-> RootOf(x, rule, W, k)]
        d == Distances(x, c) IN
    /\ Certified(x, rule, W, c, d)
    \* neither splitting off a pixel nor moving it to another component is certified
    /\ \A k \in 1..Len(x) : c[k] # k => ~Certified(x, rule, W, [c EXCEPT ![k] = k], [d EXCEPT ![k] = 0])
    /\ RootsDefine(x, c)
=============================================================================
