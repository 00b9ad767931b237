------------------------------ MODULE Contours ------------------------------
(* What blob labelling and contour finding have to produce.                  *)
(*                                                                           *)
(* A w x h binary image is surrounded by a ring of background. Pixels of the *)
(* enlarged (w+2) x (h+2) grid are numbered row by row from 1, X is the      *)
(* enlarged image. Foreground is connected by the 4 or 8 rule, background by *)
(* the other one. The root of a component is its first pixel in row-major    *)
(* order. (Grid neighbours of ring pixels which wrap around to the next row  *)
(* are ring pixels again, hence harmless: the ring is connected.)            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Off4(W) == << 1, W, -1, -W >>
Off8(W) == << 1, 1 + W, W, W - 1, -1, -1 - W, -W, 1 - W >>
Off(rule, W) == IF rule = 4 THEN Off4(W) ELSE Off8(W)
Dual(rule) == 12 - rule
Range(s) == { s[k] : k \in 1..Len(s) }

Enlarge(img, w, h) == [k \in 1..((w + 2) * (h + 2)) |->
    LET x == (k - 1) % (w + 2) y == (k - 1) \div (w + 2) IN
    IF x >= 1 /\ x <= w /\ y >= 1 /\ y <= h THEN img[(y - 1) * w + x] ELSE 0]
\* enlarged grid <-> image positions (from 1)
Inner(j, w) == ((j - 1) \div w + 1) * (w + 2) + ((j - 1) % w) + 2

RuleAt(X, k, rule) == IF X[k] = 1 THEN rule ELSE Dual(rule)
Adjacent(X, k, rule, W) == LET o == Off(RuleAt(X, k, rule), W) IN
    { k + o[d] : d \in 1..Len(o) } \cap (1..Len(X))
Same(X, k, rule, W) == { q \in Adjacent(X, k, rule, W) : X[q] = X[k] }

--------------------------------------------------------------------------------
\* definition of the components: reachability
RECURSIVE Reach(_, _, _, _, _)
Reach(X, rule, W, done, front) ==
    IF front = {} THEN done
    ELSE LET all == done \cup front
             next == (UNION { Same(X, k, rule, W) : k \in front }) \ all
         IN Reach(X, rule, W, all, next)
ComponentOf(X, rule, W, k) == Reach(X, rule, W, {}, {k})
MinOf(S) == CHOOSE m \in S : \A o \in S : m <= o
RootOf(X, rule, W, k) == MinOf(ComponentOf(X, rule, W, k))

\* certificate: C[k] is the root of the component of k, D[k] a distance to it
Certified(X, rule, W, C, D) ==
    /\ Len(C) = Len(X) /\ Len(D) = Len(X)
    /\ \A k \in 1..Len(X) :
         /\ C[k] \in 1..k
         /\ (D[k] = 0) = (C[k] = k)
         /\ LET s == Same(X, k, rule, W) IN
            /\ \A q \in s : C[q] = C[k]
            /\ D[k] # 0 => \E q \in s : D[q] = D[k] - 1
Roots(X, C, colour) == { k \in 1..Len(X) : C[k] = k /\ X[k] = colour }

--------------------------------------------------------------------------------
\* the background around a blob and the blob around a hole are found above their roots
Surrounding(C, W, root) == C[root - W]
Holes(X, C, W, root) == { c \in Roots(X, C, 0) : c # 1 /\ C[c - W] = root }

\* L: labels on the enlarged grid, ids: the ids of the reported blobs
LabelsOk(X, C, L, ids) ==
    LET roots == Roots(X, C, 1) IN
    /\ Len(ids) = Cardinality(roots)
    /\ Range(ids) = 1..Len(ids)
    /\ { L[r] : r \in roots } = 1..Len(ids)
    /\ \A k \in 1..Len(X) : L[k] = (IF X[k] = 0 THEN 0 ELSE L[C[k]])

\* a closed walk under the rule which repeats no directed step
ClosedWalk(p, rule, W, N) ==
    LET n == Len(p)
        nx(k) == p[(k % n) + 1]
        o == Range(Off(rule, W)) IN
    /\ n >= 1
    /\ n > 1 => /\ \A k \in 1..n : (nx(k) - p[k]) \in o
                /\ Cardinality({ p[k] * N + nx(k) : k \in 1..n }) = n

\* pixel of a blob together with the background component it touches
Touches(X, C, rule, W) ==
    LET o == Off(Dual(rule), W) N == Len(X) + 1 IN
    { v \in { IF X[k + o[d]] = 0 THEN k * N + C[k + o[d]] ELSE 0 : k \in { q \in 1..Len(X) : X[q] = 1 }, d \in 1..Len(o) } : v # 0 }

\* cs: all contours as [root, bg, pts]: blob, background component it goes along, points
BoundariesOk(X, C, rule, W, cs) ==
    LET N == Len(X) + 1
        ks == 1..Len(cs) IN
    /\ Cardinality({ cs[k].root * N + cs[k].bg : k \in ks }) = Len(cs)
    /\ \A k \in ks : /\ \A j \in 1..Len(cs[k].pts) : C[cs[k].pts[j]] = cs[k].root /\ X[cs[k].pts[j]] = 1
                     /\ ClosedWalk(cs[k].pts, rule, W, N)
    /\ UNION { { cs[k].pts[j] * N + cs[k].bg : j \in 1..Len(cs[k].pts) } : k \in ks } = Touches(X, C, rule, W)

\* blobs: sequence of [id, ext, int]: indices (from 0) into the sets; nsets: number of stored sets.
\* indices are distinct, in range and account for every set
IndicesOk(blobs, nsets) ==
    LET used == UNION { {blobs[k].ext} \cup Range(blobs[k].int) : k \in 1..Len(blobs) }
        RECURSIVE Total(_)
        Total(k) == IF k = 0 THEN 0 ELSE Total(k - 1) + 1 + Len(blobs[k].int) IN
    /\ used = 0..(nsets - 1)
    /\ Total(Len(blobs)) = nsets

\* holes: claimed background component of every set (0 for external contours)
ContoursOk(X, C, rule, W, L, blobs, sets, holes) ==
    LET roots == TLCEval(Roots(X, C, 1))
        inside == TLCEval({ c \in Roots(X, C, 0) : c # 1 })
        rootOf == TLCEval([id \in 1..Len(blobs) |-> CHOOSE r \in roots : L[r] = id])
        ext == [k \in 1..Len(blobs) |-> LET b == blobs[k] r == rootOf[b.id] IN
                    [root |-> r, bg |-> Surrounding(C, W, r), pts |-> sets[b.ext + 1]]]
        ints(k) == LET b == blobs[k] IN
                    [j \in 1..Len(b.int) |-> [root |-> rootOf[b.id], bg |-> holes[b.int[j] + 1], pts |-> sets[b.int[j] + 1]]]
        RECURSIVE All(_)
        All(k) == IF k = 0 THEN ext ELSE All(k - 1) \o ints(k)
    IN
    /\ IndicesOk(blobs, Len(sets))
    \* one internal contour per hole
    /\ \A k \in 1..Len(blobs) :
         LET own == { c \in inside : C[c - W] = rootOf[blobs[k].id] } IN
         /\ Len(blobs[k].int) = Cardinality(own)
         /\ { holes[j + 1] : j \in Range(blobs[k].int) } = own
    /\ BoundariesOk(X, C, rule, W, TLCEval(All(Len(blobs))))

\* size limits applied to a complete contour
Kept(p, min, max) == IF min <= Len(p) /\ Len(p) < max THEN p ELSE <<>>
\* what a finder with limits stores, given the complete contours
LimitsOk(fblobs, full, blobs, sets, min, max, save) ==
    /\ Len(fblobs) = Len(blobs)
    /\ IndicesOk(blobs, Len(sets))
    /\ \A k \in 1..Len(blobs) :
         LET b == blobs[k] f == fblobs[k] IN
         /\ b.id = f.id
         /\ Len(b.int) = Len(f.int)
         /\ sets[b.ext + 1] = Kept(full[f.ext + 1], min, max)
         /\ \A j \in 1..Len(b.int) : sets[b.int[j] + 1] = (IF save THEN Kept(full[f.int[j] + 1], min, max) ELSE <<>>)
=============================================================================
