----------------------------- MODULE KernelGen -----------------------------
(* Histories of two kernels to be replayed, and what holds of every kernel.   *)
EXTENDS Kernels, Json
CONSTANT Depth
VARIABLE hist
n == Len(hist) + 1
Op(r) == hist' = Append(hist, r)
GInit == /\ ker = << Kernel(1, 3, 1, << 4, -5, 6 >>), Kernel(2, 2, 0, << 1, -2, 3, -4 >>) >>
         /\ hist = <<>>
GNew == \E a \in {1, 2}, d \in {1, 2}, w \in {1, 3} : \E o \in {0, w - 1, w} :
          /\ (IF CanMake(w, o) THEN Make(a, d, w, o) ELSE UNCHANGED ker)
          /\ Op([op |-> "new", a |-> a, dim |-> d, w |-> w, o |-> o])
Vals(m) == [j \in 1..m |-> n * 10 + (IF j % 2 = 0 THEN -j ELSE j)]
GReshape == \E a \in {1, 2}, w \in {1, 2, 4} : \E o \in {0, w - 1} : \E given \in BOOLEAN :
          LET v == IF given \/ (ker[a].dim = 2 /\ w # ker[a].w) THEN Vals(Count(ker[a].dim, w)) ELSE <<>> IN
          Reshape(a, w, o, v) /\ Op([op |-> "reshape", a |-> a, w |-> w, o |-> o, v |-> v])
GCopy == \E a, b \in {1, 2} : a # b /\ Copy(a, b) /\ Op([op |-> "copy", a |-> a, b |-> b])
GAssign == \E a, b \in {1, 2} : ker[a].dim = ker[b].dim /\ Copy(a, b) /\ Op([op |-> "assign", a |-> a, b |-> b])
GSet == \E a \in {1, 2} : LET x == ker[a].w - 1 y == IF ker[a].dim = 1 THEN 0 ELSE x IN
          Set(a, x, y, 70 + n) /\ Op([op |-> "set", a |-> a, x |-> x, y |-> y, n |-> 70 + n])
GNext == Len(hist) < Depth /\ (GNew \/ GReshape \/ GCopy \/ GAssign \/ GSet)
GSpec == GInit /\ [][GNext]_<< ker, hist >>
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
Shape == \A a \in DOMAIN ker : LET r == ker[a] IN r.o < r.w /\ Len(r.d) = Count(r.dim, r.w)
=============================================================================
