--------------------------- MODULE GrowArrayGen ---------------------------
EXTENDS GrowArrays, TLC, Json
CONSTANT Depth
VARIABLE hist
n == Len(hist) + 1
Op(r) == hist' = Append(hist, r)
GInit == /\ arr = << [own |-> TRUE, els |-> << 0, 0 >>, def |-> 0, rest |-> <<>>],
                     [own |-> TRUE, els |-> << 5, 6, 7 >>, def |-> 0, rest |-> <<>>] >>
         /\ hist = <<>>
Two == {1, 2}
GResize == \E a \in Two : \E k \in {0, 1, 3, 4} : Resize(a, k) /\ Op([op |-> "resize", a |-> a, n |-> k])
GGrow == \E a \in Two : \E k \in {1, 5} : Grow(a) /\ Op([op |-> "grow", a |-> a, n |-> k])
GFill == \E a \in Two : Size(a) > 0 /\ FillAll(a, 10 + n) /\ Op([op |-> "fill", a |-> a, v |-> 10 + n])
GDefault == \E a \in Two : SetDefault(a, 20 + n) /\ Op([op |-> "default", a |-> a, v |-> 20 + n])
GAssign == \E a, b \in Two : a # b /\ Assign(a, b) /\ Op([op |-> "assign", a |-> a, b |-> b])
GCopy == \E a, b \in Two : a # b /\ Copy(a, b) /\ Op([op |-> "copy", a |-> a, b |-> b])
GSet == \E a \in Two : \E w \in {"setto", "set"} :
          SetTo(a, << 30 + n, 40 + n >>) /\ Op([op |-> w, a |-> a, v |-> << 30 + n, 40 + n >>])
GOwn == \E a \in Two : \E k \in {1} : Size(a) > k /\ SetOwn(a, k, Size(a) - k) /\ Op([op |-> "selfset", a |-> a, k |-> k, n |-> Size(a) - k])
GWrite == \E a \in Two : Size(a) > 0 /\ Write(a, Size(a), 50 + n) /\ Op([op |-> "write", a |-> a, k |-> Size(a) - 1, v |-> 50 + n])
GNext == Len(hist) < Depth /\ (GResize \/ GGrow \/ GFill \/ GDefault \/ GAssign \/ GCopy \/ GSet \/ GOwn \/ GWrite)
GSpec == GInit /\ [][GNext]_<< arr, hist >>
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
