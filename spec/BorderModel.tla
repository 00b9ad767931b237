----------------------------- MODULE BorderModel -----------------------------
(* A reader walks over the plane one pixel at a time and keeps, per rule, the *)
(* pixel which the rule's step law gives: extend stays at the edge, reflect   *)
(* turns round on the edge pixel without repeating it, wrap jumps to the      *)
(* other side. The closed forms used everywhere else agree with the walk.     *)
EXTENDS Convolution
CONSTANTS MaxW, MaxH, Far
VARIABLES w, h, x, y, rx, ry, wx, wy
bvars == << w, h, x, y, rx, ry, wx, wy >>
\* a reflected position is << index, direction >>
RStep(s, n, d) == IF n = 1 THEN << 0, 1 >>
                  ELSE LET t == s[1] + d * s[2] IN IF t >= 0 /\ t < n THEN << t, s[2] >> ELSE << s[1] - d * s[2], -s[2] >>
WStep(s, n, d) == IF s + d < 0 THEN n - 1 ELSE IF s + d >= n THEN 0 ELSE s + d
BInit == /\ w \in 1..MaxW /\ h \in 1..MaxH /\ x = 0 /\ y = 0
         /\ rx = << 0, 1 >> /\ ry = << 0, 1 >> /\ wx = 0 /\ wy = 0
MoveX(d) == /\ x + d >= -Far /\ x + d <= w + Far /\ x' = x + d /\ rx' = RStep(rx, w, d) /\ wx' = WStep(wx, w, d) /\ UNCHANGED << w, h, y, ry, wy >>
MoveY(d) == /\ y + d >= -Far /\ y + d <= h + Far /\ y' = y + d /\ ry' = RStep(ry, h, d) /\ wy' = WStep(wy, h, d) /\ UNCHANGED << w, h, x, rx, wx >>
Left == MoveX(-1)
Right == MoveX(1)
Up == MoveY(-1)
Down == MoveY(1)
BSpec == BInit /\ [][Left \/ Right \/ Up \/ Down]_bvars
P == [k \in 1..(w * h) |-> k]      \* every pixel has its own value
Inside == x >= 0 /\ x < w /\ y >= 0 /\ y < h
Walk == /\ Read(P, w, h, "REFLECT", 0, x, y) = At(w, rx[1], ry[1])
        /\ Read(P, w, h, "WRAP", 0, x, y) = At(w, wx, wy)
        /\ Read(P, w, h, "VALUE", 99, x, y) = (IF Inside THEN At(w, x, y) ELSE 99)
        /\ (Inside => \A r \in {"EXTENDED", "REFLECT", "WRAP"} : Read(P, w, h, r, 0, x, y) = At(w, x, y))
        \* extend gives the closest pixel
        /\ LET v == Read(P, w, h, "EXTENDED", 0, x, y) IN
           \A k \in 1..(w * h) : Abs(X(v, w) - x) + Abs(Y(v, w) - y) <= Abs(X(k, w) - x) + Abs(Y(k, w) - y)
=============================================================================
