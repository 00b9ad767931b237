---------------------------- MODULE Convolution ----------------------------
(* Convolution of images given row by row: coordinates outside of the image   *)
(* by a border rule, plain sums, and sums normalised over the part of the     *)
(* kernel inside the image. A kernel is a sequence of weights and an origin o *)
(* (counted from 0). 2D kernels are given row by row.                         *)
EXTENDS Pixels
FoldExtend(x, n) == IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x
FoldWrap(x, n) == ((x % n) + n) % n
FoldReflect(x, n) == IF n = 1 THEN 0 ELSE LET p == 2 * (n - 1) r == x % p IN IF r < n THEN r ELSE p - r
\* rule: EXTENDED, REFLECT, WRAP or VALUE (constant c)
Fold(rule, x, n) == CASE rule = "EXTENDED" -> FoldExtend(x, n) [] rule = "REFLECT" -> FoldReflect(x, n) [] rule = "WRAP" -> FoldWrap(x, n)
Read(p, w, h, rule, c, x, y) ==
    IF x >= 0 /\ x < w /\ y >= 0 /\ y < h THEN p[At(w, x, y)]
    ELSE IF rule = "VALUE" THEN c ELSE p[At(w, Fold(rule, x, w), Fold(rule, y, h))]
ConvH(p, w, h, ker, o, rule, c) == [k \in 1..(w * h) |->
    SumOf([j \in 1..Len(ker) |-> ker[j] * Read(p, w, h, rule, c, X(k, w) + j - 1 - o, Y(k, w))])]
ConvV(p, w, h, ker, o, rule, c) == [k \in 1..(w * h) |->
    SumOf([j \in 1..Len(ker) |-> ker[j] * Read(p, w, h, rule, c, X(k, w), Y(k, w) + j - 1 - o)])]
Conv2(p, w, h, ker, kw, o, rule, c) == [k \in 1..(w * h) |->
    SumOf([j \in 1..Len(ker) |-> ker[j] * Read(p, w, h, rule, c, X(k, w) + X(j, kw) - o, Y(k, w) + Y(j, kw) - o)])]
\* integer division of a sum, half of the divisor added
Rounded(s, d) == Trunc(s + Trunc(d, 2), d)
\* part of the kernel inside a line of n pixels around position x
Lo(x, o) == IF x < o THEN 0 ELSE x - o
Hi(x, o, n, len) == IF x - o + len > n THEN n - 1 ELSE x - o + len - 1
\* << weighted sum, sum of the weights >> at pixel k
NormAtH(p, w, ker, o, k) == LET x == X(k, w) l == Lo(x, o) u == Hi(x, o, w, Len(ker)) IN
    << SumOf([j \in 1..(u - l + 1) |-> ker[l + j - 1 - x + o + 1] * p[At(w, l + j - 1, Y(k, w))]]),
       SumOf([j \in 1..(u - l + 1) |-> ker[l + j - 1 - x + o + 1]]) >>
NormAtV(p, w, h, ker, o, k) == LET y == Y(k, w) l == Lo(y, o) u == Hi(y, o, h, Len(ker)) IN
    << SumOf([j \in 1..(u - l + 1) |-> ker[l + j - 1 - y + o + 1] * p[At(w, X(k, w), l + j - 1)]]),
       SumOf([j \in 1..(u - l + 1) |-> ker[l + j - 1 - y + o + 1]]) >>
NormH(p, w, h, ker, o) == TLCEval([k \in 1..(w * h) |-> LET q == NormAtH(p, w, ker, o, k) IN Rounded(q[1], q[2])])
NormV(p, w, h, ker, o) == TLCEval([k \in 1..(w * h) |-> LET q == NormAtV(p, w, h, ker, o, k) IN Rounded(q[1], q[2])])
Ones(n) == [j \in 1..n |-> 1]
\* mean within r columns and r rows, two rounded passes
MeanBlur(p, w, h, r) == LET n == IF r > w /\ r > h THEN (IF w > h THEN w ELSE h) ELSE r IN
                        NormV(NormH(p, w, h, Ones(2 * n + 1), n), w, h, Ones(2 * n + 1), n)
\* exact window of the mean: << sum, number of pixels >>
WindowAt(p, w, h, r, k) == LET x == X(k, w) y == Y(k, w)
                               x0 == Lo(x, r) x1 == Hi(x, r, w, 2 * r + 1) y0 == Lo(y, r) y1 == Hi(y, r, h, 2 * r + 1) nx == x1 - x0 + 1 ny == y1 - y0 + 1 IN
    << SumOf([j \in 1..(nx * ny) |-> p[At(w, x0 + ((j - 1) % nx), y0 + ((j - 1) \div nx))]]), nx * ny >>
=============================================================================
