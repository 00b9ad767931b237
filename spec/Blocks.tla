------------------------------- MODULE Blocks -------------------------------
(* Thresholds computed from a grid of blocks.                                 *)
EXTENDS Thresholds, FiniteSetsExt
\* grid for a w x h image and a requested block width: << columns, rows, block width, block height >>
Grid(w, h, req) == LET bw == w \div (w \div req) bh == h \div (h \div req) IN << w \div bw, h \div bh, bw, bh >>
BlockOf(v, n, b) == IF v \div b > n - 1 THEN n - 1 ELSE v \div b
\* pixels from x0 to x1 - 1 belong to block x
From(x, b) == x * b
To(x, n, b, w) == IF x = n - 1 THEN w ELSE (x + 1) * b
Block(w, h, g, bx, by) == { At(w, x, y) : x \in From(bx, g[3])..(To(bx, g[1], g[3], w) - 1), y \in From(by, g[4])..(To(by, g[2], g[4], h) - 1) }
BlockTable(w, h, g) == TLCEval([b \in (0..(g[1] - 1)) \X (0..(g[2] - 1)) |-> Block(w, h, g, b[1], b[2])])
Around(b, n, local) == IF local THEN { c \in 0..(n - 1) : c >= b - 1 /\ c <= b + 1 } ELSE {b}
Region(g, bx, by, local) == { << x, y >> : x \in Around(bx, g[1], local), y \in Around(by, g[2], local) }
SumOver(set, f) == FoldLeft(LAMBDA a, z : a + f[z], 0, SetToSeq(set))
Grids(g) == { << x, y >> : x \in 0..(g[1] - 1), y \in 0..(g[2] - 1) }
\* value of a pixel is 1 iff (v <= t) = down
Split(p, out, block, t, down) == \A k \in block : out[k] = (IF (p[k] <= t) = down THEN 1 ELSE 0)
\* ---- mean of the scaled block means; sc in 64ths; an interval (rounding of negative and of nearly half values is free)
Limit(v, lim) == IF v > lim[2] THEN lim[2] ELSE IF v < lim[1] THEN lim[1] ELSE v
BlockMeans(p, bt, g, sc, lim) == TLCEval([b \in Grids(g) |->
    LET bl == bt[b] s == sc * SumOver(bl, p) d == 64 * Cardinality(bl) e == d \div 5000 IN
    IF s < 0 THEN << Limit((s \div d) - 1, lim), Limit((s \div d) + 2, lim) >>
    ELSE << Limit((2 * s + d - e) \div (2 * d), lim), Limit((2 * s + d + e) \div (2 * d), lim) >>])
MeanOk(p, bt, g, sc, local, down, lim, out) ==
    LET m == BlockMeans(p, bt, g, sc, lim) lo == TLCEval([b \in Grids(g) |-> m[b][1]]) hi == TLCEval([b \in Grids(g) |-> m[b][2]]) IN
    \A b \in Grids(g) : LET r == Region(g, b[1], b[2], local) n == Cardinality(r) bl == bt[b] IN
        \E t \in Trunc(SumOver(r, lo), n)..Trunc(SumOver(r, hi), n) : Split(p, out, bl, t, down)
\* real numbers: means in units of 1 / (64 * 256)
MeanRealOk(p, bt, g, sc, local, down, out) ==
    LET m == TLCEval([b \in Grids(g) |-> LET bl == bt[b] IN (256 * sc * SumOver(bl, p)) \div Cardinality(bl)]) IN
    \A b \in Grids(g) : LET r == Region(g, b[1], b[2], local) n == Cardinality(r) t == SumOver(r, m) IN
        \A k \in bt[b] : LET d == p[k] * 16384 * n - t IN
            \/ out[k] \in {0, 1} /\ d >= -40 - n /\ d <= 40
            \/ out[k] = (IF (d <= 0) = down THEN 1 ELSE 0)
\* ---- Otsu on the combined histogram of the region. q: pixels as 0..255
Histogram(q, set, lo, hi) == TLCEval([v \in 1..(hi - lo + 1) |-> Cardinality({ k \in set : q[k] = lo + v - 1 })])
OtsuBlocksOk(q, bt, g, local, otsu2, k, sc, down, out) ==
    \A b \in Grids(g) : LET set == UNION { bt[c] : c \in Region(g, b[1], b[2], local) }
                            bl == bt[b] vals == { q[c] : c \in set } lo == Min(vals) hi == Max(vals) IN
        \E z \in Tuned(Histogram(q, set, lo, hi), lo, 256, otsu2, k, sc, down) :
            \E t \in (IF z[1] > 256 THEN 256 ELSE z[1])..(IF z[2] > 256 THEN 256 ELSE z[2]) : Split(q, out, bl, t, down)
\* ---- middle of the extrema of the region, textureless blocks are 1. ms: minimum spread in quarters
MinMaxOk(p, bt, g, local, sc, ms4, down, real, out) ==
    \A b \in Grids(g) : LET set == UNION { bt[c] : c \in Region(g, b[1], b[2], local) }
                            vals == { p[k] : k \in set }
                            mn == Min(vals)
                            mx == Max(vals)
                            bl == bt[b] IN
        IF (IF real THEN mx - mn <= ms4 ELSE mx - mn <= ms4 \div 4) THEN \A k \in bl : out[k] = 1
        ELSE IF real THEN \A k \in bl : out[k] = (IF (128 * p[k] <= sc * (mx + mn)) = down THEN 1 ELSE 0)
        ELSE Split(p, out, bl, Trunc(sc * Trunc(mx + mn, 2), 64), down)
=============================================================================
