----------------------------- MODULE Thresholds -----------------------------
(* Global, local-mean and Otsu thresholds.                                    *)
EXTENDS Convolution
Down(p, t) == [k \in DOMAIN p |-> IF p[k] <= t THEN 1 ELSE 0]
Up(p, t) == [k \in DOMAIN p |-> IF p[k] > t THEN 1 ELSE 0]
Threshold(p, t, down) == IF down THEN Down(p, t) ELSE Up(p, t)
\* lengths: minimum / fixed length in quarters, fraction in 64ths (negative: fixed); result rounded half up
Resolve(len4, frac64, total) == LET a == 16 * len4 b == frac64 * total s == IF frac64 < 0 \/ a > b THEN a ELSE b IN (s + 32) \div 64
Side(w, h) == IF w < h THEN w ELSE h
\* integers: the mean is that of the blur. sc: scale in 64ths
LocalMean(p, w, h, r, sc, down) == LET m == MeanBlur(p, w, h, r) IN
    [k \in DOMAIN p |-> IF down THEN (IF 64 * p[k] <= m[k] * sc THEN 1 ELSE 0) ELSE (IF p[k] * sc > 64 * m[k] THEN 1 ELSE 0)]
\* floating point: the exact mean, either answer on (nearly) equal values
LocalMeanReal(p, w, h, r, sc, down, out) == \A k \in DOMAIN p :
    LET q == WindowAt(p, w, h, r, k) n == q[2]
        d == IF down THEN 64 * p[k] * n - q[1] * sc ELSE p[k] * sc * n - 64 * q[1] IN
    \/ out[k] \in {0, 1} /\ Abs(d) <= 1 + n \div 20
    \/ out[k] = (IF down THEN (IF d <= 0 THEN 1 ELSE 0) ELSE (IF d > 0 THEN 1 ELSE 0))
\* ---- Otsu. hist[1..n] counts; split s: indices 0..s are the lower class
RECURSIVE LessFrac(_, _, _, _)
\* a/b < c/d for non-negative a, c and positive b, d, without products
LessFrac(a, b, c, d) == LET q == a \div b r == c \div d x == a % b y == c % d IN
    IF q # r THEN q < r ELSE IF y = 0 THEN FALSE ELSE IF x = 0 THEN TRUE ELSE LessFrac(d, y, b, x)
CountTo(hist, s) == SumOf([j \in 1..(s + 1) |-> hist[j]])
MassTo(hist, s) == SumOf([j \in 1..(s + 1) |-> hist[j] * (j - 1)])
\* cumulative counts and sums
RECURSIVE Cumulate(_, _, _)
Cumulate(seq, k, acc) == IF k > Len(seq) THEN acc ELSE Cumulate(seq, k + 1, Append(acc, seq[k] + IF k = 1 THEN 0 ELSE acc[k - 1]))
Cum(seq) == TLCEval(Cumulate(seq, 1, <<>>))
\* every split with both classes occupied: << nB, nF, sB, sF >>
Splits(hist) ==
    LET n == Len(hist) cn == Cum(hist) cs == Cum([j \in 1..n |-> hist[j] * (j - 1)]) IN
    TLCEval([s \in { t \in 0..(n - 1) : cn[t + 1] > 0 /\ cn[t + 1] < cn[n] } |->
        << cn[s + 1], cn[n] - cn[s + 1], cs[s + 1], cs[n] - cs[s + 1] >>])
\* between-class variance nB nF (mB - mF)^2 as a fraction
VarN(v) == LET d == v[3] * v[2] - v[4] * v[1] IN d * d
VarD(v) == v[1] * v[2]
Best(hist) == LET sp == Splits(hist) vn == TLCEval([s \in DOMAIN sp |-> VarN(sp[s])]) vd == TLCEval([s \in DOMAIN sp |-> VarD(sp[s])]) IN
    TLCEval({ s \in DOMAIN sp : hist[s + 1] > 0 /\ \A t \in DOMAIN sp : ~LessFrac(vn[s], vd[s], vn[t], vd[t]) })
\* Otsu's threshold as an index of the histogram
IsOtsu(hist, t) == LET b == Best(hist) IN IF b = {} THEN t = 0 ELSE t \in b
\* midpoint of the class means, rounded to nearest (either at a half)
IsOtsu2(hist, t) == LET sp == Splits(hist) b == Best(hist) IN
    IF b = {} THEN t = 0
    ELSE \E s \in b : LET v == sp[s] num == v[3] * v[2] + v[4] * v[1] den == 2 * v[1] * v[2] IN
         Abs(2 * t * den - 2 * num) <= den
\* << quotient, remainder >> of a * b by x without the product (2 x + b must fit)
RECURSIVE MulDiv(_, _, _)
MulDiv(a, b, x) == IF a = 0 THEN << 0, 0 >>
                   ELSE LET z == MulDiv(a \div 2, b, x) r == 2 * z[2] + (a % 2) * b IN << 2 * z[1] + r \div x, r % x >>
\* penalty and scale; k: tuning in quarters, sc: scale in 16ths, t: threshold in 16ths (an interval when it is not an integer).
\* Bounds for the resulting threshold, because of the real numbers involved
Cap == 1500000
TunedBounds(tlo, thi, vn, vd, n, k, sc, down) ==
    LET x == 1000 * (vn \div vd) + (1000 * (vn % vd)) \div vd + n * n       \* 1000 n^2 (variance + 0.001), to within 1
        \* adjustment = (k t / 4)^2 1000 n^2 / x, rounded
        Adj(t, xx, up) == LET z == IF n >= 64 THEN MulDiv(k * k * t * t, (1000 * n * n) \div 4096, xx) ELSE MulDiv(k * k * t * t, (1000 * n * n) \div 64, 64 * xx)
                              d == IF n >= 64 THEN xx ELSE 64 * xx
                              a == z[1] + (IF 2 * z[2] + (IF up THEN d \div 500 + 1 ELSE -(d \div 500) - 1) >= d THEN 1 ELSE 0) IN
                          IF a > Cap THEN Cap ELSE a
        alo == IF k = 0 THEN 0 ELSE Adj(tlo, x + 1, FALSE)
        ahi == IF k = 0 THEN 0 ELSE Adj(thi, x, TRUE)
        lo == IF down THEN tlo - 16 * ahi ELSE tlo + 16 * alo
        hi == IF down THEN thi - 16 * alo ELSE thi + 16 * ahi
        P(v) == IF v < 0 THEN 0 ELSE v
        R(v, e) == (2 * (sc * P(v) + e) + 256) \div 512
        e == IF k = 0 /\ tlo = thi THEN 0 ELSE 1 IN
    << IF ahi = Cap /\ down THEN 0 ELSE R(lo, -e), IF ahi = Cap /\ ~down THEN 2000000000 ELSE R(hi, e) >>
\* all intervals a tuned threshold can be in. hist: the part of a histogram of n entries from entry base (counted from 0) on
Tuned(hist, base, n, otsu2, k, sc, down) ==
    LET sp == Splits(hist) b == Best(hist) IN
    IF b = {} THEN { << 0, 0 >> }
    ELSE { LET v == sp[s] num == v[3] * v[2] + v[4] * v[1] den == 2 * v[1] * v[2]
               l == 16 * base + IF otsu2 THEN (16 * num) \div den ELSE 16 * s
               u == 16 * base + IF otsu2 THEN (16 * num + den - 1) \div den ELSE 16 * s IN
           TunedBounds(l, u, VarN(v), VarD(v), n, k, sc, down) : s \in b }
IsTuned(hist, otsu2, k, sc, down, t) == \E z \in Tuned(hist, 0, Len(hist), otsu2, k, sc, down) : z[1] <= t /\ t <= z[2]
=============================================================================
