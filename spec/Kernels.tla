------------------------------ MODULE Kernels ------------------------------
(* Convolution kernels: containers of weights, Gaussian weights, lengths.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Abs(n) == IF n < 0 THEN -n ELSE n
\* ------------------------------------------------------------ containers
\* ker: container -> [dim, w, o, d]: dimension, width, origin, weights row by row
VARIABLE ker
Count(dim, w) == IF dim = 1 THEN w ELSE w * w
Zeros(n) == [j \in 1..n |-> 0]
Put(a, r) == ker' = [x \in DOMAIN ker \cup {a} |-> IF x = a THEN r ELSE ker[x]]
Kernel(dim, w, o, d) == [dim |-> dim, w |-> w, o |-> o, d |-> d]
CanMake(w, o) == o < w
Make(a, dim, w, o) == Put(a, Kernel(dim, w, o, Zeros(Count(dim, w))))
MakeList(a, dim, w, o, v) == Put(a, Kernel(dim, w, o, v))
Blank(a, dim) == Put(a, Kernel(dim, 0, 0, <<>>))
Prefix(d, n) == [j \in 1..n |-> IF j <= Len(d) THEN d[j] ELSE 0]
\* v: weights given together with the new shape, if any
Reshape(a, w, o, v) == LET r == ker[a] n == Count(r.dim, w) IN
    /\ v # <<>> => Len(v) = n
    /\ Put(a, Kernel(r.dim, w, o, IF v # <<>> THEN v ELSE Prefix(r.d, n)))
Copy(a, b) == Put(a, ker[b])
Index(r, x, y) == IF r.dim = 1 THEN x + 1 ELSE y * r.w + x + 1
HasIndex(a, x, y) == x >= 0 /\ x < ker[a].w /\ y >= 0 /\ (IF ker[a].dim = 1 THEN y = 0 ELSE y < ker[a].w)
Set(a, x, y, v) == ker' = [ker EXCEPT ![a].d[Index(ker[a], x, y)] = v]
Destroy(a) == ker' = [x \in DOMAIN ker \ {a} |-> ker[x]]
Sum(d) == FoldLeft(+, 0, d)
Range2(d) == { d[j] : j \in DOMAIN d }
\* ------------------------------------------------------------ Gaussian weights
(* sigma = sn / sd. dd: position of a weight from the centre in half pixels.  *)
(* Lag: 100000 times the exponent of exp(-d^2 / (2 sigma^2)), negated         *)
Lag(d2, sn, sd) == (12500 * sd * sd * d2 + (sn * sn) \div 2) \div (sn * sn)
Half(i, w) == 2 * (i - w \div 2) + (IF w % 2 = 1 THEN 0 ELSE 1)       \* i from 0
HalfSq(dim, w, k) == IF dim = 1 THEN Half(k - 1, w) * Half(k - 1, w)
                     ELSE LET a == Half((k - 1) % w, w) b == Half((k - 1) \div w, w) IN a * a + b * b
\* width for a sigma: 2 ceil((5 sigma - 1) / 2) + 1
CeilDiv(a, b) == -((-a) \div b)
WidthFor(sn, sd) == 2 * CeilDiv(5 * sn - sd, 2 * sd) + 1
\* natural logarithms of 1..102, times 100000
Ln == << 0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906, 270805, 277259, 283321,
         289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584, 333220, 336730, 340120, 343399, 346574, 349651, 352636,
         355535, 358352, 361092, 363759, 366356, 368888, 371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183,
         395124, 397029, 398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439, 418965, 420469, 421951,
         423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945, 438203, 439445, 440672, 441884, 443082, 444265,
         445435, 446591, 447734, 448864, 449981, 451086, 452179, 453260, 454329, 455388, 456435, 457471, 458497, 459512, 460517, 461512, 462497 >>
Tol == 4
\* weights v / l (1e6 times the weight, 1e5 times its logarithm) are a normalised Gaussian
GaussReal(e, w) == LET lag == TLCEval([k \in DOMAIN e.v |-> Lag(HalfSq(e.dim, w, k), e.sn, e.sd)]) c == Min({ lag[k] : k \in DOMAIN lag }) top == CHOOSE k \in DOMAIN lag : lag[k] = c IN
    /\ Abs(Sum(e.v) - 1000000) <= Len(e.v) + 2 /\ (w = 1 => e.l[1] = 0)
    /\ \A k \in DOMAIN e.v : e.v[k] >= 0 /\ IF lag[k] - c > 8000000 THEN e.l[k] < e.l[top] - 7900000 ELSE Abs(e.l[top] - e.l[k] - (lag[k] - c)) <= Tol
\* integer weights: the real ones divided by the larger of the smallest one and a hundredth of the largest one, truncated
GaussInt(e, w) == LET lag == TLCEval([k \in DOMAIN e.v |-> Lag(HalfSq(e.dim, w, k), e.sn, e.sd)]) c == Min({ lag[k] : k \in DOMAIN lag }) u == Max({ lag[k] : k \in DOMAIN lag })
                      cut == u - c > Ln[100] unit == IF cut THEN c + Ln[100] ELSE u IN
    \A k \in DOMAIN e.v : LET v == e.v[k] q == unit - lag[k] IN       \* q = ln(weight / unit)
        IF ~cut /\ u - c < Ln[100] - 2 * Tol /\ lag[k] = u THEN v = 1
        ELSE /\ v >= 0 /\ v <= 101
             /\ IF v = 0 THEN q < Tol ELSE q >= Ln[v] - Tol /\ q < Ln[v + 1] + Tol
\* ------------------------------------------------------------ lengths: quarters and 64ths, results in 256ths
Resolved(len4, frac64, tot4) == LET f == 64 * len4 r == frac64 * tot4 IN IF frac64 >= 0 /\ r > f THEN r ELSE f
RoundUp(v256) == IF v256 < 0 THEN -1 ELSE (v256 + 128) \div 256
=============================================================================
