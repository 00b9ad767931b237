---------------------------- MODULE KernelTrace ----------------------------
(* Recorded kernels made by the factory, sigmas and radii, lengths.           *)
EXTENDS Kernels, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Trunc(n, d) == IF (n >= 0) = (d >= 0) THEN Abs(n) \div Abs(d) ELSE -(Abs(n) \div Abs(d))
\* a weight v / 64 ... in units: src in 16ths, unit = max(smallest |src|, largest |src| / frac)
ToIntOk(e) == LET top == Max({ Abs(x) : x \in Range2(e.src) }) low == Min({ Abs(x) : x \in Range2(e.src) }) IN
    /\ e.o = e.o0 /\ e.w = Len(e.src)
    /\ \A k \in DOMAIN e.src : LET s == e.src[k] IN
         IF low * e.frac >= top THEN e.v[k] = Trunc(s, low) \/ (e.frac = 100 /\ low * e.frac = top /\ Abs(e.v[k] - Trunc(s, low)) <= 1 /\ s % low = 0)
         \* top / frac is not exact: a whole quotient may come out one lower
         ELSE e.v[k] = Trunc(s * e.frac, top) \/ (e.frac = 100 /\ (s * e.frac) % top = 0 /\ Abs(Trunc(s * e.frac, top)) - Abs(e.v[k]) = 1 /\ Abs(e.v[k] * top) < Abs(s * e.frac))
Origin(e) == e.o = e.w \div 2
Valid(e) ==
    CASE e.e \in {"gauss", "gaussi"} ->
            IF e.width <= 1 /\ ~e.given THEN e.rej = TRUE /\ e.o = 0 /\ e.w = 0 /\ e.v = <<>>
            ELSE LET w == IF e.width > 0 THEN e.width ELSE WidthFor(e.sn, e.sd) IN
                 /\ e.rej = FALSE /\ e.w = w /\ Origin(e) /\ e.n = Count(e.dim, w) /\ Len(e.v) = e.n
                 /\ IF e.e = "gauss" THEN GaussReal(e, w) ELSE GaussInt(e, w)
      [] e.e = "flat" -> /\ e.w = e.width /\ Origin(e) /\ e.n = e.width
                         /\ \A k \in 1..e.n : IF e.mean /\ e.real THEN Abs(e.v[k] * e.width - 1000000) <= e.width /\ e.l[k] = e.l[1] ELSE e.v[k] = (IF e.real THEN 1000000 ELSE 1)
      [] e.e = "toint" -> ToIntOk(e)
      [] e.e = "norm" -> LET t == Sum(e.src) IN
                         /\ e.o = e.o0 /\ e.n = Len(e.src)
                         /\ \A k \in 1..e.n : Abs(((e.v[k] \div 100) * t) - e.src[k] * 10000) <= 2 * t
      [] e.e = "sigma" -> IF e.r2 <= 0 THEN e.rej = TRUE /\ e.v = 0 ELSE e.rej = FALSE /\ Abs(e.v * (50 + 8 * e.order) - (e.r2 + 1) * 1000000) <= 50
      [] e.e = "radius" -> IF e.sn <= 0 THEN e.rej = TRUE /\ e.v = 0
                           ELSE LET a == (50 + 8 * e.order) * e.sn - 80 r == CeilDiv(a, 160) IN
                                e.rej = FALSE /\ (e.v = r \/ (e.order # 0 /\ a % 160 = 0 /\ e.v = r + 1))
      [] e.e = "uniform" -> /\ e.w = e.w0 /\ e.o = e.o0 /\ Len(e.v) = e.n
                            /\ \A k \in 1..e.n : LET lo == IF e.real THEN e.lo * 1000000 ELSE e.lo hi == IF e.real THEN e.hi * 1000000 ELSE e.hi IN
                                 e.v[k] >= lo /\ (IF e.real THEN e.v[k] <= hi + 4 ELSE e.v[k] < hi)
      [] e.e = "length" -> LET v == Resolved(e.len4, e.frac64, e.tot4) IN
                           /\ e.clen = 64 * e.len4 /\ e.cfrac = 4 * e.frac64
                           /\ e.v = v /\ e.vi = RoundUp(v) /\ (e.len4 >= 0 => e.li = RoundUp(64 * e.len4))
                           /\ e.rel = (e.frac64 >= 0) /\ e.fix = (e.frac64 < 0)
                           /\ e.rej = (e.len4 < 0 /\ e.frac64 < 0)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == (ker = << >> /\ i = 1) /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1 /\ UNCHANGED ker]_<< ker, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
