------------------------------ MODULE StatTrace ------------------------------
EXTENDS Stats, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* An image whose rows have one value each, of w pixels, given in a unit: sum and mean divided by it
Bright(e) == LET s == SumOf(e.v) IN
    /\ e.whole /\ e.q = s /\ e.mn /\ e.mx
    /\ (e.mean = <<>> \/ e.mean = <<Mean(e.v)>>)
    /\ (e.count = <<>> \/ (Len(e.count) = Len(e.v) /\ \A y \in DOMAIN e.v : e.count[y] = Count(e.v, e.v[y])))
Valid(e) ==
    IF e.e = "bright" THEN Bright(e) ELSE
    LET im == e.im p == Before(im) IN
    CASE e.e = "min" -> Unchanged(im) /\ IsMin(p, e.v)
      [] e.e = "max" -> Unchanged(im) /\ IsMax(p, e.v)
      [] e.e = "sum" -> Unchanged(im) /\ e.v = SumOf(p)
      [] e.e = "mean" -> Unchanged(im) /\ e.v = Mean(p)
      [] e.e = "meanf" -> Unchanged(im) /\ LET s == SumOf(p) IN Near(e.v, 16 * s, 20 + Abs(s) \div 10000)
      [] e.e = "hist" -> Unchanged(im) /\ IsHistogram(p, e.base, e.v)
      [] e.e = "fill" -> /\ im.k = e.k /\ AroundUnchanged(im)
                         /\ LET a == After(im) IN \A c \in DOMAIN a : a[c] = e.v
      [] e.e = "border" -> /\ im.k = e.k /\ AroundUnchanged(im)
                           /\ After(im) = FillBorder(p, W(im), H(im), e.v, e.r)
      [] e.e = "uniform" -> /\ im.k = e.k /\ AroundUnchanged(im)
                            /\ LET a == After(im) IN \A c \in DOMAIN a : a[c] >= e.lo /\ a[c] < e.hi
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
