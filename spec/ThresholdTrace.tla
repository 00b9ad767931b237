--------------------------- MODULE ThresholdTrace ---------------------------
EXTENDS Thresholds, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* shape and surroundings of the output; resized: it had another shape before
OutOk(e, o) == /\ Unchanged(e.im)
               /\ W(o) = W(e.im) /\ H(o) = H(e.im)
               /\ e.resized \/ AroundUnchanged(o)
Rejected(e) == e.rej = TRUE /\ Unchanged(e.im) /\ e.out.k = e.k0 /\ Unchanged(e.out) /\ After(e.out) = e.res
Hist(p, lo, hi) == TLCEval([b \in 1..(hi - lo + 1) |-> Cardinality({ k \in DOMAIN p : p[k] = lo + b - 1 })])
OtsuOk(e) == LET h == Hist(e.px, e.lo, e.hi) IN IF e.otsu2 THEN IsOtsu2(h, e.t - e.lo) ELSE IsOtsu(h, e.t - e.lo)
Valid(e) ==
    CASE e.e = "threshold" ->
            IF e.view /\ << W(e.im), H(e.im) >> # << e.k0[3], e.k0[4] >> THEN Rejected(e)
            ELSE e.rej = FALSE /\ OutOk(e, e.out) /\ After(e.out) = e.res /\ e.res = Threshold(Before(e.im), e.v, e.down)
      [] e.e = "inplace" -> e.rej = FALSE /\ AroundUnchanged(e.im) /\ After(e.im) = e.res /\ e.res = Threshold(Before(e.im), e.v, e.down)
      [] e.e = "local" ->
            LET r == Resolve(e.len4, e.frac64, Side(W(e.im), H(e.im))) \div 2 IN
            IF e.badview \/ r = 0 THEN e.rej = TRUE /\ Unchanged(e.im)
            ELSE /\ e.rej = FALSE /\ OutOk(e, e.out) /\ After(e.out) = e.res
                 /\ IF e.real THEN LocalMeanReal(Before(e.im), W(e.im), H(e.im), r, e.sc, e.down, e.res)
                    ELSE e.res = LocalMean(Before(e.im), W(e.im), H(e.im), r, e.sc, e.down)
      [] e.e = "otsu" -> Unchanged(e.im) /\ (e.rep = 1 => Before(e.im) = e.px) /\ OtsuOk(e)
      [] e.e = "filter" -> /\ OutOk(e, e.out) /\ e.rej = FALSE /\ After(e.out) = e.res /\ Before(e.im) = e.px
                           /\ OtsuOk(e) /\ e.res = Threshold(e.px, e.t, e.down)
      [] e.e = "compute" -> IF e.k = 0 /\ e.sc = 16 THEN (IF e.otsu2 THEN IsOtsu2(e.h, e.t) ELSE IsOtsu(e.h, e.t))
                            ELSE IsTuned(e.h, e.otsu2, e.k, e.sc, e.down, e.t)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
