----------------------------- MODULE BlockTrace -----------------------------
EXTENDS Blocks, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Valid(e) ==
    LET w == W(e.im) h == H(e.im) req == Resolve(e.len4, e.frac64, Side(w, h)) o == e.out IN
    /\ Unchanged(e.im) /\ o.k = e.k0 /\ AroundUnchanged(o) /\ After(o) = e.res
    /\ IF W(o) # w \/ H(o) # h \/ req <= 0 \/ w < req \/ h < req
       THEN e.rej = TRUE /\ Unchanged(o)
       ELSE LET g == Grid(w, h, req) p == Before(e.im) bt == BlockTable(w, h, g) IN
            /\ e.rej = FALSE
            /\ CASE e.kind = "mean" -> IF e.real THEN MeanRealOk(p, bt, g, e.sc, e.local, e.down, e.res)
                                       ELSE MeanOk(p, bt, g, e.sc, e.local, e.down, e.lim, e.res)
                 [] e.kind = "otsu" -> OtsuBlocksOk(TLCEval([k \in DOMAIN p |-> p[k] \div e.unit]), bt, g, e.local, e.otsu2, e.k, e.sc, e.down, e.res)
                 [] e.kind = "minmax" -> MinMaxOk(p, bt, g, e.local, e.sc, e.ms4, e.down, e.real, e.res)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
