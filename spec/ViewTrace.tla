----------------------------- MODULE ViewTrace -----------------------------
(* Recorded operations on images placed anywhere in memory, together with     *)
(* what the same operation did to stand-alone images with the same pixels.    *)
EXTENDS Pixels, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
Valid(e) ==
    /\ e.rej = e.aloneRej
    \* the pixels of inputs and whatever is around them
    /\ \A k \in DOMAIN e.ins : Unchanged(e.ins[k])
    \* outputs: as on stand-alone images inside, as before outside
    /\ Len(e.outs) = Len(e.alone)
    /\ \A k \in DOMAIN e.outs : LET im == e.outs[k] IN
          /\ im.k = e.ks[k]
          /\ AroundUnchanged(im)
          /\ (~e.rej => Same(After(im), e.alone[k], e.tol))
    \* storage is free to be used, but not what is around it
    /\ \A k \in DOMAIN e.stos : AroundUnchanged(e.stos[k])
    /\ Same(e.ret, e.aloneRet, e.tol)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
