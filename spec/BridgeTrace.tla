----------------------------- MODULE BridgeTrace -----------------------------
(* Recorded calls of the natives against Bridge.                              *)
EXTENDS Bridge, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Thresholds == {"fixed", "otsu", "local", "bmean", "minmax", "botsu"}
Usual(e) ==
    /\ e.cpp = Mapped(e.op, e.real, e.java)
    /\ Disciplined(e.log)
    \* what C++ accepts is accepted
    /\ (e.rej => e.refRej)
    \* what C++ rejects is rejected, only thresholds keep it to themselves
    /\ (e.refRej => (e.rej \/ e.op \in Thresholds))
    /\ MemoryOk(e.imgs, e.arrs, ~e.refRej)
\* one of its requests for memory was refused: it gives up, or gives its usual result
Short(e) ==
    /\ Disciplined(e.log)
    /\ MemoryOk(e.imgs, e.arrs, FALSE)
    /\ (e.rej \/ e.op \in Thresholds \/ e.op = "setrule" \/ MemoryOk(e.imgs, e.arrs, ~e.refRej))
\* there was no memory for the native object: Java hears of it and there is none
Nothing(e) == e.rej /\ ~e.set /\ Disciplined(e.log)
Valid(e) == CASE e.e = "native" -> Usual(e)
              [] e.e = "short" -> Short(e)
              [] e.e = "none" -> Nothing(e)
              [] e.e = "left" -> e.n = 0      \* what the native has asked for and not given back
              [] OTHER -> FALSE
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
