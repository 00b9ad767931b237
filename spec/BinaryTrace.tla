---------------------------- MODULE BinaryTrace ----------------------------
EXTENDS Binary, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Result(op, a, b, w, h) == CASE op = "and" -> And(a, b) [] op = "or" -> Or(a, b)
                            [] op = "erode" -> Erode(a, w, h) [] op = "dilate" -> Dilate(a, w, h)
\* alias: the output is the first (1) or second (2) input itself, 0: another image. The output had the shape w0 x h0
OpEvent(e) ==
    LET a == Before(e.ia) b == Before(e.ib)
        o == IF e.alias = 1 THEN e.ia ELSE IF e.alias = 2 THEN e.ib ELSE e.out
        same == ~e.two \/ (W(e.ia) = W(e.ib) /\ H(e.ia) = H(e.ib)) IN
    /\ e.alias # 1 => Unchanged(e.ia)
    /\ e.alias # 2 => Unchanged(e.ib)
    /\ After(o) = e.res
    /\ IF ~same
       THEN e.rej = TRUE /\ Unchanged(o) /\ o.k = e.k0
       ELSE /\ e.rej = FALSE
            /\ W(o) = W(e.ia) /\ H(o) = H(e.ia)
            /\ e.resized \/ AroundUnchanged(o)
            /\ e.res = Result(e.op, a, b, W(e.ia), H(e.ia))
\* two or three images are accepted exactly when they have one shape
Guard(e) == LET s == e.shapes IN e.two = (s[1] # s[2]) /\ e.three = (s[1] # s[2] \/ s[1] # s[3])
Valid(e) == IF e.e = "guard" THEN Guard(e) ELSE OpEvent(e)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
