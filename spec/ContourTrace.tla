---------------------------- MODULE ContourTrace ----------------------------
(* Recorded results of the contour finder against Contours.                  *)
EXTENDS Contours, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Blobs(b) == [k \in 1..Len(b) |-> [id |-> b[k][1], ext |-> b[k][2], int |-> SubSeq(b[k], 3, Len(b[k]))]]
\* labels of the image on the enlarged grid
Lift(l, w, h) == TLCEval(Enlarge(l, w, h))
Points(sets, w) == TLCEval([k \in 1..Len(sets) |-> [j \in 1..Len(sets[k]) |-> IF sets[k][j] < 0 THEN 1 ELSE Inner(sets[k][j] + 1, w)]])
InRange(sets, w, h) == \A k \in 1..Len(sets) : \A j \in 1..Len(sets[k]) : sets[k][j] \in 0..(w * h - 1)

LabelEvent(e) ==
    LET W == e.w + 2 X == TLCEval(Enlarge(e.img, e.w, e.h)) IN
    /\ Certified(X, e.rule, W, e.C, e.D)
    /\ e.lw = e.w /\ e.lh = e.h
    /\ Len(e.labels) = e.w * e.h
    /\ LabelsOk(X, e.C, Lift(e.labels, e.w, e.h), e.ids)
ContourEvent(e) ==
    LET W == e.w + 2 X == TLCEval(Enlarge(e.img, e.w, e.h)) L == Lift(e.labels, e.w, e.h) IN
    /\ Certified(X, e.rule, W, e.C, e.D)
    /\ LabelsOk(X, e.C, L, [k \in 1..Len(e.blobs) |-> e.blobs[k][1]])
    /\ InRange(e.sets, e.w, e.h)
    /\ ContoursOk(X, e.C, e.rule, W, L, Blobs(e.blobs), Points(e.sets, e.w), e.holes)
\* full: the complete contours of the same image
LimitEvent(e) ==
    /\ e.labels = e.flabels
    /\ LimitsOk(Blobs(e.fblobs), e.full, Blobs(e.blobs), e.sets, e.min, e.max, e.save)
Valid(e) == CASE e.e = "label" -> LabelEvent(e)
              [] e.e = "contour" -> ContourEvent(e)
              [] e.e = "limit" -> LimitEvent(e)
              [] OTHER -> FALSE
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
