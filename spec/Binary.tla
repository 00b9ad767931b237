------------------------------- MODULE Binary -------------------------------
(* Logic and morphology of binary images, given row by row.                  *)
EXTENDS Pixels
And(a, b) == [k \in 1..Len(a) |-> IF a[k] # 0 /\ b[k] # 0 THEN 1 ELSE 0]
Or(a, b) == [k \in 1..Len(a) |-> IF a[k] # 0 \/ b[k] # 0 THEN 1 ELSE 0]
Px(s, w, h, x, y) == IF x >= 0 /\ x < w /\ y >= 0 /\ y < h THEN s[At(w, x, y)] ELSE 0
Cross(s, w, h, k) == LET x == X(k, w) y == Y(k, w) IN
    << s[k], Px(s, w, h, x - 1, y), Px(s, w, h, x + 1, y), Px(s, w, h, x, y - 1), Px(s, w, h, x, y + 1) >>
Erode(s, w, h) == [k \in 1..(w * h) |-> LET c == Cross(s, w, h, k) IN IF \A j \in 1..5 : c[j] = 1 THEN 1 ELSE 0]
Dilate(s, w, h) == [k \in 1..(w * h) |-> LET c == Cross(s, w, h, k) IN IF ~(\A j \in 1..5 : c[j] = 0) THEN 1 ELSE 0]
=============================================================================
