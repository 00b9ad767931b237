------------------------------ MODULE StatModel ------------------------------
(* Scans of a window row by row, accumulating one cell per step, and the      *)
(* border fill done as two row bands followed by two column bands.            *)
EXTENDS Stats
CONSTANTS MaxW, MaxH, MaxLen
Vals == {-2, -1, 1}
VARIABLES pc, im, r, k, lo, hi, sum, hist, cells
svars == << pc, im, r, k, lo, hi, sum, hist, cells >>
NONE == << 0, 0, 0, 0 >>
SInit == /\ pc = "shape" /\ im = [k |-> NONE, b |-> <<>>, a |-> <<>>] /\ r = 0 /\ k = 0
         /\ lo = 99 /\ hi = -99 /\ sum = 0 /\ hist = <<>> /\ cells = {}
Shape == /\ pc = "shape"
         /\ \E w \in 1..MaxW, h \in 1..MaxH, off \in 0..2, pad \in 0..2, tail \in 0..1 :
              LET len == off + (w + pad) * (h - 1) + w + tail IN
              /\ len <= MaxLen
              /\ \E m \in [1..len -> Vals] : im' = [k |-> << off, w + pad, w, h >>, b |-> m, a |-> m]
         /\ pc' \in {"scan", "fill"} /\ r' \in 0..2 /\ (pc' = "scan" => r' = 0)
         /\ hist' = [v \in Vals |-> 0]
         /\ UNCHANGED << k, lo, hi, sum, cells >>
Scan == /\ pc = "scan" /\ k < Size(im)
        /\ LET y == k \div W(im) x == k % W(im) c == im.k[1] + y * im.k[2] + x + 1 v == im.b[c] IN
           /\ lo' = IF v < lo THEN v ELSE lo
           /\ hi' = IF v > hi THEN v ELSE hi
           /\ sum' = sum + v
           /\ hist' = [hist EXCEPT ![v] = @ + 1]
           /\ cells' = cells \cup {c}
        /\ k' = k + 1 /\ UNCHANGED << pc, im, r >>
\* rows above r and below h - r, then columns of the rows between
Top == /\ pc = "fill" /\ pc' = "cols" /\ UNCHANGED << r, k, lo, hi, sum, hist >>
       /\ cells' = IF r >= W(im) \/ r >= H(im) THEN { Cell(im, q) : q \in 1..Size(im) }
                   ELSE { im.k[1] + y * im.k[2] + x + 1 : x \in 0..(W(im) - 1), y \in (0..(r - 1)) \cup ((H(im) - r)..(H(im) - 1)) }
       /\ im' = [im EXCEPT !.a = [c \in DOMAIN im.a |-> IF c \in cells' THEN 7 ELSE im.a[c]]]
Cols == /\ pc = "cols" /\ pc' = "filled" /\ UNCHANGED << r, k, lo, hi, sum, hist >>
        /\ LET new == IF r >= W(im) \/ r >= H(im) THEN {}
                      ELSE { im.k[1] + y * im.k[2] + x + 1 : x \in (0..(r - 1)) \cup ((W(im) - r)..(W(im) - 1)), y \in r..(H(im) - r - 1) } IN
           /\ cells' = cells \cup new
           /\ im' = [im EXCEPT !.a = [c \in DOMAIN im.a |-> IF c \in new THEN 7 ELSE im.a[c]]]
SSpec == SInit /\ [][Shape \/ Scan \/ Top \/ Cols]_svars
Inside == pc # "shape" => \A c \in cells : IsCell(im, c)
ScanDone == (pc = "scan" /\ k = Size(im)) =>
    LET p == Before(im) IN
    /\ Cardinality(cells) = Size(im)
    /\ IsMin(p, lo) /\ IsMax(p, hi) /\ sum = SumOf(p)
    /\ \A v \in Vals : hist[v] = Count(p, v)
    /\ lo <= Mean(p) /\ Mean(p) <= hi
FillDone == pc = "filled" => AroundUnchanged(im) /\ After(im) = FillBorder(Before(im), W(im), H(im), 7, r)
=============================================================================
