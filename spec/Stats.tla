-------------------------------- MODULE Stats --------------------------------
(* Statistics of the pixels of an image and fills of (parts of) an image.     *)
EXTENDS Pixels
IsMin(p, v) == (\E k \in DOMAIN p : p[k] = v) /\ \A k \in DOMAIN p : p[k] >= v
IsMax(p, v) == (\E k \in DOMAIN p : p[k] = v) /\ \A k \in DOMAIN p : p[k] <= v
Mean(p) == Trunc(SumOf(p), Len(p))
Count(p, v) == Cardinality({ k \in DOMAIN p : p[k] = v })
IsHistogram(p, base, hist) == \A b \in DOMAIN hist : hist[b] = Count(p, base + b - 1)
InBorder(k, w, h, r) == X(k, w) < r \/ Y(k, w) < r \/ w - 1 - X(k, w) < r \/ h - 1 - Y(k, w) < r
FillBorder(p, w, h, v, r) == [k \in DOMAIN p |-> IF InBorder(k, w, h, r) THEN v ELSE p[k]]
=============================================================================
