--------------------------- MODULE ThresholdModel ---------------------------
(* A filter object applied to several images in a row. Its intermediate image *)
(* and the output keep their content from the call before (possibly another   *)
(* shape); every call blurs into the intermediate image, then compares.       *)
EXTENDS Thresholds
CONSTANTS Shapes, Vals, MaxCalls
VARIABLES pc, p, w, h, st, out, r, t, down, calls
tvars == << pc, p, w, h, st, out, r, t, down, calls >>
TInit == pc = "idle" /\ p = <<>> /\ w = 0 /\ h = 0 /\ st = <<>> /\ out = <<>> /\ r \in 1..2 /\ t \in Vals /\ down \in BOOLEAN /\ calls = 0
Image(z) == w' = z \div 10 /\ h' = z % 10 /\ p' \in [1..(w' * h') -> Vals]
Resize(old, n) == [k \in 1..n |-> IF k <= Len(old) THEN old[k] ELSE 0]
Global == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
          /\ \E z \in Shapes : Image(z)
          /\ out' = LET o == Resize(out, w' * h') IN [k \in DOMAIN o |-> IF (p'[k] <= t) = down THEN 1 ELSE 0]
          /\ pc' = "global" /\ UNCHANGED << st, r, t, down >>
Local == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
         /\ \E z \in Shapes : Image(z)
         /\ st' = Resize(st, w' * h') /\ out' = Resize(out, w' * h') /\ pc' = "blur" /\ UNCHANGED << r, t, down >>
Blur == /\ pc = "blur" /\ st' = MeanBlur(p, w, h, r) /\ pc' = "compare" /\ UNCHANGED << p, w, h, out, r, t, down, calls >>
Compare == /\ pc = "compare" /\ pc' = "local"
           /\ out' = [k \in DOMAIN out |-> IF down THEN (IF p[k] * 64 <= st[k] * 48 THEN 1 ELSE 0) ELSE (IF p[k] * 48 > st[k] * 64 THEN 1 ELSE 0)]
           /\ UNCHANGED << p, w, h, st, r, t, down, calls >>
Return == pc \in {"global", "local"} /\ pc' = "idle" /\ UNCHANGED << p, w, h, st, out, r, t, down, calls >>
MSpec == TInit /\ [][Global \/ Local \/ Blur \/ Compare \/ Return]_tvars
Definition == /\ pc = "global" => out = Threshold(p, t, down) /\ Threshold(p, t, ~down) = [k \in DOMAIN out |-> 1 - out[k]]
              /\ pc = "local" => out = LocalMean(p, w, h, r, 48, down)
MeanInside == pc = "local" => \A k \in DOMAIN st : \E a, b \in DOMAIN p : p[a] <= st[k] /\ st[k] <= p[b]
=============================================================================
