----------------------------- MODULE ChangModel -----------------------------
(* The single pass algorithm of Chang et al. as a state machine on all small *)
(* images: raster scan, contour tracing with marking of visited background   *)
(* in a bordered working copy which is kept (ring included) between calls.   *)
EXTENDS Contours, TLC
CONSTANTS Sizes,     \* sizes, as 10 w + h
          Rounds,    \* number of images processed by one finder
          First,     \* what the finder processes first in a history, as binary numbers (empty: everything)
          Limits     \* contour sizes, as 1000 min + max
VARIABLES w, h, rule, lim, img, border, lab, full, kept, blobs, pos, pc, tr, round
cvars == << w, h, rule, lim, img, border, lab, full, kept, blobs, pos, pc, tr, round >>

W == w + 2
R == rule
O == Off(rule, W)
Inside(k) == LET x == (k - 1) % W y == (k - 1) \div W IN x >= 1 /\ x <= w /\ y >= 1 /\ y <= h
NoTrace == [k |-> 0, dir |-> 0, k0 |-> 0, dir0 |-> 0, label |-> 0, pts |-> <<>>]
Blank == [k \in 1..(W * (h + 2)) |-> 0]

Start(i) == /\ img' = i
            /\ border' = [k \in 1..Len(border) |-> IF Inside(k) THEN Enlarge(i, w, h)[k] ELSE border[k]]
            /\ lab' = [k \in 1..Len(border) |-> 0]
            /\ full' = <<>> /\ kept' = <<>> /\ blobs' = <<>> /\ pos' = 1 /\ pc' = "scan" /\ tr' = NoTrace

CInit == /\ \E s \in Sizes : w = s \div 10 /\ h = s % 10
         /\ rule \in {4, 8} /\ \E l \in Limits : lim = << l \div 1000, l % 1000 >>
         /\ img = <<>> /\ border = Blank /\ lab = Blank /\ full = <<>> /\ kept = <<>> /\ blobs = <<>>
         /\ pos = 1 /\ pc = "idle" /\ tr = NoTrace /\ round = 0
Fixed == UNCHANGED << w, h, rule, lim >>
Begin == /\ pc = "idle" /\ round < Rounds /\ round' = round + 1
         /\ IF round = 0 /\ First # {}
            THEN \E f \in First : Start([k \in 1..(w * h) |-> (f \div (2 ^ (k - 1))) % 2])
            ELSE \E i \in [1..(w * h) -> {0, 1}] : Start(i)
         /\ Fixed

Search(b, k, dir) == LET hit == { s \in 0..(R - 1) : b[k + O[((dir + s) % R) + 1]] = 1 } IN
    IF hit = {} THEN [found |-> FALSE, dir |-> dir, marked |-> { k + O[s + 1] : s \in 0..(R - 1) }]
    ELSE LET s == MinOf(hit) IN [found |-> TRUE, dir |-> (dir + s) % R, marked |-> { k + O[((dir + t) % R) + 1] : t \in 0..(s - 1) }]
Mark(b, m) == [k \in 1..Len(b) |-> IF k \in m THEN 255 ELSE b[k]]
Next(dir) == IF R = 8 THEN (dir + 6) % 8 ELSE (dir + 3) % 4

Finish(p, ext) ==
    /\ full' = Append(full, p)
    \* points are recorded while fewer than the maximum are stored
    /\ LET rec == SubSeq(p, 1, IF Len(p) < lim[2] THEN Len(p) ELSE lim[2]) IN
       kept' = Append(kept, IF Len(rec) >= lim[2] \/ Len(rec) < lim[1] THEN <<>> ELSE rec)
    /\ pc' = IF ext THEN "below" ELSE "advance"
    /\ tr' = NoTrace
BeginTrace(label, ext, bl) ==
    LET d0 == IF R = 8 THEN (IF ext THEN 7 ELSE 3) ELSE (IF ext THEN 0 ELSE 2)
        s == Search(border, pos, d0) IN
    /\ lab' = [lab EXCEPT ![pos] = label]
    /\ border' = Mark(border, s.marked)
    /\ blobs' = bl
    /\ IF s.found
       THEN /\ tr' = [k |-> pos + O[s.dir + 1], dir |-> Next(s.dir), k0 |-> pos, dir0 |-> s.dir, label |-> label, pts |-> << pos >>]
            /\ pc' = IF ext THEN "outer" ELSE "inner"
            /\ UNCHANGED << full, kept >>
       ELSE Finish(<< pos >>, ext)
    /\ UNCHANGED << pos, img, round >> /\ Fixed

\* step 1: unlabelled foreground below background
Step1 == /\ pc = "scan" /\ pos <= Len(border) /\ border[pos] = 1
         /\ lab[pos] = 0 /\ border[pos - W] # 1
         /\ BeginTrace(Len(blobs) + 1, TRUE, Append(blobs, [id |-> Len(blobs) + 1, ext |-> Len(full), int |-> <<>>]))
\* step 2: foreground above unmarked background
Below == /\ pc \in {"scan", "below"} /\ pos <= Len(border) /\ border[pos] = 1
         /\ (pc = "scan" => ~(lab[pos] = 0 /\ border[pos - W] # 1))
         /\ border[pos + W] = 0
         /\ LET l == IF lab[pos] # 0 THEN lab[pos] ELSE lab[pos - 1] IN
            BeginTrace(l, FALSE, [blobs EXCEPT ![l].int = Append(@, Len(full))])
NoBelow == /\ pc = "below" /\ border[pos + W] # 0 /\ pc' = "advance"
           /\ UNCHANGED << w, h, rule, lim, img, border, lab, full, kept, blobs, pos, tr, round >>
\* step 3: everything else takes the label to the left
Step3 == /\ pc = "scan" /\ pos <= Len(border)
         /\ border[pos] = 1 => (~(lab[pos] = 0 /\ border[pos - W] # 1) /\ border[pos + W] # 0)
         /\ lab' = IF border[pos] = 1 /\ lab[pos] = 0 THEN [lab EXCEPT ![pos] = lab[pos - 1]] ELSE lab
         /\ pos' = pos + 1
         /\ UNCHANGED << w, h, rule, lim, img, border, full, kept, blobs, pc, tr, round >>
Advance == /\ pc = "advance" /\ pos' = pos + 1 /\ pc' = "scan"
           /\ UNCHANGED << w, h, rule, lim, img, border, lab, full, kept, blobs, tr, round >>
Trace == /\ pc \in {"outer", "inner"}
         /\ LET s == Search(border, tr.k, tr.dir) IN
            /\ border' = Mark(border, s.marked)
            /\ IF tr.k = tr.k0 /\ s.dir = tr.dir0
               THEN Finish(tr.pts, pc = "outer") /\ lab' = lab
               ELSE /\ lab' = [lab EXCEPT ![tr.k] = tr.label]
                    /\ tr' = [tr EXCEPT !.k = tr.k + O[s.dir + 1], !.dir = Next(s.dir), !.pts = Append(@, tr.k)]
                    /\ UNCHANGED << full, kept, pc >>
         /\ UNCHANGED << w, h, rule, lim, img, blobs, pos, round >>
Done == /\ pc = "scan" /\ pos > Len(border) /\ pc' = "idle"
        /\ UNCHANGED << w, h, rule, lim, img, border, lab, full, kept, blobs, pos, tr, round >>
CNext == Begin \/ Step1 \/ Below \/ NoBelow \/ Step3 \/ Advance \/ Trace \/ Done
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)

\* ---------------------------------------------------------------- what is checked
Finished == pc = "idle" /\ round > 0
\* the hole a contour belongs to, found from its points
HoleOf(x, c, p) ==
    LET r == c[p[1]]
        o == Off(Dual(rule), W)
        cand == { z \in Holes(x, c, W, r) : Range(p) = { k \in 1..Len(x) : x[k] = 1 /\ c[k] = r /\
                     \E d \in 1..Len(o) : x[k + o[d]] = 0 /\ c[k + o[d]] = z } }
    IN IF cand = {} THEN 0 ELSE MinOf(cand)
Correct == Finished =>
    LET x == Enlarge(img, w, h)
        c == [k \in 1..Len(x) |-> RootOf(x, rule, W, k)] IN
    /\ LabelsOk(x, c, lab, [k \in 1..Len(blobs) |-> blobs[k].id])
    /\ ContoursOk(x, c, rule, W, lab, blobs, full, [k \in 1..Len(full) |-> HoleOf(x, c, full[k])])
    /\ kept = [k \in 1..Len(full) |-> Kept(full[k], lim[1], lim[2])]
Terminates == (pc = "scan") ~> (pc = "idle")
StepBound == Len(tr.pts) <= 8 * w * h
=============================================================================
