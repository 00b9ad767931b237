----------------------------- MODULE RegionModel -----------------------------
(* The fast convolutions: inner part row by row, then the strips along the    *)
(* borders (all taps through the border rule), or the normalised strips,      *)
(* which use only taps inside the image. A tap is << weight, dx, dy >> with   *)
(* the coordinate read. Every pixel is written once, with the right taps.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxW, MaxH, Normalised
VARIABLES pc, dir, w, h, kw, o, line, written, taps
rvars == << pc, dir, w, h, kw, o, line, written, taps >>
OffR == kw - o - 1
RInit == /\ pc = "pick" /\ dir = "h" /\ w = 1 /\ h = 1 /\ kw = 1 /\ o = 0 /\ line = 0 /\ written = {} /\ taps = {}
\* widths of the fast path: narrower than the image along the convolved axes (as wide too when normalised)
Pick == /\ pc = "pick" /\ dir' \in (IF Normalised THEN {"h", "v"} ELSE {"h", "v", "2d"})
        /\ w' \in 1..MaxW /\ h' \in 1..MaxH
        /\ LET n == CASE dir' = "h" -> w' [] dir' = "v" -> h' [] dir' = "2d" -> (IF w' < h' THEN w' ELSE h') IN
           kw' \in 1..(IF Normalised THEN n ELSE n - 1)
        /\ o' \in 0..(kw' - 1) /\ pc' = "inner" /\ line' = 0 /\ UNCHANGED << written, taps >>
Full(x, y) == CASE dir = "h" -> { << x, y, k, x - o + k, y >> : k \in 0..(kw - 1) }
                [] dir = "v" -> { << x, y, k, x, y - o + k >> : k \in 0..(kw - 1) }
                [] dir = "2d" -> { << x, y, kw * i + j, x - o + j, y - o + i >> : i \in 0..(kw - 1), j \in 0..(kw - 1) }
\* the inner loops of the code, one row per step
Row == /\ pc = "inner"
       /\ IF line < h
          THEN /\ LET xs == IF dir = "v" THEN 0..(w - 1) ELSE o..(w - OffR - 1)
                      on == dir = "h" \/ (line >= o /\ line < h - OffR) IN
                  /\ written' = (IF on THEN { << x, line >> : x \in xs } ELSE {})
                  /\ taps' = (IF on THEN UNION { Full(x, line) : x \in xs } ELSE {})
               /\ line' = line + 1 /\ UNCHANGED pc
          ELSE pc' = "sides" /\ line' = 0 /\ written' = {} /\ taps' = {}
       /\ UNCHANGED << dir, w, h, kw, o >>
\* normalised strips: left / top pixel at distance c from the edge uses weights from kw - (OffR + 1 + c) on, right / bottom ones up to the last pixel
LowTaps(c) == { << k, k - (kw - (OffR + 1 + c)) >> : k \in (kw - (OffR + 1 + c))..(kw - 1) }
HighTaps(c, n) == { << k, c - o + k >> : k \in 0..(n - (c - o) - 1) }
\* rows: columns left of o and right of w - OffR
Sides == /\ pc = "sides"
         /\ IF dir # "v" /\ line < h
            THEN /\ LET l == 0..(o - 1) r == (w - OffR)..(w - 1) IN
                    /\ written' = { << x, line >> : x \in l \cup r }
                    /\ taps' = IF Normalised THEN UNION ({ { << x, line, t[1], t[2], line >> : t \in LowTaps(x) } : x \in l }
                                                        \cup { { << x, line, t[1], t[2], line >> : t \in HighTaps(x, w) } : x \in r })
                               ELSE UNION { Full(x, line) : x \in l \cup r }
                 /\ line' = line + 1 /\ UNCHANGED pc
            ELSE pc' = "ends" /\ line' = 0 /\ written' = {} /\ taps' = {}
         /\ UNCHANGED << dir, w, h, kw, o >>
\* columns: rows above o and below h - OffR
Ends == /\ pc = "ends"
        /\ IF dir # "h" /\ line < w
           THEN /\ LET on == dir = "v" \/ (line >= o /\ line < w - OffR) a == 0..(o - 1) b == (h - OffR)..(h - 1) IN
                   /\ written' = (IF on THEN { << line, y >> : y \in a \cup b } ELSE {})
                   /\ taps' = IF ~on THEN {} ELSE
                              IF Normalised THEN UNION ({ { << line, y, t[1], line, t[2] >> : t \in LowTaps(y) } : y \in a }
                                                        \cup { { << line, y, t[1], line, t[2] >> : t \in HighTaps(y, h) } : y \in b })
                              ELSE UNION { Full(line, y) : y \in a \cup b }
                /\ line' = line + 1 /\ UNCHANGED pc
           ELSE pc' = "done" /\ line' = 0 /\ written' = {} /\ taps' = {}
        /\ UNCHANGED << dir, w, h, kw, o >>
RSpec == RInit /\ [][Pick \/ Row \/ Sides \/ Ends]_rvars
Pixels == { << x, y >> : x \in 0..(w - 1), y \in 0..(h - 1) }
InImage(t) == t[4] >= 0 /\ t[4] < w /\ t[5] >= 0 /\ t[5] < h
\* what each step writes
Writes == /\ written \subseteq Pixels
          /\ \A p \in written : LET want == Full(p[1], p[2]) IN
               { t \in taps : t[1] = p[1] /\ t[2] = p[2] } = (IF Normalised THEN { t \in want : InImage(t) } ELSE want)
          /\ (pc = "inner" => \A t \in taps : InImage(t))
\* each pixel belongs to exactly one of the steps: inner row, side strip, end strip
InnerP(p) == /\ (dir # "v" => p[1] >= o /\ p[1] < w - OffR)
             /\ (dir # "h" => p[2] >= o /\ p[2] < h - OffR)
SideP(p) == dir # "v" /\ (p[1] < o \/ p[1] >= w - OffR)
EndP(p) == dir # "h" /\ (p[2] < o \/ p[2] >= h - OffR) /\ (dir = "v" \/ (p[1] >= o /\ p[1] < w - OffR))
Partition == /\ \A p \in Pixels : Cardinality({ n \in 1..3 : CASE n = 1 -> InnerP(p) [] n = 2 -> SideP(p) [] n = 3 -> EndP(p) }) = 1
             /\ (pc = "inner" /\ line > 0 => written = { p \in Pixels : p[2] = line - 1 /\ InnerP(p) })
             /\ (pc = "sides" /\ line > 0 => written = { p \in Pixels : p[2] = line - 1 /\ SideP(p) })
             /\ (pc = "ends" /\ line > 0 => written = { p \in Pixels : p[1] = line - 1 /\ EndP(p) })
=============================================================================
