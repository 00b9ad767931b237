----------------------------- MODULE ViewModel -----------------------------
(* An operation on windows done the way all of them are done: row by row, two *)
(* running cell indexes, a neighbourhood read around the input index.         *)
(* lay: where the windows are, << offset, stride, width, height >>.           *)
EXTENDS Pixels, FiniteSetsExt
CONSTANTS MaxW, MaxH, MaxOff, MaxPad
VARIABLES op, inw, outw, in0, mem, iIn, iOut, x, y, reads, writes
vvars == << op, inw, outw, in0, mem, iIn, iOut, x, y, reads, writes >>
Len0(k) == k[1] + k[2] * k[4] + 1
Shapes == (1..MaxW) \X (1..MaxH)
Layouts(w, h) == { << o, w + p, w, h >> : o \in 0..MaxOff, p \in 0..MaxPad }
VInit == /\ \E s \in Shapes : inw \in Layouts(s[1], s[2]) /\ outw \in Layouts(s[1], s[2])
         /\ op \in {"copy", "sum", "fill"}
         \* all cells of the input memory are different, those of the output are marked
         /\ in0 = [c \in 1..Len0(inw) |-> 3 * c + ((c * c) % 7)] /\ mem = [c \in 1..Len0(outw) |-> -c]
         /\ iIn = inw[1] /\ iOut = outw[1] /\ x = 0 /\ y = 0 /\ reads = {} /\ writes = {}
\* cells of the input read for one pixel of the output
Hood == CASE op = "copy" -> { iIn } [] op = "fill" -> {}
          [] op = "sum" -> { iIn + dx + dy * inw[2] : dx \in { d \in {-1, 0, 1} : x + d \in 0..(inw[3] - 1) },
                                                       dy \in { d \in {-1, 0, 1} : y + d \in 0..(inw[4] - 1) } }
Total(s) == MapThenSumSet(LAMBDA c : in0[c + 1] * 1000, s)
Value == IF op = "fill" THEN 7 ELSE Total(Hood)
Pixel == /\ y < outw[4] /\ x < outw[3]
         /\ mem' = [mem EXCEPT ![iOut + 1] = Value] /\ reads' = reads \cup Hood /\ writes' = writes \cup { iOut }
         /\ iIn' = iIn + 1 /\ iOut' = iOut + 1 /\ x' = x + 1 /\ UNCHANGED << op, inw, outw, in0, y >>
NextRow == /\ y < outw[4] /\ x = outw[3]
           /\ x' = 0 /\ y' = y + 1
           /\ iIn' = iIn + inw[2] - inw[3] /\ iOut' = iOut + outw[2] - outw[3]
           /\ UNCHANGED << op, inw, outw, in0, mem, reads, writes >>
VSpec == VInit /\ [][Pixel \/ NextRow]_vvars
InIm == [k |-> inw, b |-> in0, a |-> in0]
OutIm == [k |-> outw, b |-> [c \in 1..Len0(outw) |-> -c], a |-> mem]
ReadsInside == \A c \in reads : IsCell(InIm, c + 1)
WritesInside == \A c \in writes : IsCell(OutIm, c + 1)
Around == AroundUnchanged(OutIm)
\* the same operation on a copy of the pixels
Alone == LET p == Before(InIm) w == inw[3] h == inw[4] IN
    [k \in 1..(w * h) |-> LET px == X(k, w) py == Y(k, w) IN
       CASE op = "fill" -> 7 [] op = "copy" -> p[k] * 1000
         [] op = "sum" -> SumOf([j \in 1..9 |-> LET qx == px + ((j - 1) % 3) - 1 qy == py + ((j - 1) \div 3) - 1 IN
                                   IF qx \in 0..(w - 1) /\ qy \in 0..(h - 1) THEN p[At(w, qx, qy)] * 1000 ELSE 0])]
Same == y = outw[4] => After(OutIm) = Alone
=============================================================================
