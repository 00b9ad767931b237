------------------------------- MODULE Pixels -------------------------------
(* Images recorded with the memory they live in: im.k = <<offset, stride,    *)
(* width, height>>, im.b / im.a = the memory before / after an operation.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
W(im) == im.k[3]
H(im) == im.k[4]
Size(im) == W(im) * H(im)
\* pixels are numbered row by row from 1
Cell(im, k) == im.k[1] + ((k - 1) \div im.k[3]) * im.k[2] + ((k - 1) % im.k[3]) + 1
IsCell(im, c) == /\ im.k[2] > 0 /\ c - 1 >= im.k[1]
                 /\ (c - 1 - im.k[1]) % im.k[2] < im.k[3]
                 /\ (c - 1 - im.k[1]) \div im.k[2] < im.k[4]
Before(im) == TLCEval([k \in 1..Size(im) |-> im.b[Cell(im, k)]])
After(im) == TLCEval([k \in 1..Size(im) |-> im.a[Cell(im, k)]])
Unchanged(im) == im.a = im.b
\* the memory around the image did not change
AroundUnchanged(im) == Len(im.a) = Len(im.b) /\ \A c \in 1..Len(im.a) : IsCell(im, c) \/ im.a[c] = im.b[c]
SumOf(s) == FoldLeft(+, 0, s)
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)     \* division of C
Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b, tol) == Abs(a - b) <= tol
X(k, w) == (k - 1) % w
Y(k, w) == (k - 1) \div w
At(w, x, y) == y * w + x + 1
=============================================================================
