------------------------------- MODULE Images -------------------------------
(* Images and views of images. An image is a window (offset, stride, width,  *)
(* height, number of bands) into a buffer. An owned image has a buffer of    *)
(* its own, a view looks at the buffer of another image or of the caller.    *)
(* Gray images have one band. Sample (x,y,b) lives at                        *)
(*      offset + y*stride + x*bands + b                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES im,    \* id -> [buf, off, stride, w, h, nb, view]
          mem    \* buffer id -> sequence of values. An owned image's buffer has its id.

Ids == DOMAIN im

Addr(r, x, y, b) == r.off + y * r.stride + x * r.nb + b + 1
Valid(r, x, y, b) == x >= 0 /\ x < r.w /\ y >= 0 /\ y < r.h /\ b >= 0 /\ b < r.nb
\* samples in row-major order
Count(r) == r.w * r.h * r.nb
SampleAddr(r, k) == LET row == r.w * r.nb IN r.off + (k \div row) * r.stride + (k % row) + 1   \* k counts from 0
PixelsIn(m, r) == [k \in 1..Count(r) |-> m[r.buf][SampleAddr(r, k - 1)]]
Pixels(a) == PixelsIn(mem, im[a])
Cells(r) == { SampleAddr(r, k) : k \in 0..(Count(r) - 1) }
\* the other way: does cell c hold a sample, and which one (rows do not overlap)
IsCell(r, c) == LET d == c - 1 - r.off row == r.w * r.nb IN
    Count(r) > 0 /\ d >= 0 /\ (IF r.stride = 0 THEN FALSE ELSE d % r.stride < row /\ d \div r.stride < r.h)
SampleAt(r, c) == LET d == c - 1 - r.off IN (d \div r.stride) * r.w * r.nb + (d % r.stride) + 1
SameShape(r, s) == r.w = s.w /\ r.h = s.h /\ r.nb = s.nb

PutI(a, r) == im' = [z \in Ids \cup {a} |-> IF z = a THEN r ELSE im[z]]
PutM(a, s) == mem' = [z \in DOMAIN mem \cup {a} |-> IF z = a THEN s ELSE mem[z]]
Zeros(n) == [k \in 1..n |-> 0]

Owned(a, w, h, nb) == [buf |-> a, off |-> 0, stride |-> w * nb, w |-> w, h |-> h, nb |-> nb, view |-> FALSE]

Init == im = << >> /\ mem = << >>

\* more samples than 32 bits count are rejected (the largest quotient, without numbers beyond 31 bits)
Half == 2147483647
TooMany(n, h) == n > 2 /\ h > 2 * (Half \div n) + (2 * (Half % n) + 1) \div n
TooBig(w, h, nb) == IF nb > w THEN TooMany(h * w, nb) ELSE TooMany(w * nb, h)

New(a, w, h, nb) == PutI(a, Owned(a, w, h, nb)) /\ PutM(a, Zeros(w * h * nb))
NewFilled(a, w, h, nb, vs) == Len(vs) = w * h * nb /\ PutI(a, Owned(a, w, h, nb)) /\ PutM(a, vs)
\* a view of caller memory
Wrap(a, vs, off, stride, w, h, nb) ==
    /\ PutI(a, [buf |-> a, off |-> off, stride |-> stride, w |-> w, h |-> h, nb |-> nb, view |-> TRUE])
    /\ PutM(a, vs)

RectOk(r, x0, y0, x1, y1) == 0 <= x0 /\ x0 <= x1 /\ x1 <= r.w /\ 0 <= y0 /\ y0 <= y1 /\ y1 <= r.h
SubRec(r, x0, y0, x1, y1) == [r EXCEPT !.off = r.off + y0 * r.stride + x0 * r.nb, !.w = x1 - x0, !.h = y1 - y0, !.view = TRUE]
Sub(a, p, x0, y0, x1, y1) == RectOk(im[p], x0, y0, x1, y1) /\ PutI(a, SubRec(im[p], x0, y0, x1, y1)) /\ UNCHANGED mem

ShapeIs(a, w, h, nb) == im[a].w = w /\ im[a].h = h /\ im[a].nb = nb
CanReshape(a, w, h, nb) == ShapeIs(a, w, h, nb) \/ ~im[a].view
Fits(a, w, h, nb) == w * h * nb <= Len(mem[a])
\* new shape on the existing storage, samples laid out row by row
ReshapeKeep(a, w, h, nb) ==
    /\ UNCHANGED mem
    /\ IF ShapeIs(a, w, h, nb) THEN UNCHANGED im
       ELSE ~im[a].view /\ Fits(a, w, h, nb) /\ im' = [im EXCEPT ![a].w = w, ![a].h = h, ![a].nb = nb, ![a].stride = w * nb]
\* new shape on storage with unspecified content (seen are the samples which are found in it)
ReshapeFresh(a, w, h, nb, seen) ==
    /\ ~im[a].view
    /\ Len(seen) = w * h * nb
    /\ PutI(a, Owned(a, w, h, nb))
    /\ PutM(a, seen)
\* shape change with unspecified content; the storage only ever grows
ReshapeAny(a, w, h, nb, seen) ==
    IF ShapeIs(a, w, h, nb) THEN UNCHANGED << im, mem >>
    ELSE /\ ~im[a].view
         /\ Len(seen) = w * h * nb
         /\ PutI(a, Owned(a, w, h, nb))
         /\ PutM(a, [k \in 1..(IF Len(mem[a]) > Len(seen) THEN Len(mem[a]) ELSE Len(seen)) |->
                        IF k <= Len(seen) THEN seen[k] ELSE mem[a][k]])

\* makes shape and samples of a equal to those of b
CanCopy(a, b) == SameShape(im[a], im[b]) \/ ~im[a].view
CopyTo(a, b) ==
    LET p == TLCEval(Pixels(b)) r == im[a] s == im[b] IN
    IF SameShape(r, s)
    THEN /\ UNCHANGED im
         /\ mem' = [mem EXCEPT ![r.buf] =
                [c \in 1..Len(@) |-> IF IsCell(r, c) THEN p[SampleAt(r, c)] ELSE @[c]]]
    ELSE /\ ~r.view
         /\ PutI(a, Owned(a, s.w, s.h, s.nb))
         /\ PutM(a, [c \in 1..(IF Len(p) > Len(mem[a]) THEN Len(p) ELSE Len(mem[a])) |->
                IF c <= Len(p) THEN p[c] ELSE mem[a][c]])
\* assigning: from an owned image its pixels are copied, from a view a view of the same pixels results
AssignView(a, b) == im[b].view /\ PutI(a, im[b]) /\ UNCHANGED mem
\* duplicating an owned image
DupOwned(a, b) == ~im[b].view /\ PutI(a, Owned(a, im[b].w, im[b].h, im[b].nb)) /\ PutM(a, Pixels(b))
DupView(a, b) == AssignView(a, b)

Write(a, x, y, b, v) == Valid(im[a], x, y, b) /\ UNCHANGED im /\ mem' = [mem EXCEPT ![im[a].buf][Addr(im[a], x, y, b)] = v]
Remove(a) == im' = [z \in Ids \ {a} |-> im[z]] /\ UNCHANGED mem
Average(a, x, y) == LET r == im[a] IN [b \in 1..r.nb |-> mem[r.buf][Addr(r, x, y, b - 1)]]
=============================================================================
