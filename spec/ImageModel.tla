----------------------------- MODULE ImageModel -----------------------------
(* Bounded exploration of Images with ghost variables: every view remembers  *)
(* which rectangle of which root image it was made from. Checked: addresses  *)
(* stay inside the buffer and are distinct, views of views address exactly   *)
(* the root's pixels, writes change exactly one sample, copies touch exactly *)
(* the destination's samples and owned images do not share storage.          *)
EXTENDS Images, TLC

CONSTANTS MaxW, MaxH, MaxB, Vals
CONSTANTS MaxLevel, Other
VARIABLES ghost    \* view id -> [root, x, y] of its top left corner in the root image
mvars == << im, mem, ghost >>
Root == 1
OtherImg == 4
Views == {2, 3}
Keep == ghost' = ghost

MInit == /\ \E w \in 1..MaxW : \E h \in 1..MaxH : \E nb \in 1..MaxB : \E w2, h2 \in Other :
              /\ im = [z \in {Root, OtherImg} |-> IF z = Root THEN Owned(Root, w, h, nb) ELSE Owned(OtherImg, w2, h2, nb)]
              /\ mem = [z \in {Root, OtherImg} |-> IF z = Root THEN Zeros(w * h * nb) ELSE [k \in 1..(w2 * h2 * nb) |-> 5]]
         /\ ghost = << >>

MSub == \E a \in Views : \E p \in {Root} \cup Views :
          /\ p \in Ids /\ p # a
          /\ \A z \in Views : z # a => TRUE
          /\ \E x0, x1 \in 0..MaxW : \E y0, y1 \in 0..MaxH :
               /\ Sub(a, p, x0, y0, x1, y1)
               /\ LET g == IF p = Root THEN [x |-> 0, y |-> 0] ELSE ghost[p] IN
                  ghost' = [z \in (DOMAIN ghost) \cup {a} |-> IF z = a THEN [x |-> g.x + x0, y |-> g.y + y0] ELSE ghost[z]]
MWrite == \E a \in Ids : \E v \in Vals : \E x \in 0..(MaxW - 1) : \E y \in 0..(MaxH - 1) : \E b \in 0..(MaxB - 1) :
            Write(a, x, y, b, v) /\ Keep
MReshapeOther == \E w, h \in Other : Fits(OtherImg, w, h, im[OtherImg].nb) /\ ReshapeKeep(OtherImg, w, h, im[OtherImg].nb) /\ Keep
MCopyIn == \E a \in Ids \ {OtherImg} : CanCopy(a, OtherImg) /\ SameShape(im[a], im[OtherImg]) /\ CopyTo(a, OtherImg) /\ Keep
MCopyOut == \E b \in Ids \ {OtherImg} : CanCopy(OtherImg, b) /\ CopyTo(OtherImg, b) /\ Keep
MNext == MSub \/ MWrite \/ MReshapeOther \/ MCopyIn \/ MCopyOut
MSpec == MInit /\ [][MNext]_mvars

Triples(r) == { t \in (0..(r.w - 1)) \X (0..(r.h - 1)) \X (0..(r.nb - 1)) : TRUE }
InBuffer == \A a \in Ids : \A t \in Triples(im[a]) : Addr(im[a], t[1], t[2], t[3]) \in 1..Len(mem[im[a].buf])
Distinct == \A a \in Ids : Cardinality({ Addr(im[a], t[1], t[2], t[3]) : t \in Triples(im[a]) }) = Cardinality(Triples(im[a]))
RowMajor == \A a \in Ids : Cells(im[a]) = { Addr(im[a], t[1], t[2], t[3]) : t \in Triples(im[a]) }
ViewsComposed == \A a \in DOMAIN ghost : \A t \in Triples(im[a]) :
    /\ Valid(im[Root], ghost[a].x + t[1], ghost[a].y + t[2], t[3])
    /\ Addr(im[a], t[1], t[2], t[3]) = Addr(im[Root], ghost[a].x + t[1], ghost[a].y + t[2], t[3])
Diff == { << b, c >> \in { << b, c >> : b \in DOMAIN mem, c \in 1..30 } :
            c <= Len(mem[b]) /\ c <= Len(mem'[b]) /\ mem[b][c] # mem'[b][c] }
OneSample == [][ \A a \in Ids : \A v \in Vals : \A t \in Triples(im[a]) :
                   Write(a, t[1], t[2], t[3], v) => Diff \subseteq { << im[a].buf, Addr(im[a], t[1], t[2], t[3]) >> } ]_mvars
CopyExact == [][ \A a, b \in Ids : a # b /\ im[a].buf # im[b].buf /\ CopyTo(a, b) =>
                   /\ PixelsIn(mem', im'[a]) = Pixels(b)
                   /\ Diff \subseteq { << im'[a].buf, c >> : c \in Cells(im'[a]) } ]_mvars
Bounded == TLCGet("level") <= MaxLevel
=============================================================================
