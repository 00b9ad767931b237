---------------------------- MODULE ImageGen ----------------------------
(* All short histories on two images and their views (gray or interleaved).  *)
EXTENDS Images, TLC, Json
CONSTANTS Depth, Bands
VARIABLE hist
n == Len(hist) + 1
Op(r) == hist' = Append(hist, r)
GInit == /\ im = << Owned(1, 3, 2, Bands), Owned(2, 2, 2, Bands) >>
         /\ mem = << [k \in 1..(6 * Bands) |-> 10 + k], [k \in 1..(4 * Bands) |-> 40 + k] >>
         /\ hist = <<>>
Free == CHOOSE a \in {3, 4} : a \notin Ids
NoDeps(a) == \A z \in Ids : z # a => im[z].buf # a
Rects == { << 0, 0, 2, 2 >>, << 1, 0, 3, 2 >>, << 1, 1, 2, 2 >>, << 0, 1, 2, 2 >>, << 1, 1, 1, 2 >>, << 0, 0, 3, 1 >>, << 0, 0, 1, 3 >> }
GSub == \E p \in Ids : \E t \in Rects : 4 \notin Ids /\ Sub(Free, p, t[1], t[2], t[3], t[4])
          /\ Op([op |-> "sub", a |-> Free, p |-> p, r |-> t])
GReshape == \E a \in Ids : \E s \in {<< 1, 2 >>, << 2, 2 >>, << 2, 3 >>, << 0, 3 >>} :
              ~im[a].view /\ NoDeps(a) /\ Fits(a, s[1], s[2], Bands) /\ ReshapeKeep(a, s[1], s[2], Bands)
              /\ Op([op |-> "reshape", a |-> a, w |-> s[1], h |-> s[2]])
GBigger == \E a \in Ids : ~im[a].view /\ NoDeps(a) /\ ~Fits(a, 4, 3, Bands) /\ ReshapeFresh(a, 4, 3, Bands, Zeros(12 * Bands))
              /\ Op([op |-> "reshape", a |-> a, w |-> 4, h |-> 3])
GCopy == \E a, b \in Ids : im[a].buf # im[b].buf /\ NoDeps(a) /\ CanCopy(a, b) /\ CopyTo(a, b)
              /\ Op([op |-> "copy", a |-> a, b |-> b])
GAssign == \E a, b \in Ids : a # b /\ im[a].buf # im[b].buf /\ NoDeps(a) /\ im[b].view /\ AssignView(a, b)
              /\ Op([op |-> "assign", a |-> a, b |-> b])
GDup == \E b \in Ids : 4 \notin Ids /\ (DupOwned(Free, b) \/ DupView(Free, b)) /\ Op([op |-> "dup", a |-> Free, b |-> b])
GWrite == \E a \in Ids : Count(im[a]) > 0 /\ Write(a, im[a].w - 1, im[a].h - 1, Bands - 1, 70 + n)
              /\ Op([op |-> "write", a |-> a, v |-> 70 + n])
GNext == Len(hist) < Depth /\ (GSub \/ GReshape \/ GBigger \/ GCopy \/ GAssign \/ GDup \/ GWrite)
GSpec == GInit /\ [][GNext]_<< im, mem, hist >>
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
