---------------------------- MODULE ImageTrace ----------------------------
(* A recorded history of image operations is a behaviour of Images.          *)
EXTENDS Images, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
TInit == Init /\ i = 1

\* after every operation: shape and samples of every image, read in every available way, and all memory of the caller
Reported ==
    /\ { Ev.ids[k] : k \in 1..Len(Ev.ids) } = DOMAIN im'
    /\ \A k \in 1..Len(Ev.ids) :
         LET r == im'[Ev.ids[k]]
             p == PixelsIn(mem', r) IN
         /\ Ev.dim[k] = << r.w, r.h, r.w, r.h, r.w * r.h, r.nb >>
         /\ \A j \in 1..Len(Ev.pix[k]) : Ev.pix[k][j] = p
    /\ \A k \in 1..Len(Ev.ext) : Ev.mems[k] = mem'[Ev.ext[k]]

Either(ok, step) == IF ok THEN Ev.rej = FALSE /\ step ELSE Ev.rej = TRUE /\ UNCHANGED << im, mem >>

TReset == Is("init") /\ im' = << >> /\ mem' = << >>
\* planes have a storage each, other samples share one
Bands == IF Ev.kind = 2 THEN 1 ELSE Ev.nb
TooLarge == TooBig(Ev.w, Ev.h, Bands)
TNew == Is("new") /\ Either(~TooLarge, New(Ev.a, Ev.w, Ev.h, Ev.nb)) /\ Reported
\* rows of different lengths are no image
TList == /\ Is("list")
         /\ Either(Ev.even, NewFilled(Ev.a, Ev.w, Ev.h, Ev.nb, Ev.v))
         /\ Reported
TWrap == Is("wrap") /\ Wrap(Ev.a, Ev.v, Ev.off, Ev.stride, Ev.w, Ev.h, Ev.nb) /\ Reported
TSub == /\ Is("sub")
        /\ Either(RectOk(im[Ev.p], Ev.x0, Ev.y0, Ev.x1, Ev.y1), Sub(Ev.a, Ev.p, Ev.x0, Ev.y0, Ev.x1, Ev.y1))
        /\ Reported
\* gray images keep their samples within the existing capacity
TReshape == /\ Is("reshape")
            /\ Either(CanReshape(Ev.a, Ev.w, Ev.h, Ev.nb) /\ ~TooLarge,
                      IF ShapeIs(Ev.a, Ev.w, Ev.h, Ev.nb) \/ Fits(Ev.a, Ev.w, Ev.h, Ev.nb) THEN ReshapeKeep(Ev.a, Ev.w, Ev.h, Ev.nb)
                      ELSE ReshapeFresh(Ev.a, Ev.w, Ev.h, Ev.nb, Ev.seen))
            /\ Reported
\* with several bands only the shape is promised
TShape == /\ Is("shape")
          /\ Either(CanReshape(Ev.a, Ev.w, Ev.h, Ev.nb) /\ ~TooLarge, ReshapeAny(Ev.a, Ev.w, Ev.h, Ev.nb, Ev.seen))
          /\ Reported
TCopy == /\ (Is("copy") \/ Is("setto"))
         /\ Either(CanCopy(Ev.a, Ev.b), CopyTo(Ev.a, Ev.b))
         /\ Reported
TAssign == /\ Is("assign")
           /\ IF Ev.a = Ev.b THEN Ev.rej = FALSE /\ UNCHANGED << im, mem >>
              ELSE IF im[Ev.b].view THEN Ev.rej = FALSE /\ AssignView(Ev.a, Ev.b)
              ELSE Either(CanCopy(Ev.a, Ev.b), CopyTo(Ev.a, Ev.b))
           /\ Reported
TDup == /\ Is("dup")
        /\ IF im[Ev.b].view THEN DupView(Ev.a, Ev.b) ELSE DupOwned(Ev.a, Ev.b)
        /\ Reported
TWrite == Is("write") /\ Either(Ev.far = FALSE /\ Valid(im[Ev.a], Ev.x, Ev.y, Ev.b), Write(Ev.a, Ev.x, Ev.y, Ev.b, Ev.v)) /\ Reported
\* unchecked access, only inside the image
TPoke == Is("poke") /\ Write(Ev.a, Ev.x, Ev.y, Ev.b, Ev.v) /\ Reported
TRead == /\ Is("read") /\ UNCHANGED << im, mem >>
         /\ LET r == im[Ev.a] ok == Ev.far = FALSE /\ Valid(r, Ev.x, Ev.y, Ev.b) IN
            /\ Ev.rej = ~ok
            /\ ok => Ev.v = mem[r.buf][Addr(r, Ev.x, Ev.y, Ev.b)]
TInb == Is("inb") /\ UNCHANGED << im, mem >> /\ Ev.v = (Ev.far = FALSE /\ Valid(im[Ev.a], Ev.x, Ev.y, 0))
TBand == /\ Is("band") /\ UNCHANGED << im, mem >>
         /\ LET r == im[Ev.a] ok == Ev.b >= 0 /\ Ev.b < r.nb IN
            /\ Ev.rej = ~ok
            /\ ok => /\ Ev.w = r.w /\ Ev.h = r.h
                     /\ Ev.v = [k \in 1..(r.w * r.h) |-> mem[r.buf][Addr(r, (k - 1) % r.w, (k - 1) \div r.w, Ev.b)]]
\* mean of the bands: exact for floats (values are reported multiplied by bands), truncated towards zero for integers
Sum(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + s[k] IN S(Len(s))
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
TAverage == /\ Is("average") /\ UNCHANGED << im, mem >>
            /\ LET r == im[Ev.a] IN
               /\ Ev.w = r.w /\ Ev.h = r.h /\ Len(Ev.v) = r.w * r.h
               /\ \A k \in 1..Len(Ev.v) :
                    LET s == Sum(Average(Ev.a, (k - 1) % r.w, (k - 1) \div r.w)) IN
                    IF Ev.float THEN Ev.v[k] - s * Ev.scale \in (-Ev.tol)..Ev.tol ELSE Ev.v[k] = Trunc(s * Ev.unit, r.nb)
TDestroy == Is("destroy") /\ Remove(Ev.a) /\ Reported
TNext == TReset \/ TNew \/ TList \/ TWrap \/ TSub \/ TReshape \/ TShape \/ TCopy \/ TAssign \/ TDup \/ TWrite \/ TPoke \/ TRead
         \/ TInb \/ TBand \/ TAverage \/ TDestroy
TSpec == TInit /\ [][TNext]_<< im, mem, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
