----------------------------- MODULE HandleTrace -----------------------------
(* Recorded histories of native handles.                                      *)
EXTENDS Handles, Bridge, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1 /\ (name # "init" => Disciplined(Ev.log))
Live == Ev.h \in DOMAIN hs
TReset == Is("init") /\ hs' = << >>
\* an object of its own
TNew == Is("new") /\ ~Ev.rej /\ Ev.set /\ Ev.fresh /\ New(Ev.h, Ev.kind, Ev.real, Ev.java)
TSet == Is("set") /\ Live /\ (IF CanSet(Ev.what, Ev.v) THEN ~Ev.rej /\ Set(Ev.h, Ev.what, Ev.v) ELSE Ev.rej /\ UNCHANGED hs)
TGet == Is("get") /\ Live /\ ~Ev.rej /\ Ev.v = Value(Ev.h, Ev.what) /\ UNCHANGED hs
\* a threshold does what it was made for
TApply == /\ Is("apply") /\ Live /\ UNCHANGED hs
          /\ Ev.cpp = Mapped(hs[Ev.h].kind, hs[Ev.h].real, hs[Ev.h].java)
          /\ (Ev.rej => Ev.refRej)
          /\ MemoryOk(Ev.imgs, Ev.arrs, ~Ev.refRej)
Points(s) == LET c == 4000 * s[1] + s[2] IN SubSeq(Ev.flat, c + 1, c + 2 * s[3])
\* contours are found with the settings of the handle, and all of them arrive
TProcess == /\ Is("process") /\ Live /\ UNCHANGED hs
            /\ Ev.cpp = Settings(Ev.h)
            /\ (Ev.rej <=> Ev.refRej)
            /\ MemoryOk(Ev.imgs, Ev.arrs, ~Ev.refRej)
            /\ IF Ev.rej THEN Ev.blobs = <<>>
               ELSE /\ Ev.blobs = Ev.rblobs
                    /\ Ev.nsets = Len(Ev.rsets) /\ Len(Ev.sets) = Ev.nsets
                    /\ \A k \in 1..Ev.nsets : LET s == Ev.sets[k] IN
                          /\ s[1] >= 0 /\ s[2] >= 0 /\ s[3] >= 0 /\ (s[3] > 0 => s[1] < Ev.nblocks)
                          /\ Points(s) = Ev.rsets[k]
\* once for a live object, never again
TDestroy == Is("destroy") /\ ~Ev.rej /\ Ev.cleared /\ Ev.freed = (IF Live THEN 1 ELSE 0) /\ (IF Live THEN Destroy(Ev.h) ELSE UNCHANGED hs)
TSpec == (hs = << >> /\ i = 1) /\ [][TReset \/ TNew \/ TSet \/ TGet \/ TApply \/ TProcess \/ TDestroy]_<< hs, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
