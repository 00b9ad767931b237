--------------------------- MODULE KernelHistory ---------------------------
(* Recorded histories of kernel containers.                                   *)
EXTENDS Kernels, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
\* every live container after each operation
Reported == /\ { Ev.ids[k] : k \in 1..Len(Ev.ids) } = DOMAIN ker'
            /\ \A k \in 1..Len(Ev.ids) : LET r == ker'[Ev.ids[k]] d == r.d IN
                 /\ Ev.dims[k] = r.dim /\ Ev.ws[k] = r.w /\ Ev.os[k] = r.o /\ Ev.rad[k] = r.w \div 2 /\ Ev.els[k] = d
                 /\ (d = <<>> => << Ev.sum[k], Ev.mx[k], Ev.mn[k], Ev.amx[k], Ev.amn[k] >> = << 0, 0, 0, 0, 0 >>)
                 /\ d # <<>> => /\ Ev.sum[k] = Sum(d) /\ Ev.mx[k] = Max(Range2(d)) /\ Ev.mn[k] = Min(Range2(d))
                                /\ Ev.amx[k] = Max({ Abs(x) : x \in Range2(d) }) /\ Ev.amn[k] = Min({ Abs(x) : x \in Range2(d) })
Either(ok, step) == IF ok THEN Ev.rej = FALSE /\ step ELSE Ev.rej = TRUE /\ UNCHANGED ker
TReset == Is("init") /\ ker' = << >>
TNew == Is("new") /\ (LET o == IF Ev.o < 0 THEN Ev.w \div 2 ELSE Ev.o IN Either(CanMake(Ev.w, o), Make(Ev.a, Ev.dim, Ev.w, o))) /\ Reported
TBlank == Is("blank") /\ Blank(Ev.a, Ev.dim) /\ Reported
TList == Is("list") /\ Either(CanMake(Ev.w, Ev.o) /\ ~Ev.ragged, MakeList(Ev.a, Ev.dim, Ev.w, Ev.o, Ev.v)) /\ Reported
TReshape == Is("reshape") /\ Reshape(Ev.a, Ev.w, Ev.o, Ev.v) /\ Reported
TCopy == (Is("copy") \/ Is("assign")) /\ Copy(Ev.a, Ev.b) /\ Reported
TSet == Is("set") /\ Either(HasIndex(Ev.a, Ev.x, Ev.y), Set(Ev.a, Ev.x, Ev.y, Ev.v)) /\ Reported
TDestroy == Is("destroy") /\ Destroy(Ev.a) /\ Reported
TSpec == (ker = << >> /\ i = 1) /\ [][TReset \/ TNew \/ TBlank \/ TList \/ TReshape \/ TCopy \/ TSet \/ TDestroy]_<< ker, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
