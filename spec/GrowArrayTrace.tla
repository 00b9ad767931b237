-------------------------- MODULE GrowArrayTrace --------------------------
EXTENDS GrowArrays, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
TInit == Init /\ i = 1

\* after every operation: the elements of every live array, by index and by checked access, sizes and caller memory
Reported ==
    /\ { Ev.ids[k] : k \in 1..Len(Ev.ids) } = DOMAIN arr'
    /\ \A k \in 1..Len(Ev.ids) :
         LET r == arr'[Ev.ids[k]] IN
         /\ Ev.sizes[k] = Len(r.els)
         \* there is room for the elements, and an array over memory of the caller knows all of it
         /\ IF r.own THEN Ev.caps[k] >= Len(r.els) ELSE Ev.caps[k] = Len(r.els) + Len(r.rest)
         /\ Ev.els[k] = r.els
         /\ Ev.at[k] = r.els
         /\ Ev.mem[k] = (IF r.own THEN <<>> ELSE r.els \o r.rest)

Either(ok, step) == IF ok THEN Ev.rej = FALSE /\ step ELSE Ev.rej = TRUE /\ UNCHANGED arr

TReset == Is("init") /\ arr' = << >>
TNew == Is("new") /\ NewSized(Ev.a, Ev.n) /\ Reported
TList == Is("list") /\ NewList(Ev.a, Ev.v) /\ Reported
TWrap == Is("wrap") /\ Wrap(Ev.a, Ev.v, Ev.n) /\ Reported
TCopy == Is("copy") /\ Copy(Ev.a, Ev.b) /\ Reported
TDestroy == Is("destroy") /\ Destroy(Ev.a) /\ Reported
TDefault == Is("default") /\ SetDefault(Ev.a, Ev.v) /\ Reported
TResize == Is("resize") /\ Either(CanResize(Ev.a), Resize(Ev.a, Ev.n)) /\ Reported
TGrow == Is("grow") /\ Either(CanResize(Ev.a), Grow(Ev.a)) /\ Reported
TFill == Is("fill") /\ FillAll(Ev.a, Ev.v) /\ Reported
TSetTo == (Is("setto") \/ Is("set")) /\ Either(CanResize(Ev.a), SetTo(Ev.a, Ev.v)) /\ Reported
TSetOwn == Is("selfset") /\ Either(CanResize(Ev.a), SetOwn(Ev.a, Ev.k, Ev.n)) /\ Reported
\* assigning an array to itself changes nothing, also when it wraps memory
TAssign == /\ Is("assign")
           /\ IF Ev.a = Ev.b THEN Ev.rej = FALSE /\ UNCHANGED arr
              ELSE Either(CanResize(Ev.a), Assign(Ev.a, Ev.b))
           /\ Reported
TWrite == Is("write") /\ Either(HasIndex(Ev.a, Ev.k + 1), Write(Ev.a, Ev.k + 1, Ev.v)) /\ Reported
\* unchecked access is only used inside the bounds
TPoke == Is("poke") /\ Write(Ev.a, Ev.k + 1, Ev.v) /\ Reported
TGet == /\ Is("get")
        /\ UNCHANGED arr
        /\ IF Ev.far = FALSE /\ HasIndex(Ev.a, Ev.k + 1) THEN Ev.rej = FALSE /\ Ev.v = Els(Ev.a)[Ev.k + 1] ELSE Ev.rej = TRUE
        /\ Reported
TNext == TReset \/ TNew \/ TList \/ TWrap \/ TCopy \/ TDestroy \/ TDefault \/ TResize \/ TGrow \/ TFill \/ TSetTo \/ TSetOwn \/ TAssign
         \/ TWrite \/ TPoke \/ TGet
TSpec == TInit /\ [][TNext]_<< arr, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
