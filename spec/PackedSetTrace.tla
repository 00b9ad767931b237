-------------------------- MODULE PackedSetTrace --------------------------
(* Validates recorded histories of the real container: every call must be   *)
(* the step of PackedSets with the logged arguments, and everything the     *)
(* container reports afterwards must be what the list of lists holds.       *)
EXTENDS PackedSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, refs, aside     \* refs: references handed out, id -> <<set, element>>; aside: container put aside

Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1

TInit == Init /\ i = 1 /\ refs = << >> /\ aside = << >>

\* everything observable, logged after each operation
Reported ==
    /\ Ev.n = Len(sets')
    /\ Ev.tail = (IF sets' = <<>> THEN 0 ELSE Len(sets'[Len(sets')]))
    /\ (IF "dump" \in DOMAIN Ev THEN Ev.dump = sets' /\ Ev.at = sets' ELSE TRUE)   \* load_set of every set, element access

Live(s) == { r \in DOMAIN refs : refs[r][1] \in 1..Len(s) /\ refs[r][2] \in 1..Len(s[refs[r][1]]) }
KeepRefs == refs' = [r \in Live(sets') |-> refs[r]]
\* a set which was removed may reappear with other storage: references into it end
DropRefs(from) == refs' = [r \in { x \in DOMAIN refs : refs[x][1] < from } |-> refs[r]]

TNew == Is("init") /\ sets' = <<>> /\ refs' = << >>
TStart == Is("start") /\ Start /\ UNCHANGED refs /\ Reported
TPush == Is("push") /\ Push(Ev.v) /\ UNCHANGED refs /\ Reported
\* many consecutive values at once
TPushN == Is("pushn") /\ PushSeq([k \in 1..Ev.count |-> Ev.v + k - 1]) /\ UNCHANGED refs /\ Reported
\* many empty sets at once
TStarts == Is("starts") /\ sets' = sets \o [k \in 1..Ev.count |-> <<>>] /\ UNCHANGED refs /\ Reported
TRemove == Is("remove") /\ RemoveTail /\ DropRefs(Len(sets)) /\ Reported
TClear == Is("clear") /\ Clear /\ DropRefs(1) /\ Reported
TWrite ==
    /\ Is("write")
    /\ IF CanWrite(Ev.i + 1, Ev.v)
       THEN Ev.rej = FALSE /\ WriteSet(Ev.i + 1, Ev.v)
       ELSE Ev.rej = TRUE /\ UNCHANGED sets
    /\ UNCHANGED refs
    /\ Reported
TSet ==
    /\ Is("set")
    /\ IF HasElement(Ev.i + 1, Ev.j + 1)
       THEN Ev.rej = FALSE /\ SetElement(Ev.i + 1, Ev.j + 1, Ev.v)
       ELSE Ev.rej = TRUE /\ UNCHANGED sets
    /\ UNCHANGED refs
    /\ Reported
\* reads which are out of range (far = index near 2^32, out of range by any measure)
TGet ==
    /\ Is("get")
    /\ UNCHANGED << sets, refs >>
    /\ IF Ev.far = FALSE /\ HasElement(Ev.i + 1, Ev.j + 1)
       THEN Ev.rej = FALSE /\ Ev.v = sets[Ev.i + 1][Ev.j + 1]
       ELSE Ev.rej = TRUE
    /\ Reported
TLoad ==
    /\ Is("load")
    /\ UNCHANGED << sets, refs >>
    /\ IF Ev.far = FALSE /\ HasSet(Ev.i + 1)
       THEN Ev.rej = FALSE /\ Ev.v = sets[Ev.i + 1]
       ELSE Ev.rej = TRUE
    /\ Reported
TRef == Is("ref") /\ UNCHANGED sets /\ HasElement(Ev.i + 1, Ev.j + 1)
        /\ refs' = [r \in DOMAIN refs \cup {Ev.r} |-> IF r = Ev.r THEN << Ev.i + 1, Ev.j + 1 >> ELSE refs[r]]
TDeref == Is("deref") /\ UNCHANGED << sets, refs >> /\ Ev.r \in DOMAIN refs
          /\ Ev.v = sets[refs[Ev.r][1]][refs[Ev.r][2]]
TRefWrite == Is("refwrite") /\ Ev.r \in DOMAIN refs /\ UNCHANGED refs
             /\ SetElement(refs[Ev.r][1], refs[Ev.r][2], Ev.v) /\ Reported

\* a copy takes the place of the container, which is put aside; nothing that happens to one changes the other
TCopy == Is("copy") /\ UNCHANGED sets /\ aside' = sets /\ refs' = << >> /\ Reported
TAside == Is("aside") /\ UNCHANGED << sets, refs, aside >> /\ Ev.n = Len(aside) /\ (IF "dump" \in DOMAIN Ev THEN Ev.dump = aside /\ Ev.at = aside ELSE TRUE)
TRestore == Is("restore") /\ sets' = aside /\ refs' = << >> /\ UNCHANGED aside /\ Reported
TSame == Is("same") /\ refs' = << >> /\ UNCHANGED << sets, aside >> /\ Reported

TCopies == TCopy \/ TAside \/ TRestore \/ TSame
TCalls == TStart \/ TStarts \/ TPush \/ TPushN \/ TRemove \/ TClear \/ TWrite \/ TSet \/ TGet \/ TLoad \/ TRef \/ TDeref \/ TRefWrite
TNext == (TNew /\ aside' = << >>) \/ (TCalls /\ UNCHANGED aside) \/ TCopies
TSpec == TInit /\ [][TNext]_<< sets, i, refs, aside >>

Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
