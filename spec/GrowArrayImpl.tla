--------------------------- MODULE GrowArrayImpl ---------------------------
(* The storage mechanism: a memory block of some capacity of which only the *)
(* first "size" cells count. Cells past the size keep stale values until    *)
(* they are exposed again. Checked: it refines GrowArrays.                  *)
EXTENDS Integers, Sequences

CONSTANTS Vals, MaxLen

VARIABLES st   \* id -> [own, data, size, def]
vars == << st >>

Junk == 99     \* content of freshly allocated memory
Cap(a) == Len(st[a].data)

New(n) == [own |-> TRUE, data |-> [k \in 1..n |-> 0], size |-> n, def |-> 0]
Wrapped(n) == [own |-> FALSE, data |-> [k \in 1..n + 1 |-> k], size |-> n, def |-> 0]
Ids == {1, 2}

Init == \E n \in 0..MaxLen : \E w \in BOOLEAN :
            st = << New(n), IF w /\ n < MaxLen THEN Wrapped(n) ELSE New(1) >>

Realloc(a, n) == [k \in 1..n |-> IF k <= st[a].size THEN st[a].data[k] ELSE Junk]
Resize(a, n) ==
    LET d == IF n > Cap(a) THEN Realloc(a, n) ELSE st[a].data
        e == [k \in 1..Len(d) |-> IF k > st[a].size /\ k <= n THEN st[a].def ELSE d[k]] IN
    st[a].own /\ st' = [st EXCEPT ![a].data = e, ![a].size = n]
Grow(a, n) ==
    /\ st[a].own
    /\ st' = [st EXCEPT ![a].data = IF n > Cap(a) THEN [k \in 1..n |-> st[a].def] ELSE @, ![a].size = 0]
FillAll(a, v) == st' = [st EXCEPT ![a].data = [k \in 1..Cap(a) |-> IF k <= st[a].size THEN v ELSE @[k]]]
Write(a, k, v) == k <= st[a].size /\ st' = [st EXCEPT ![a].data[k] = v]
SetDefault(a, v) == st' = [st EXCEPT ![a].def = v]
Assign(a, b) ==
    LET n == st[b].size
        d == IF n > Cap(a) THEN [k \in 1..n |-> st[b].def] ELSE st[a].data IN
    /\ a # b /\ st[a].own
    /\ st' = [st EXCEPT ![a].data = [k \in 1..Len(d) |-> IF k <= n THEN st[b].data[k] ELSE d[k]],
                        ![a].size = n, ![a].def = st[b].def]

\* moving elements to the front, lowest first, in place
MoveFront(a, k, n) == st[a].own /\ k + n <= st[a].size
    /\ st' = [st EXCEPT ![a].data = [j \in 1..Cap(a) |-> IF j <= n THEN @[j + k] ELSE @[j]], ![a].size = n]
DoMove == \E a \in Ids : \E k, n \in 0..MaxLen : MoveFront(a, k, n)
DoResize == \E a \in Ids : \E n \in 0..MaxLen : Resize(a, n)
DoGrow == \E a \in Ids : \E n \in 0..MaxLen : Grow(a, n)
DoFill == \E a \in Ids : \E v \in Vals : FillAll(a, v)
DoWrite == \E a \in Ids : \E k \in 1..MaxLen : \E v \in Vals : Write(a, k, v)
DoDefault == \E a \in Ids : \E v \in Vals : SetDefault(a, v)
DoAssign == \E a, b \in Ids : Assign(a, b)
Next == DoResize \/ DoGrow \/ DoFill \/ DoWrite \/ DoDefault \/ DoMove \/ DoAssign
Spec == Init /\ [][Next]_vars

Abstract == [a \in Ids |-> [own |-> st[a].own, els |-> SubSeq(st[a].data, 1, st[a].size), def |-> st[a].def,
                            rest |-> IF st[a].own THEN <<>> ELSE SubSeq(st[a].data, st[a].size + 1, Cap(a))]]
Ref == INSTANCE GrowArrays WITH arr <- Abstract
RefNext == \/ \E a \in Ids : \E n \in 0..MaxLen : Ref!Resize(a, n)
           \/ \E a \in Ids : Ref!Grow(a)
           \/ \E a \in Ids : \E v \in Vals : Ref!FillAll(a, v) \/ Ref!SetDefault(a, v)
           \/ \E a \in Ids : \E k \in 1..MaxLen : \E v \in Vals : Ref!Write(a, k, v)
           \/ \E a \in Ids : \E k, n \in 0..MaxLen : Ref!SetOwn(a, k, n)
           \/ \E a, b \in Ids : Ref!Assign(a, b)
Refines == [][RefNext]_Abstract
NoJunk == \A a \in Ids : \A k \in 1..st[a].size : st[a].data[k] # Junk
=============================================================================
