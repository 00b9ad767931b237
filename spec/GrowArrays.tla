---------------------------- MODULE GrowArrays ----------------------------
(* Growable arrays as plain lists. An array either owns its elements or     *)
(* wraps memory of the caller ("rest" is the caller's memory past the       *)
(* current size). Several arrays live side by side so that copies which     *)
(* share storage would show.                                                *)
EXTENDS Integers, Sequences

VARIABLE arr    \* id -> [own, els, def, rest]

Ids == DOMAIN arr
Els(a) == arr[a].els
Size(a) == Len(arr[a].els)

Init == arr = << >>

Put(a, r) == arr' = [x \in Ids \cup {a} |-> IF x = a THEN r ELSE arr[x]]
Fill(n, v) == [k \in 1..n |-> v]
Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

NewSized(a, n) == Put(a, [own |-> TRUE, els |-> Fill(n, 0), def |-> 0, rest |-> <<>>])
NewList(a, vs) == Put(a, [own |-> TRUE, els |-> vs, def |-> 0, rest |-> <<>>])
Wrap(a, mem, n) == n <= Len(mem) /\ Put(a, [own |-> FALSE, els |-> SubSeq(mem, 1, n), def |-> 0,
                                            rest |-> SubSeq(mem, n + 1, Len(mem))])
\* the copy owns its elements, whatever it was copied from
Copy(a, b) == b \in Ids /\ Put(a, [own |-> TRUE, els |-> Els(b), def |-> arr[b].def, rest |-> <<>>])
Destroy(a) == a \in Ids /\ arr' = [x \in Ids \ {a} |-> arr[x]]

SetDefault(a, v) == a \in Ids /\ arr' = [arr EXCEPT ![a].def = v]

CanResize(a) == a \in Ids /\ arr[a].own
Resize(a, n) == CanResize(a)
    /\ arr' = [arr EXCEPT ![a].els = Prefix(@, n) \o Fill(IF n > Len(@) THEN n - Len(@) ELSE 0, arr[a].def)]
\* more capacity, previous elements are not kept
Grow(a) == CanResize(a) /\ arr' = [arr EXCEPT ![a].els = <<>>]
FillAll(a, v) == a \in Ids /\ arr' = [arr EXCEPT ![a].els = Fill(Len(@), v)]
SetTo(a, vs) == CanResize(a) /\ arr' = [arr EXCEPT ![a].els = vs]
\* the new elements are some of its own: n of them after the first k
SetOwn(a, k, n) == k + n <= Size(a) /\ SetTo(a, SubSeq(Els(a), k + 1, k + n))
Assign(a, b) == CanResize(a) /\ b \in Ids
    /\ arr' = [arr EXCEPT ![a].els = Els(b), ![a].def = arr[b].def]

HasIndex(a, k) == k \in 1..Size(a)
Write(a, k, v) == HasIndex(a, k) /\ arr' = [arr EXCEPT ![a].els[k] = v]
=============================================================================
