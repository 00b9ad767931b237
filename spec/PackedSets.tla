---------------------------- MODULE PackedSets ----------------------------
(* Abstract behaviour of a packed set container: a list of lists.          *)
EXTENDS Naturals, Sequences

VARIABLE sets

Init == sets = <<>>

Start == sets' = Append(sets, <<>>)

\* appending to a container without sets starts the first one
PushSeq(vs) ==
    sets' = IF sets = <<>> THEN << vs >>
            ELSE [sets EXCEPT ![Len(sets)] = @ \o vs]
Push(v) == PushSeq(<< v >>)

RemoveTail == sets' = IF sets = <<>> THEN sets ELSE SubSeq(sets, 1, Len(sets) - 1)

Clear == sets' = <<>>

HasSet(i) == i \in 1..Len(sets)
HasElement(i, j) == HasSet(i) /\ j \in 1..Len(sets[i])

SetElement(i, j, v) == HasElement(i, j) /\ sets' = [sets EXCEPT ![i][j] = v]

CanWrite(i, vs) == HasSet(i) /\ Len(vs) = Len(sets[i])
WriteSet(i, vs) == CanWrite(i, vs) /\ sets' = [sets EXCEPT ![i] = vs]

TailSize == IF sets = <<>> THEN 0 ELSE Len(sets[Len(sets)])
=============================================================================
