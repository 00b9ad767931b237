------------------------- MODULE PackedSetBlocks -------------------------
(* The storage mechanism: elements of all sets lie one after the other in   *)
(* blocks of B elements; a set is described by the block and offset of its  *)
(* first element and its size. Removing sets leaves stale elements behind.  *)
(* Checked: it refines PackedSets (every step, every read).                 *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Vals, MaxBlockSize, MaxTotal, MaxSets

VARIABLES B, blocks, total, info

vars == << B, blocks, total, info >>

At(b) == blocks[(b \div B) + 1][(b % B) + 1]
First(i) == info[i].block * B + info[i].offset
Load(i) == [k \in 1..info[i].size |-> At(First(i) + k - 1)]
Abstract == [i \in 1..Len(info) |-> Load(i)]

NewBlock == [k \in 1..B |-> 0]

Init == /\ B \in 1..MaxBlockSize
        /\ blocks = << NewBlock >>
        /\ total = 0
        /\ info = <<>>

Grown(bl) == IF total \div B = Len(bl) THEN Append(bl, NewBlock) ELSE bl

NewInfo == [block |-> total \div B, offset |-> total % B, size |-> 0]

Start == /\ info' = Append(info, NewInfo)
         /\ UNCHANGED << B, blocks, total >>

Push(v) ==
    LET in == IF info = <<>> THEN << NewInfo >> ELSE info IN
    /\ blocks' = [Grown(blocks) EXCEPT ![(total \div B) + 1][(total % B) + 1] = v]
    /\ total' = total + 1
    /\ info' = [in EXCEPT ![Len(in)].size = @ + 1]
    /\ UNCHANGED B

RemoveTail ==
    /\ info # <<>>
    /\ total' = total - info[Len(info)].size
    /\ info' = SubSeq(info, 1, Len(info) - 1)
    /\ UNCHANGED << B, blocks >>

Clear == /\ info' = <<>>
         /\ total' = 0
         /\ UNCHANGED << B, blocks >>

SetElement(i, j, v) ==
    LET b == First(i) + j - 1 IN
    /\ blocks' = [blocks EXCEPT ![(b \div B) + 1][(b % B) + 1] = v]
    /\ UNCHANGED << B, total, info >>

DoPush == \E v \in Vals : total < MaxTotal /\ Push(v)
DoStart == Len(info) < MaxSets /\ Start
DoSet == \E i \in 1..Len(info) : \E j \in 1..info[i].size : \E v \in Vals : SetElement(i, j, v)

Next == DoStart \/ DoPush \/ RemoveTail \/ Clear \/ DoSet

Spec == Init /\ [][Next]_vars

Ref == INSTANCE PackedSets WITH sets <- Abstract

RefNext == \/ Ref!Start \/ Ref!RemoveTail \/ Ref!Clear
           \/ \E v \in Vals : Ref!Push(v)
           \/ \E i \in 1..Len(info) : \E j \in 1..info[i].size : \E v \in Vals : Ref!SetElement(i, j, v)
Refines == Ref!Init /\ [][RefNext]_Abstract

RECURSIVE SumSizes(_)
SumSizes(s) == IF s = <<>> THEN 0 ELSE Head(s).size + SumSizes(Tail(s))
\* the sets account for every used element and lie back to back
Contiguous == /\ total = SumSizes(info)
              /\ \A i \in 1..Len(info) : First(i) = SumSizes(SubSeq(info, 1, i - 1))
              /\ total <= Len(blocks) * B
=============================================================================
