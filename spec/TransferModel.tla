--------------------------- MODULE TransferModel ---------------------------
(* Handing the results over: points lie back to back in native blocks of B    *)
(* points; Java has blocks of 2 B numbers and entries <<block, start,         *)
(* length>>, both left over from an earlier call, and one queue of numbers    *)
(* through which the internal indices of every blob pass before Java is told  *)
(* about the blob.                                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxB, MaxSets, MaxSize, MaxBlobs
VARIABLES B, sets, extra, blobs, jblocks, jsets, queue, size, got, pc, k
vars == << B, sets, extra, blobs, jblocks, jsets, queue, size, got, pc, k >>
RECURSIVE Before(_)
Before(i) == IF i = 1 THEN 0 ELSE Before(i - 1) + sets[i - 1]     \* points in front of set i
Total == Before(Len(sets) + 1)
Used == (Total + B - 1) \div B
Blocks == Used + extra                                            \* blocks do not go away when points do
\* the p-th point is <<p, 100 + p>>
X(p) == p
Y(p) == 100 + p
NativeBlock(b) == [j \in 0..(B - 1) |-> LET p == b * B + j IN IF p < Total THEN << X(p), Y(p) >> ELSE << -1, -1 >>]
Stale(n) == [j \in 1..n |-> 999]
Seqs(S, n) == UNION { [1..m -> S] : m \in 0..n }
Lists == {<<>>, << 1 >>, << 2, 3 >>}
TInit == /\ B \in 1..MaxB /\ sets \in Seqs(0..MaxSize, MaxSets) /\ extra \in 0..1
         /\ blobs \in Seqs(Lists, MaxBlobs)
         /\ jblocks \in Seqs({Stale(2 * B)}, 2) /\ jsets \in Seqs({<< 9, 9, 9 >>}, 2)
         /\ queue \in {<<>>, Stale(1)} /\ size = 0 /\ got = <<>> /\ pc = "blobs" /\ k = 1
Resized(s, n, new) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE new]
\* one blob: make room in the queue, fill it, tell Java, which takes its own copy
Blob == /\ pc = "blobs" /\ k <= Len(blobs)
        /\ LET l == blobs[k] q == IF Len(queue) < Len(l) THEN Resized(queue, Len(l), 0) ELSE queue IN
           /\ queue' = [j \in DOMAIN q |-> IF j <= Len(l) THEN l[j] ELSE q[j]]
           /\ size' = Len(l)
           /\ got' = Append(got, SubSeq(queue', 1, size'))
        /\ k' = k + 1 /\ UNCHANGED << B, sets, extra, blobs, jblocks, jsets, pc >>
Resize == /\ pc = "blobs" /\ k > Len(blobs) /\ pc' = "blocks" /\ k' = 0
          /\ jblocks' = Resized(jblocks, Blocks, Stale(2 * B)) /\ jsets' = Resized(jsets, Len(sets), << 9, 9, 9 >>)
          /\ UNCHANGED << B, sets, extra, blobs, queue, size, got >>
Block == /\ pc = "blocks" /\ k < Blocks
         /\ jblocks' = [jblocks EXCEPT ![k + 1] = [j \in 1..(2 * B) |-> LET q == NativeBlock(k)[(j - 1) \div 2] IN IF j % 2 = 1 THEN q[1] ELSE q[2]]]
         /\ k' = k + 1 /\ UNCHANGED << B, sets, extra, blobs, jsets, queue, size, got, pc >>
Describe == /\ pc = "blocks" /\ k >= Blocks /\ pc' = "done"
            /\ jsets' = [j \in 1..Len(sets) |-> << Before(j) \div B, 2 * (Before(j) % B), sets[j] >>]
            /\ UNCHANGED << B, sets, extra, blobs, jblocks, queue, size, got, k >>
TNext == Blob \/ Resize \/ Block \/ Describe
TSpec == TInit /\ [][TNext]_vars
Number(c) == jblocks[(c \div (2 * B)) + 1][(c % (2 * B)) + 1]
Read(s) == [p \in 0..(s[3] - 1) |-> << Number(2 * B * s[1] + s[2] + 2 * p), Number(2 * B * s[1] + s[2] + 2 * p + 1) >>]
Arrives == pc = "done" =>
    /\ got = blobs
    /\ Len(jsets) = Len(sets) /\ Len(jblocks) = Blocks
    /\ \A j \in 1..Len(sets) : Read(jsets[j]) = [p \in 0..(sets[j] - 1) |-> << X(Before(j) + p), Y(Before(j) + p) >>]
=============================================================================
