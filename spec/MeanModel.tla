------------------------------ MODULE MeanModel ------------------------------
(* Mean along a line of n pixels with a running sum: the pixels nearer to an  *)
(* end than r use the part of the window inside the line, the first complete  *)
(* window is summed, and the others follow by adding one pixel and dropping   *)
(* one.                                                                       *)
EXTENDS Convolution
CONSTANTS MaxN, MaxR, MaxV
VARIABLES pc, line, r, total, front, back, out
mvars == << pc, line, r, total, front, back, out >>
MInit == pc = "pick" /\ line = <<>> /\ r = 0 /\ total = 0 /\ front = 0 /\ back = 0 /\ out = <<>>
Pick == /\ pc = "pick" /\ \E n \in 1..MaxN : \E s \in [1..n -> 0..MaxV] : line' = s /\ out' = [k \in 1..n |-> << 0, 0 >>]
        /\ r' \in 1..MaxR /\ 2 * r' + 1 <= Len(line') /\ pc' = "edge" /\ UNCHANGED << total, front, back >>
N == Len(line)
\* both ends
Edge == /\ pc = "edge" /\ pc' = "first"
        /\ out' = [k \in 1..N |-> IF k - 1 < r THEN << SumOf(SubSeq(line, 1, k + r)), k + r >>
                                  ELSE IF k - 1 >= N - r THEN << SumOf(SubSeq(line, k - r, N)), N - k + r + 1 >> ELSE out[k]]
        /\ UNCHANGED << line, r, total, front, back >>
First == /\ pc = "first" /\ pc' = "slide" /\ total' = SumOf(SubSeq(line, 1, 2 * r + 1))
         /\ front' = 1 /\ back' = 2 * r + 2 /\ out' = [out EXCEPT ![r + 1] = << total', 2 * r + 1 >>]
         /\ UNCHANGED << line, r >>
Slide == /\ pc = "slide" /\ back <= N
         /\ total' = total - line[front] + line[back] /\ front' = front + 1 /\ back' = back + 1
         /\ out' = [out EXCEPT ![front + r + 1] = << total', 2 * r + 1 >>] /\ UNCHANGED << pc, line, r >>
MSpec == MInit /\ [][Pick \/ Edge \/ First \/ Slide]_mvars
Finished == pc = "slide" /\ back > N
Windows == Finished => \A k \in 1..N : out[k] = WindowAt(line, N, 1, r, k) /\ out[k] = NormAtH(line, N, Ones(2 * r + 1), r, k)
\* a mean lies between the smallest and the largest pixel, and a constant line stays as it is
Bounded == Finished => \A k \in 1..N : LET v == Rounded(out[k][1], out[k][2]) IN
    /\ \E a \in 1..N : line[a] <= v
    /\ \E a \in 1..N : line[a] >= v
    /\ ((\A a \in 1..N : line[a] = line[1]) => v = line[1])
=============================================================================
