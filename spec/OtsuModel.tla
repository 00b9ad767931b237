------------------------------ MODULE OtsuModel ------------------------------
(* The single pass over a histogram which keeps running sums and the best     *)
(* split seen so far, on every small histogram.                               *)
EXTENDS Thresholds
CONSTANTS Bins, MaxCount
VARIABLES pc, h, s, nb, sb, best, bn, bd
ovars == << pc, h, s, nb, sb, best, bn, bd >>
OInit == pc = "pick" /\ h = <<>> /\ s = 0 /\ nb = 0 /\ sb = 0 /\ best = 0 /\ bn = 0 /\ bd = 1
Pick == /\ pc = "pick" /\ \E x \in 0..MaxCount : h' = Append(h, x)
        /\ pc' = (IF Len(h') = Bins THEN "scan" ELSE "pick") /\ UNCHANGED << s, nb, sb, best, bn, bd >>
Total == SumOf(h)
Mass == SumOf([j \in DOMAIN h |-> h[j] * (j - 1)])
Step == /\ pc = "scan" /\ s < Bins /\ Total > nb + h[s + 1]
        /\ nb' = nb + h[s + 1] /\ sb' = sb + s * h[s + 1] /\ s' = s + 1
        /\ LET f == Total - nb' d == sb' * f - (Mass - sb') * nb' n == d * d m == nb' * f IN
           IF nb' > 0 /\ LessFrac(bn, bd, n, m) THEN best' = s /\ bn' = n /\ bd' = m ELSE UNCHANGED << best, bn, bd >>
        /\ UNCHANGED << pc, h >>
Stop == /\ pc = "scan" /\ (s = Bins \/ Total = nb + h[s + 1]) /\ pc' = "done" /\ UNCHANGED << h, s, nb, sb, best, bn, bd >>
OSpec == OInit /\ [][Pick \/ Step \/ Stop]_ovars
\* widening the range below (shift) or above moves the answer by the shift and not at all
Optimal == pc = "done" => /\ IsOtsu(h, best)
                          /\ Best(h) # {} => /\ IsOtsu(<< 0 >> \o h, best + 1)
                                             /\ IsOtsu(h \o << 0 >>, best)
                                             /\ h[best + 1] > 0
                          /\ \A t \in 0..Bins : IsOtsu2(h, t) => t = 0 \/ (\E a \in DOMAIN h : a - 1 <= t /\ h[a] > 0)
Frac == pc = "done" => \A t \in Best(h) : ~LessFrac(bn, bd, VarN(Splits(h)[t]), VarD(Splits(h)[t])) /\ ~LessFrac(VarN(Splits(h)[t]), VarD(Splits(h)[t]), bn, bd)
=============================================================================
