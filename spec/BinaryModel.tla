---------------------------- MODULE BinaryModel ----------------------------
(* Every small image: the two-pass scheme (image border first, then the      *)
(* interior, each pixel written once) agrees with the definition, and the    *)
(* definitions obey the laws of morphology.                                  *)
EXTENDS Binary
CONSTANTS Sizes    \* 10 w + h
VARIABLES w, h, s, out, pc, cnt
bvars == << w, h, s, out, pc, cnt >>
BInit == /\ \E z \in Sizes : w = z \div 10 /\ h = z % 10
         /\ s = <<>> /\ out = <<>> /\ pc = "pick" /\ cnt = <<>>
Pick == /\ pc = "pick" /\ s' \in [1..(w * h) -> {0, 1}]
        /\ out' = [k \in 1..(w * h) |-> << 7, 7 >>] /\ cnt' = [k \in 1..(w * h) |-> 0] /\ pc' = "border"
        /\ UNCHANGED << w, h >>
IsBorder(k) == X(k, w) = 0 \/ Y(k, w) = 0 \/ X(k, w) = w - 1 \/ Y(k, w) = h - 1
Write(set, e, d) == /\ out' = [k \in DOMAIN out |-> IF k \in set THEN << e[k], d[k] >> ELSE out[k]]
                    /\ cnt' = [k \in DOMAIN cnt |-> IF k \in set THEN cnt[k] + 1 ELSE cnt[k]]
Sum5(k) == SumOf(Cross(s, w, h, k))
Border == /\ pc = "border" /\ pc' = IF w < 3 \/ h < 3 THEN "done" ELSE "inside"
          /\ Write({ k \in DOMAIN out : IsBorder(k) }, [k \in DOMAIN out |-> IF Sum5(k) >= 5 THEN 1 ELSE 0],
                   [k \in DOMAIN out |-> IF Sum5(k) >= 1 THEN 1 ELSE 0])
          /\ UNCHANGED << w, h, s >>
Inside == /\ pc = "inside" /\ pc' = "done"
          /\ Write({ At(w, x, y) : x \in 1..(w - 2), y \in 1..(h - 2) },
                   [k \in DOMAIN out |-> IF Sum5(k) = 5 THEN 1 ELSE 0], [k \in DOMAIN out |-> IF Sum5(k) > 0 THEN 1 ELSE 0])
          /\ UNCHANGED << w, h, s >>
BSpec == BInit /\ [][Pick \/ Border \/ Inside]_bvars
Not(a) == [k \in 1..Len(a) |-> 1 - a[k]]
Leq(a, b) == \A k \in 1..Len(a) : a[k] <= b[k]
Agree == pc = "done" => LET e == Erode(s, w, h) d == Dilate(s, w, h) IN
    /\ \A k \in DOMAIN out : cnt[k] = 1 /\ out[k] = << e[k], d[k] >>
    /\ Leq(e, s) /\ Leq(s, d)
    \* closing without the image border: adjunction of erosion and dilation
    /\ Leq(Dilate(e, w, h), s)
    /\ Not(And(s, d)) = Or(Not(s), Not(d))
    /\ And(s, e) = e /\ Or(s, d) = d
=============================================================================
