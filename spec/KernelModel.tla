---------------------------- MODULE KernelModel ----------------------------
(* Gaussian weights written one by one, with the exact integer geometry the   *)
(* weights depend on, and the two default formulas as inverse of each other.  *)
EXTENDS Kernels
CONSTANTS MaxW1, MaxW2
VARIABLES dim, w, k, lags, tot
kvars == << ker, dim, w, k, lags, tot >>
KInit == ker = << >> /\ dim = 0 /\ w = 0 /\ k = 0 /\ lags = <<>> /\ tot = 0
Pick == /\ dim = 0 /\ dim' \in {1, 2} /\ w' \in 1..(IF dim' = 1 THEN MaxW1 ELSE MaxW2) /\ UNCHANGED << ker, k, lags, tot >>
\* sigma chosen by the radius: (2 radius + 1) / 5
SN == 2 * (w \div 2) + 1
Weight == /\ dim # 0 /\ k < Count(dim, w)
          /\ lags' = Append(lags, Lag(HalfSq(dim, w, k + 1), SN, 5))
          /\ k' = k + 1 /\ tot' = tot + HalfSq(dim, w, k + 1) /\ UNCHANGED << ker, dim, w >>
KSpec == KInit /\ [][Pick \/ Weight]_kvars
Full == dim # 0 /\ k = Count(dim, w)
At(x, y) == lags[IF dim = 1 THEN x + 1 ELSE y * w + x + 1]
Rows == IF dim = 1 THEN {0} ELSE 0..(w - 1)
\* the same seen from either side, and from either axis
Symmetric == Full => \A x \in 0..(w - 1), y \in Rows :
    /\ At(x, y) = At(w - 1 - x, y)
    /\ dim = 2 => At(x, y) = At(x, w - 1 - y) /\ At(x, y) = At(y, x)
\* a weight further from the centre is smaller
Decreasing == Full => \A x \in 0..(w \div 2 - 1), y \in Rows : x + 1 <= (w - 1) \div 2 => At(x, y) >= At(x + 1, y)
\* a 2D weight is the product of two 1D weights
Separable == Full /\ dim = 2 => \A x, y \in 0..(w - 1) :
    Abs(At(x, y) - Lag(HalfSq(1, w, x + 1), SN, 5) - Lag(HalfSq(1, w, y + 1), SN, 5)) <= 1
\* no position is on the other side of the centre: the positions add up to nothing
Centred == Full /\ dim = 1 => Sum([j \in 1..w |-> Half(j - 1, w)]) = 0
\* the width derived from the default sigma is the odd width of that radius again
Matching == dim # 0 => WidthFor(SN, 5) = 2 * (w \div 2) + 1
=============================================================================
