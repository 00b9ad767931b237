---------------------------- MODULE LengthModel ----------------------------
(* A length configuration under step by step changes of its three numbers.    *)
EXTENDS Kernels
CONSTANTS MaxL, MaxF, MaxT
VARIABLES len, frac, tot, was       \* was: the resolved length before the change
lvars == << ker, len, frac, tot, was >>
R == Resolved(len, frac, tot)
LInit == ker = << >> /\ len = -MaxL /\ frac = -MaxF /\ tot = 0 /\ was = Resolved(-MaxL, -MaxF, 0)
Longer == len < MaxL /\ len' = len + 1 /\ was' = R /\ UNCHANGED << ker, frac, tot >>
Fraction == frac < MaxF /\ frac' = frac + 1 /\ was' = R /\ UNCHANGED << ker, len, tot >>
Total == tot < MaxT /\ tot' = tot + 1 /\ was' = R /\ UNCHANGED << ker, len, frac >>
LSpec == LInit /\ [][Longer \/ Fraction \/ Total]_lvars
\* never below the minimum, one of the two candidates, fixed lengths ignore the total
Least == R >= 64 * len /\ R \in { 64 * len, frac * tot }
Fixed == frac < 0 => R = 64 * len
Share == frac >= 0 => R >= frac * tot
\* larger settings never give a shorter length (zero total included)
Monotone == R >= was
\* the integer form is the nearest one, a half goes up; below zero it is -1
Nearest == LET n == RoundUp(R) IN IF R < 0 THEN n = -1 ELSE n >= 0 /\ 2 * (n * 256 - R) <= 256 /\ 2 * (R - n * 256) < 256
=============================================================================
