------------------------------- MODULE Bridge -------------------------------
(* The protocol between native code and the virtual machine.                 *)
(* An action is <<op, array, token, mode>>:                                   *)
(*   op 1/2  acquire/release inside a critical section                        *)
(*   op 3/4  acquire/release of the elements                                  *)
(*   op 5    any other call into Java                                         *)
(* A token names the pointer which was handed out; a release with a pointer   *)
(* nobody handed out for that array has token 0.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Commit == 0     \* copy back and free
CopyOnly == 1   \* copy back, keep
Discard == 2    \* free without copying back
Critical(held) == { x \in held : x[3] = 1 }
\* is the action allowed when the arrays in held are in the hands of the native
Allowed(held, a) ==
    CASE a[1] = 1 -> a[2] > 0 /\ a[3] > 0 /\ a[4] = 0
      [] a[1] = 2 -> a[4] \in {Commit, CopyOnly, Discard} /\ << a[2], a[3], 1 >> \in held
      [] a[1] = 3 -> a[2] > 0 /\ a[3] > 0 /\ a[4] = 0 /\ Critical(held) = {}
      [] a[1] = 4 -> a[4] \in {Commit, CopyOnly, Discard} /\ << a[2], a[3], 3 >> \in held /\ Critical(held) = {}
      [] a[1] = 5 -> a = << 5, 0, 0, 0 >> /\ Critical(held) = {}
      [] OTHER -> FALSE
After(held, a) ==
    CASE a[1] = 1 -> held \cup {<< a[2], a[3], 1 >>}
      [] a[1] = 3 -> held \cup {<< a[2], a[3], 3 >>}
      [] a[1] = 2 -> IF a[4] = CopyOnly THEN held ELSE held \ {<< a[2], a[3], 1 >>}
      [] a[1] = 4 -> IF a[4] = CopyOnly THEN held ELSE held \ {<< a[2], a[3], 3 >>}
      [] OTHER -> held
\* every array acquired by a call is given back exactly once before it returns
Step(f, a) == IF f.ok /\ Allowed(f.held, a) THEN [ok |-> TRUE, held |-> After(f.held, a)] ELSE [ok |-> FALSE, held |-> {}]
Disciplined(log) == LET f == FoldLeft(Step, [ok |-> TRUE, held |-> {}], log) IN f.ok /\ f.held = {}

---------------------------------------------------------------------------
(* Memory of a call: images <<array, role, offset, stride, width, height>>,  *)
(* arrays with their content before, after and after the C++ operation (x).  *)
Input == 0
Output == 1
Storage == 2
IsIn(m, c) == /\ m[5] > 0 /\ c - 1 >= m[3]
              /\ LET d == c - 1 - m[3] IN IF m[4] = 0 THEN FALSE ELSE d % m[4] < m[5] /\ d \div m[4] < m[6]
Owns(imgs, n, roles, c) == \E k \in DOMAIN imgs : imgs[k][1] = n /\ imgs[k][2] \in roles /\ IsIn(imgs[k], c)
MemoryOk(imgs, arrs, done) ==
    \A n \in DOMAIN arrs : LET r == arrs[n] IN
        /\ Len(r.a) = Len(r.b)
        /\ \A c \in 1..Len(r.a) :
              \/ r.a[c] = r.b[c] /\ (r.x[c] = r.b[c] \/ ~Owns(imgs, n, {Output}, c) \/ ~done)
              \/ Owns(imgs, n, {Storage}, c)
              \/ Owns(imgs, n, {Output}, c) /\ (done => r.a[c] = r.x[c])

---------------------------------------------------------------------------
(* How parameters given by Java arrive at the C++ operation. Numbers are in  *)
(* units of 1/64, flags 0 or 1.                                               *)
Whole(t) == (t \div 64) * 64
Border(b) == CASE b = 1 -> 0 [] b = 3 -> 1 [] b = 4 -> 2 [] b = 5 -> 3 [] OTHER -> -1  \* extended, reflect, wrap, zero
BitsOk(real, bits) == IF real THEN bits = << 32, 32 >> ELSE bits[1] = 8 /\ bits[2] \in {16, 32}
Mapped(op, real, j) ==
    CASE op = "mean" -> << j[1] >>
      [] op = "gaussian" -> << j[1], IF j[2] > 0 THEN 2 * j[2] + 1 ELSE -1 >>
      [] op \in {"horizontal", "vertical", "convolve"} ->
           IF Border(j[1]) >= 0 /\ BitsOk(real, << j[2], j[3] >>) THEN << Border(j[1]), j[2], j[3] >> ELSE << -1, -1, -1 >>
      [] op \in {"nhorizontal", "nvertical"} -> << >>
      [] op = "contour" -> << j[1] >>
      [] op = "fixed" -> << IF real THEN j[1] ELSE Whole(j[1]), j[2] >>                     \* threshold, down
      [] op = "otsu" -> << IF real THEN j[1] ELSE Whole(j[1]), IF real THEN j[2] ELSE Whole(j[2]), j[3] >>
      [] op = "local" -> << j[1], j[2], j[3], j[4] >>                                         \* length, fraction, scale, down
      [] op = "bmean" -> << j[1], j[2], j[5], j[3], j[4] >>                                   \* length, fraction, local, scale, down
      [] op = "minmax" -> << j[5], j[1], j[2], j[6], j[3], j[4] >>                            \* spread, length, fraction, local, scale, down
      [] op = "botsu" -> << j[1], j[2], j[3], j[4], j[5], j[6], j[7] >>
=============================================================================
