------------------------------ MODULE ConvTrace ------------------------------
(* Recorded border reads, convolutions, normalised convolutions and blurs.    *)
EXTENDS Convolution, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* what happened to the output image: shape, memory around it, and that the reported pixels are its pixels
OutOk(e) == /\ e.ow = W(e.im) /\ e.oh = H(e.im) /\ Len(e.res) = e.ow * e.oh
            /\ (e.kept => W(e.out) = e.ow /\ H(e.out) = e.oh /\ AroundUnchanged(e.out) /\ After(e.out) = e.res)
Rejected(e) == e.rej = TRUE /\ IF e.kept THEN AroundUnchanged(e.out) /\ After(e.out) = e.res ELSE e.res = <<>>
Refused(e) == Rejected(e) /\ Unchanged(e.out)
BorderOk(e) == LET p == Before(e.im) w == W(e.im) h == H(e.im) IN
    /\ e.bw = w /\ e.bh = h /\ Unchanged(e.im)
    /\ \A j \in DOMAIN e.xs : e.res[j] = Read(p, w, h, e.rule, e.c, e.xs[j], e.ys[j])
\* kinds: 0 SKIP, 1 EXTENDED, 2 NORMALIZED, 3 REFLECT, 4 WRAP, 5 ZERO
FactoryOk(e) == e.rej = (e.kind \in {0, 2})
Sums(e, p, w, h) == TLCEval(CASE e.dir = "h" -> ConvH(p, w, h, e.ker, e.o, e.rule, e.c)
                              [] e.dir = "v" -> ConvV(p, w, h, e.ker, e.o, e.rule, e.c)
                              [] e.dir = "2d" -> Conv2(p, w, h, e.ker, e.kw, e.o, e.rule, e.c))
InInner(e, x, y, w, h) == /\ (e.dir # "v" => x >= e.o /\ x - e.o + e.kw <= w)
                          /\ (e.dir # "h" => y >= e.o /\ y - e.o + e.kw <= h)
ConvOk(e) == LET p == Before(e.im) w == W(e.im) h == H(e.im) s == Sums(e, p, w, h) old == Before(e.out) IN
    /\ Unchanged(e.im) /\ e.rej = FALSE /\ OutOk(e)
    /\ \A k \in 1..(w * h) :
         IF e.impl = "inner" /\ ~InInner(e, X(k, w), Y(k, w), w, h) THEN e.res[k] = old[k]
         ELSE IF e.div = 0 THEN e.res[k] = Trunc(s[k], e.cut)   \* sums of real pixels lose their fraction when written to an integer image, once
         ELSE IF e.real THEN Abs(e.res[k] * e.div - 64 * s[k]) <= e.div
         ELSE e.res[k] = Rounded(s[k], e.div)
\* one normalised pixel from << sum, weight >>
PixelOk(e, q, v) == CASE e.how = "int" -> v = Rounded(q[1], q[2])
                      [] e.how = "wide" -> v * q[2] = 720720 * q[1]
                      [] e.how = "real" -> Abs(v * q[2] - e.f * q[1]) <= q[2]
NormOk(e) == LET p == Before(e.im) w == W(e.im) h == H(e.im) n == Len(e.ker) IN
    /\ Unchanged(e.im) /\ AroundUnchanged(e.sto)
    /\ IF e.bad THEN Refused(e) ELSE
       /\ e.rej = FALSE /\ OutOk(e)
       /\ IF e.dir = "hv"
          THEN IF e.how = "int" THEN e.res = NormV(NormH(p, w, h, e.ker, e.o), w, h, e.ker, e.o)
               ELSE LET m == NormH([k \in DOMAIN p |-> e.f * p[k]], w, h, e.ker, e.o) IN
                    \A k \in 1..(w * h) : LET q == NormAtV(m, w, h, e.ker, e.o, k) IN Abs(e.res[k] * q[2] - q[1]) <= 2 * q[2]
          ELSE LET old == Before(e.out) IN \A k \in 1..(w * h) :
               LET x == X(k, w) y == Y(k, w) IN
               IF e.impl = "border" /\ (IF e.dir = "h" THEN x >= e.o /\ x - e.o + n <= w ELSE y >= e.o /\ y - e.o + n <= h) THEN e.res[k] = old[k]
               ELSE PixelOk(e, (IF e.dir = "h" THEN NormAtH(p, w, e.ker, e.o, k) ELSE NormAtV(p, w, h, e.ker, e.o, k)), e.res[k])
\* sum and number of the pixels averaged: rows, columns or both
MeanOf(e, p, w, h, k) == LET x == X(k, w) y == Y(k, w) l == Lo(x, e.r) u == Hi(x, e.r, w, 2 * e.r + 1) t == Lo(y, e.r) b == Hi(y, e.r, h, 2 * e.r + 1) IN
    CASE e.impl = "h" -> << SumOf([j \in 1..(u - l + 1) |-> p[At(w, l + j - 1, y)]]), u - l + 1 >>
      [] e.impl = "v" -> << SumOf([j \in 1..(b - t + 1) |-> p[At(w, x, t + j - 1)]]), b - t + 1 >>
      [] e.impl = "blur" -> WindowAt(p, w, h, e.r, k)
MeanOk(e) == LET p == Before(e.im) w == W(e.im) h == H(e.im) IN
    /\ Unchanged(e.im) /\ AroundUnchanged(e.sto)
    /\ IF e.bad THEN Refused(e) ELSE IF e.impl = "blur" /\ e.r = 0 THEN Rejected(e)
       ELSE /\ e.rej = FALSE /\ OutOk(e)
            /\ IF e.how = "int" /\ ~e.neg /\ e.impl = "blur" THEN e.res = MeanBlur(p, w, h, e.r)
               ELSE \A k \in 1..(w * h) : LET q == MeanOf(e, p, w, h, k) v == e.res[k] IN
                    CASE e.how = "wide" -> v * q[2] = 705600 * q[1]
                      [] e.how = "real" -> Abs(v * q[2] - e.f * q[1]) <= q[2]
                      [] e.how = "int" -> IF ~e.neg THEN v = Rounded(q[1], q[2]) ELSE 2 * Abs(v * q[2] - q[1]) <= (IF e.impl = "blur" THEN 6 ELSE 3) * q[2]
\* an image of e.w columns which repeats itself every e.p columns gives what a narrow one gives, with columns repeated inside
\* (d columns at either side are near the border; the narrow one has the same number of columns modulo the period)
Narrow(e, x) == IF x < e.d THEN x ELSE IF x >= e.w - e.d THEN W(e.im) - (e.w - x) ELSE e.d + ((x - e.d) % e.p)
PanOk(e) == LET w == W(e.im) p == Before(e.im) IN
    /\ w >= 2 * e.d + e.p /\ (e.w - w) % e.p = 0 /\ e.d > 2 * e.r
    /\ \A k \in DOMAIN p : X(k, w) + e.p < w => p[k] = p[k + e.p]
    /\ MeanOk(e) /\ e.bw = e.w /\ e.bh = H(e.im) /\ e.other = 0
    /\ \A j \in DOMAIN e.xs : e.vs[j] = e.res[At(w, Narrow(e, e.xs[j]), e.ys[j])]
GaussOk(e) == LET p == Before(e.im) w == W(e.im) h == H(e.im) IN
    /\ Unchanged(e.im) /\ AroundUnchanged(e.sto)
    /\ IF e.rej THEN e.width <= 1 /\ e.sig <= 0 /\ Rejected(e)
       ELSE /\ ~(e.width <= 0 /\ e.sig <= 0) /\ OutOk(e)
            /\ (e.width > 0 => Len(e.ker) = e.width)
            /\ IF e.how = "int" THEN e.res = NormV(NormH(p, w, h, e.ker, e.o), w, h, e.ker, e.o)
               ELSE LET m == NormH([k \in DOMAIN p |-> 256 * p[k]], w, h, e.ker, e.o) IN
                    \A k \in 1..(w * h) : LET q == NormAtV(m, w, h, e.ker, e.o, k) IN Near(e.res[k], Rounded(q[1], q[2]), 4)
Valid(e) == CASE e.e = "border" -> BorderOk(e) [] e.e = "factory" -> FactoryOk(e) [] e.e = "conv" -> ConvOk(e)
              [] e.e = "norm" -> NormOk(e) [] e.e = "mean" -> MeanOk(e) [] e.e = "gauss" -> GaussOk(e) [] e.e = "pan" -> PanOk(e)
Ok(e) == IF IOEnv.EXPECT = "reject" THEN ~Valid(e) ELSE Valid(e)
TSpec == i = 1 /\ [][i <= Len(Tr) /\ TLCEval(Ok(Tr[i])) /\ i' = i + 1]_i
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
