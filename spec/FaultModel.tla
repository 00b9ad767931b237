----------------------------- MODULE FaultModel -----------------------------
(* How the objects of the library get and give back memory, one request at a *)
(* time, and what they do when a request is refused: gray images (reshape,    *)
(* becoming a view of another image), planar images (number of bands, shape)  *)
(* and packed sets (growth by a block). Whenever no call is under way every   *)
(* object owns what it says it is, nothing is owned twice, nothing is left    *)
(* over; when all objects are destroyed the memory is empty.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, W, Bands, Blocks, Variant, Parts
\* Parts: which objects are used, of "img", "pl" and "ps"
\* Variant 0: the library. 1: gives back before it asks, 2: keeps what a refused call had got, 3: leaves the bands in different shapes
VARIABLES heap, img, pl, ps, op, got, wrong, dead
vars == << heap, img, pl, ps, op, got, wrong, dead >>
Id == 1..M
Free == -1
None == [k |-> "none"]
Live == { b \in Id : heap[b] # Free }
Room == { b \in Id : heap[b] = Free /\ \A c \in 1..(b - 1) : heap[c] # Free }
Give(h, s) == [b \in Id |-> IF b \in s THEN Free ELSE h[b]]
\* blocks which are given back although they are not held
Bad(s) == \E b \in s : heap[b] = Free
Init == /\ heap = [b \in Id |-> IF b <= 2 THEN 0 ELSE IF b <= 4 THEN 1 ELSE Free]
        /\ img = [o \in 1..2 |-> [p |-> o, cap |-> 0, w |-> 0, own |-> TRUE]]
        /\ pl = [tab |-> 0, bands |-> << >>, w |-> 0]
        /\ ps = [tab |-> 3, blocks |-> << 4 >>, n |-> 0]
        /\ op = None /\ got = << >> /\ wrong = FALSE /\ dead = FALSE
Idle == op = None /\ ~dead
Used(q) == Idle /\ q \in Parts
Same == UNCHANGED dead
\* a request: either a block, or it is refused
Asked(n, b) == b \in Room /\ heap' = [heap EXCEPT ![b] = n] /\ got' = Append(got, b)
\* ---- gray images
Fits(o, n) == Used("img") /\ img[o].own /\ n <= img[o].cap /\ n # img[o].w /\ img' = [img EXCEPT ![o].w = n] /\ UNCHANGED << heap, pl, ps, op, got, wrong >> /\ Same
Grow(o, n) == /\ Used("img") /\ img[o].own /\ n > img[o].cap /\ op' = [k |-> "grow", o |-> o, n |-> n]
              /\ (IF Variant = 1 THEN heap' = Give(heap, {img[o].p}) /\ wrong' = (wrong \/ Bad({img[o].p})) ELSE UNCHANGED << heap, wrong >>)
              /\ UNCHANGED << img, pl, ps, got >> /\ Same
Grown == /\ op.k = "grow" /\ UNCHANGED << pl, ps >> /\ Same
         /\ \/ /\ got = << >> /\ (\E b \in Room : Asked(op.n, b)) /\ UNCHANGED << img, op, wrong >>
            \/ /\ got = << >> /\ op' = None /\ UNCHANGED << heap, img, got, wrong >>        \* refused
            \/ /\ got # << >> /\ op' = None /\ got' = << >>
               /\ img' = [img EXCEPT ![op.o] = [p |-> got[1], cap |-> op.n, w |-> op.n, own |-> TRUE]]
               /\ (IF Variant = 1 THEN UNCHANGED << heap, wrong >> ELSE heap' = Give(heap, {img[op.o].p}) /\ wrong' = (wrong \/ Bad({img[op.o].p})))
Adopt(o, u) == /\ Used("img") /\ o # u /\ img[u].own
               /\ img' = [img EXCEPT ![o] = [img[u] EXCEPT !.own = FALSE]]
               /\ (IF img[o].own THEN heap' = Give(heap, {img[o].p}) /\ wrong' = (wrong \/ Bad({img[o].p})) ELSE UNCHANGED << heap, wrong >>)
               /\ UNCHANGED << pl, ps, op, got >> /\ Same
\* ---- planar images. A band is an object of its own with its pixels
More(n) == Used("pl") /\ n > Len(pl.bands) /\ op' = [k |-> "more", n |-> n] /\ UNCHANGED << heap, img, pl, ps, got, wrong >> /\ Same
\* got: the table, then object and pixels of every new band
Needed == 1 + 2 * (op.n - Len(pl.bands))
MoreGot == /\ op.k = "more" /\ UNCHANGED << img, ps >> /\ Same
           /\ \/ Len(got) < Needed /\ (\E b \in Room : Asked(IF Len(got) = 0 THEN op.n ELSE IF Len(got) % 2 = 1 THEN 0 ELSE pl.w, b)) /\ UNCHANGED << pl, op, wrong >>
              \/ /\ Len(got) < Needed /\ op' = None /\ got' = << >> /\ UNCHANGED << pl, wrong >>   \* refused
                 /\ heap' = (IF Variant = 2 THEN Give(heap, IF Len(got) > 1 /\ Len(got) % 2 = 0 THEN {got[Len(got)]} ELSE {}) ELSE Give(heap, { got[k] : k \in DOMAIN got }))
              \/ /\ Len(got) = Needed /\ op' = None /\ got' = << >>
                 /\ pl' = [pl EXCEPT !.tab = got[1], !.bands = pl.bands \o [k \in 1..(op.n - Len(pl.bands)) |-> [o |-> got[2 * k], p |-> got[2 * k + 1], cap |-> pl.w, w |-> pl.w]]]
                 /\ heap' = Give(heap, {pl.tab} \ {0}) /\ wrong' = (wrong \/ Bad({pl.tab} \ {0}))
Less(n) == Used("pl") /\ n < Len(pl.bands) /\ op' = [k |-> "less", n |-> n] /\ UNCHANGED << heap, img, pl, ps, got, wrong >> /\ Same
Gone == {pl.tab} \cup { pl.bands[k].o : k \in (op.n + 1)..Len(pl.bands) } \cup { pl.bands[k].p : k \in (op.n + 1)..Len(pl.bands) }
LessGot == /\ op.k = "less" /\ UNCHANGED << img, ps >> /\ Same
           /\ \/ got = << >> /\ (\E b \in Room : Asked(op.n, b)) /\ UNCHANGED << pl, op, wrong >>
              \/ got = << >> /\ op' = None /\ UNCHANGED << heap, pl, got, wrong >>
              \/ got # << >> /\ op' = None /\ got' = << >> /\ pl' = [pl EXCEPT !.tab = got[1], !.bands = SubSeq(pl.bands, 1, op.n)] /\ heap' = Give(heap, Gone) /\ wrong' = (wrong \/ Bad(Gone))
Shape(n) == Used("pl") /\ n # pl.w /\ op' = [k |-> "shape", n |-> n, i |-> 1] /\ UNCHANGED << heap, img, pl, ps, got, wrong >> /\ Same
ShapeGot == /\ op.k = "shape" /\ UNCHANGED << img, ps >> /\ Same
            /\ IF op.i > Len(pl.bands) THEN op' = None /\ pl' = [pl EXCEPT !.w = op.n] /\ UNCHANGED << heap, got, wrong >>
               ELSE LET b == pl.bands[op.i] IN
                    \/ op.n <= b.cap /\ pl' = [pl EXCEPT !.bands[op.i].w = op.n] /\ op' = [op EXCEPT !.i = @ + 1] /\ UNCHANGED << heap, got, wrong >>
                    \/ op.n > b.cap /\ got = << >> /\ (\E c \in Room : Asked(op.n, c)) /\ UNCHANGED << pl, op, wrong >>
                    \/ /\ op.n > b.cap /\ got = << >> /\ op' = None /\ UNCHANGED << heap, got, wrong >>   \* refused: all bands go back
                       /\ pl' = (IF Variant = 3 THEN pl ELSE [pl EXCEPT !.bands = [k \in DOMAIN @ |-> [@[k] EXCEPT !.w = pl.w]]])
                    \/ /\ got # << >> /\ got' = << >> /\ op' = [op EXCEPT !.i = @ + 1] /\ heap' = Give(heap, {b.p}) /\ wrong' = (wrong \/ Bad({b.p}))
                       /\ pl' = [pl EXCEPT !.bands[op.i] = [b EXCEPT !.p = got[1], !.cap = op.n, !.w = op.n]]
\* ---- packed sets, blocks of one element
Push == /\ Used("ps") /\ ps.n < Blocks /\ UNCHANGED << heap, img, pl, got, wrong >> /\ Same
        /\ (IF ps.n < Len(ps.blocks) THEN ps' = [ps EXCEPT !.n = @ + 1] /\ op' = op ELSE op' = [k |-> "push"] /\ ps' = ps)
Pop == Used("ps") /\ ps.n > 0 /\ ps' = [ps EXCEPT !.n = @ - 1] /\ UNCHANGED << heap, img, pl, op, got, wrong >> /\ Same
PushGot == /\ op.k = "push" /\ UNCHANGED << img, pl >> /\ Same
           /\ \/ Len(got) < 2 /\ (\E b \in Room : Asked(IF got = << >> THEN Len(ps.blocks) + 1 ELSE 1, b)) /\ UNCHANGED << ps, op, wrong >>
              \/ Len(got) < 2 /\ op' = None /\ got' = << >> /\ heap' = (IF Variant = 2 THEN heap ELSE Give(heap, { got[k] : k \in DOMAIN got })) /\ UNCHANGED << ps, wrong >>
              \/ Len(got) = 2 /\ op' = None /\ got' = << >> /\ heap' = Give(heap, {ps.tab}) /\ wrong' = (wrong \/ Bad({ps.tab})) /\ ps' = [tab |-> got[1], blocks |-> Append(ps.blocks, got[2]), n |-> ps.n + 1]
\* ---- what the objects own
OfImg == { img[o].p : o \in { q \in DOMAIN img : img[q].own } }
OfPl == ({pl.tab} \ {0}) \cup { pl.bands[k].o : k \in DOMAIN pl.bands } \cup { pl.bands[k].p : k \in DOMAIN pl.bands }
OfPs == {ps.tab} \cup { ps.blocks[k] : k \in DOMAIN ps.blocks }
Owned == OfImg \cup OfPl \cup OfPs
Destroy == Idle /\ dead' = TRUE /\ heap' = Give(heap, Owned) /\ wrong' = (wrong \/ Bad(Owned)) /\ UNCHANGED << img, pl, ps, op, got >>
Next == \/ \E o \in 1..2, n \in 0..W : Fits(o, n)
        \/ \E o \in 1..2, n \in 0..W : Grow(o, n)
        \/ \E o \in 1..2 : Adopt(o, 3 - o)
        \/ \E n \in 0..Bands : More(n)
        \/ \E n \in 0..Bands : Less(n)
        \/ \E n \in 0..W : Shape(n)
        \/ Grown \/ MoreGot \/ LessGot \/ ShapeGot \/ Push \/ Pop \/ PushGot \/ Destroy
Spec == Init /\ [][Next]_vars
Holds(p, n) == p \in Id /\ heap[p] >= n
Count == Cardinality({ o \in DOMAIN img : img[o].own }) + (IF pl.tab = 0 THEN 0 ELSE 1) + 2 * Len(pl.bands) + 1 + Len(ps.blocks)
Never == ~wrong
Sound == op = None /\ ~dead =>
    /\ got = << >>
    /\ \A o \in DOMAIN img : img[o].own => Holds(img[o].p, img[o].cap) /\ img[o].w <= img[o].cap
    /\ \A k \in DOMAIN pl.bands : pl.bands[k].w = pl.w /\ pl.w <= pl.bands[k].cap /\ Holds(pl.bands[k].p, pl.bands[k].cap) /\ Holds(pl.bands[k].o, 0)
    /\ (pl.tab = 0 => pl.bands = << >>) /\ (pl.tab # 0 => Holds(pl.tab, Len(pl.bands)))
    /\ Holds(ps.tab, Len(ps.blocks)) /\ ps.n <= Len(ps.blocks) /\ \A k \in DOMAIN ps.blocks : Holds(ps.blocks[k], 1)
    /\ Cardinality(Owned) = Count       \* nothing is owned twice
    /\ Live = Owned                     \* nothing is left over
Empty == dead => Live = {}
=============================================================================
