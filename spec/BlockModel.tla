----------------------------- MODULE BlockModel -----------------------------
(* The order in which block statistics are computed (inner blocks, then the   *)
(* remainders of each row, then the last row) and used, for every image size. *)
EXTENDS Blocks
CONSTANTS MaxW, MaxH
VARIABLES pc, w, h, req, bw, bh, iw, ih, x, y, index, stat, done
bvars == << pc, w, h, req, bw, bh, iw, ih, x, y, index, stat, done >>
BInit == /\ pc = "pick" /\ w = 0 /\ h = 0 /\ req = 0 /\ bw = 1 /\ bh = 1 /\ iw = 0 /\ ih = 0 /\ x = 0 /\ y = 0 /\ index = 0
         /\ stat = <<>> /\ done = {}
Pick == /\ pc = "pick" /\ w' \in 1..MaxW /\ h' \in 1..MaxH /\ req' \in 1..Side(w', h')
        /\ bh' = h' \div (h' \div req') /\ bw' = w' \div (w' \div req')
        /\ iw' = (IF w' % bw' = 0 THEN w' ELSE w' - bw' - (w' % bw'))
        /\ ih' = (IF h' % bh' = 0 THEN h' ELSE h' - bh' - (h' % bh'))
        /\ stat' = [k \in 1..((w' \div bw') * (h' \div bh')) |-> {}]
        /\ pc' = "stats" /\ UNCHANGED << x, y, index, done >>
Rect(x0, y0, n, m) == { At(w, a, b) : a \in x0..(x0 + n - 1), b \in y0..(y0 + m - 1) }
Height == IF y = ih THEN h - ih ELSE bh
\* one block of the row at y
Inner == /\ pc = "stats" /\ x < iw
         /\ stat' = [stat EXCEPT ![index + 1] = @ \cup Rect(x, y, bw, Height)]
         /\ x' = x + bw /\ index' = index + 1 /\ UNCHANGED << pc, w, h, req, bw, bh, iw, ih, y, done >>
Remainder == /\ pc = "stats" /\ x >= iw
             /\ IF iw # w THEN stat' = [stat EXCEPT ![index + 1] = @ \cup Rect(iw, y, w - iw, Height)] /\ index' = index + 1
                          ELSE UNCHANGED << stat, index >>
             /\ x' = 0 /\ y' = y + bh
             /\ pc' = (IF y = ih \/ (y + bh >= ih /\ ih = h) THEN "use" ELSE "stats")
             /\ UNCHANGED << w, h, req, bw, bh, iw, ih, done >>
Use == /\ pc = "use" /\ Cardinality(done) < w * h
       /\ LET g == Grid(w, h, req) b == CHOOSE c \in Grids(g) : Block(w, h, g, c[1], c[2]) \cap done = {} IN
          done' = done \cup Block(w, h, g, b[1], b[2])
       /\ UNCHANGED << pc, w, h, req, bw, bh, iw, ih, x, y, index, stat >>
MSpec == BInit /\ [][Pick \/ Inner \/ Remainder \/ Use]_bvars
G == Grid(w, h, req)
\* entry number of the grid holds exactly the pixels of that block
Layout == pc = "use" => /\ G[1] >= 1 /\ G[2] >= 1 /\ G[3] = bw /\ G[4] = bh /\ bw >= req /\ bh >= req
                        /\ index = Len(stat)
                        /\ \A b \in Grids(G) : stat[b[2] * G[1] + b[1] + 1] = Block(w, h, G, b[1], b[2])
                        /\ (UNION { stat[k] : k \in DOMAIN stat }) = 1..(w * h)
                        /\ SumOf([k \in DOMAIN stat |-> Cardinality(stat[k])]) = w * h
                        /\ \A a \in 0..(w - 1), b \in 0..(h - 1) : At(w, a, b) \in stat[BlockOf(b, G[2], bh) * G[1] + BlockOf(a, G[1], bw) + 1]
=============================================================================
