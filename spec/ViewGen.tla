------------------------------ MODULE ViewGen ------------------------------
(* Placements of two inputs and an output of one shape, chosen one by one.    *)
(* A placement: cells before, cells between rows, cells after, or an image of *)
(* its own.                                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxW, MaxH, Pads
VARIABLES shape, places
GInit == shape = << 0, 0 >> /\ places = <<>>
Shape == /\ shape = << 0, 0 >> /\ \E w \in 1..MaxW, h \in 1..MaxH : shape' = << w, h >>
         /\ UNCHANGED places
Place == /\ shape # << 0, 0 >> /\ Len(places) < 3
         /\ \E lead \in {0, 1, 3}, left \in Pads, right \in Pads, tail \in {0, 2} :
              places' = Append(places, [lead |-> lead, left |-> left, right |-> right, tail |-> tail])
         /\ UNCHANGED shape
GSpec == GInit /\ [][Shape \/ Place]_<< shape, places >>
Emit == Len(places) = 3 => PrintT("@" \o ToJson([w |-> shape[1], h |-> shape[2], p |-> places]))
=============================================================================
