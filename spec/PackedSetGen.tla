--------------------------- MODULE PackedSetGen ---------------------------
(* Enumerates every operation history of a bounded length; each one is      *)
(* printed as JSON and driven through the real container.                   *)
EXTENDS PackedSets, TLC, Json, TLCExt

CONSTANT Depth
VARIABLES hist, aside

Op(r) == hist' = Append(hist, r)
n == Len(hist) + 1

GInit == Init /\ hist = <<>> /\ aside = <<>>
GStart == Start /\ Op([op |-> "start"])
GPush == Push(n) /\ Op([op |-> "push", v |-> n])
GRemove == RemoveTail /\ Op([op |-> "remove"])
GClear == sets # <<>> /\ Clear /\ Op([op |-> "clear"])
GWrite == \E i \in {1, Len(sets)} : HasSet(i) /\ sets[i] # <<>>
             /\ LET vs == [k \in 1..Len(sets[i]) |-> 10 * n + k] IN
                WriteSet(i, vs) /\ Op([op |-> "write", i |-> i - 1, v |-> vs])
GBadWrite == /\ UNCHANGED sets
             /\ Op([op |-> "write", i |-> Len(sets) - (IF sets = <<>> THEN 0 ELSE 1),
                    v |-> [k \in 1..(TailSize + 1) |-> 90 + k]])
GSet == sets # <<>> /\ TailSize > 0
        /\ SetElement(Len(sets), TailSize, 70 + n)
        /\ Op([op |-> "set", i |-> Len(sets) - 1, j |-> TailSize - 1, v |-> 70 + n])

\* a copy (block 0) or an assignment to a container with blocks of another size; back to what was copied
Copies == { j \in DOMAIN hist : hist[j].op = "copy" }
Last == CHOOSE j \in Copies : \A m \in Copies : m <= j
GCopy == \E b \in {0, 2} : UNCHANGED sets /\ aside' = sets /\ Op([op |-> "copy", block |-> b])
GRestore == Copies # {} /\ Len(hist) > Last + 1 /\ sets' = aside /\ UNCHANGED aside /\ Op([op |-> "restore"])

GNext == Len(hist) < Depth /\ (GCopy \/ GRestore \/ (UNCHANGED aside /\ (GStart \/ GPush \/ GRemove \/ GClear \/ GWrite \/ GBadWrite \/ GSet)))
GSpec == GInit /\ [][GNext]_<< sets, hist, aside >>
Emit == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
