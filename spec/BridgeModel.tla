----------------------------- MODULE BridgeModel -----------------------------
(* A native operation on images in Java arrays, which may be in one array,    *)
(* and a virtual machine which hands out copies or pins. The operation may    *)
(* fail at any point. Whatever the order in which arrays are acquired and     *)
(* given back, inputs and surroundings keep their content and a completed     *)
(* operation arrives in Java.                                                 *)
EXTENDS Bridge
CONSTANTS Cells         \* cells of an array
ASSUME Cells >= 3
VARIABLES pins, place, heap, buf, held, pc, order, wrote, failed, log, toks
vars == << pins, place, heap, buf, held, pc, order, wrote, failed, log, toks >>
Roles == {Input, Output, Storage}
\* the operation: every output cell becomes the sum of the input and 100
OutCells == {2, 3}
InCell == 1
Arr(r) == place[r + 1]
BInit ==
    /\ pins \in BOOLEAN
    \* separate arrays, or input and output in one
    /\ place \in {<< 1, 2, 3 >>, << 1, 1, 3 >>, << 1, 2, 2 >>}
    /\ heap = [a \in 1..3 |-> [c \in 1..Cells |-> 10 * a + c]]
    /\ buf = <<>> /\ held = {} /\ pc = "lookup" /\ order = <<>> /\ wrote = {} /\ failed = FALSE /\ log = <<>> /\ toks = <<>>
Call(a) == Allowed(held, a) /\ held' = After(held, a) /\ log' = Append(log, a)
\* finding classes, fields and lengths comes first
Lookup == /\ pc = "lookup" /\ Call(<< 5, 0, 0, 0 >>) /\ pc' \in {"acquire", "end"} /\ failed' = (pc' = "end")
          /\ UNCHANGED << pins, place, heap, buf, order, wrote, toks >>
Held == { toks[k] : k \in DOMAIN toks }
Acquire == /\ pc = "acquire" /\ \E r \in Roles :
              /\ r \notin Held
              /\ Call(<< 1, Arr(r), Len(toks) + 1, 0 >>)
              /\ toks' = Append(toks, r)
              /\ buf' = Append(buf, heap[Arr(r)])
              /\ pc' = IF Len(toks) = 2 THEN "compute" ELSE "acquire"
           /\ UNCHANGED << pins, place, heap, order, wrote, failed >>
Tok(r) == CHOOSE k \in DOMAIN toks : toks[k] = r
Read(r, c) == IF pins THEN heap[Arr(r)][c] ELSE buf[Tok(r)][c]
Put(r, c, v) == IF pins THEN heap' = [heap EXCEPT ![Arr(r)][c] = v] /\ UNCHANGED buf
                        ELSE buf' = [buf EXCEPT ![Tok(r)][c] = v] /\ UNCHANGED heap
\* cell 1 of storage may be used, unless it is next to the output
\* an operation needs memory between acquiring its arrays: what it holds by then is given back
NoMemory == /\ pc = "acquire" /\ failed' = TRUE /\ pc' = (IF held = {} THEN "end" ELSE "release")
            /\ UNCHANGED << pins, place, heap, buf, held, order, wrote, log, toks >>
Compute == /\ pc = "compute" /\ \E c \in OutCells \ wrote :
              /\ Put(Output, c, Read(Input, InCell) + 100 + c)
              /\ wrote' = wrote \cup {c}
           /\ UNCHANGED << pins, place, held, pc, order, failed, log, toks >>
Scratch == /\ pc = "compute" /\ wrote = {} /\ Put(Storage, 1, 7)
           /\ UNCHANGED << pins, place, held, pc, order, wrote, failed, log, toks >>
Fail == /\ pc = "compute" /\ OutCells \ wrote # {} /\ pc' = "release" /\ failed' = TRUE
        /\ UNCHANGED << pins, place, heap, buf, held, order, wrote, log, toks >>
Computed == /\ pc = "compute" /\ wrote = OutCells /\ pc' = "release"
            /\ UNCHANGED << pins, place, heap, buf, held, order, wrote, failed, log, toks >>
Mode(r) == IF r = Output THEN Commit ELSE Discard
Release == /\ pc = "release" /\ \E r \in Roles :
              /\ r \in Held /\ << Arr(r), Tok(r), 1 >> \in held
              /\ Call(<< 2, Arr(r), Tok(r), Mode(r) >>)
              /\ heap' = IF ~pins /\ Mode(r) = Commit THEN [heap EXCEPT ![Arr(r)] = buf[Tok(r)]] ELSE heap
              /\ order' = Append(order, r)
              /\ pc' = IF Cardinality(held) = 1 THEN "end" ELSE "release"
           /\ UNCHANGED << pins, place, buf, wrote, failed, toks >>
BNext == Lookup \/ Acquire \/ NoMemory \/ Compute \/ Scratch \/ Fail \/ Computed \/ Release
BSpec == BInit /\ [][BNext]_vars
Old(a, c) == 10 * a + c
Ends == pc = "end" => Disciplined(log) /\ held = {}
InputKept == \A c \in 1..Cells : (pc = "end" \/ ~pins) /\ ~(\E r \in {Output, Storage} : Arr(r) = Arr(Input)) => heap[Arr(Input)][c] = Old(Arr(Input), c)
AroundKept == pc = "end" => \A a \in 1..3, c \in 1..Cells :
    (a = Arr(Output) /\ c \in OutCells) \/ (a = Arr(Storage) /\ c = 1) \/ heap[a][c] = Old(a, c)
Delivered == pc = "end" /\ ~failed => \A c \in OutCells : heap[Arr(Output)][c] = Old(Arr(Input), InCell) + 100 + c
\* the checker of recorded calls agrees with the meaning
Memory == pc = "end" => MemoryOk(<< << Arr(Input), Input, 0, 1, 1, 1 >>, << Arr(Output), Output, 1, 2, 2, 1 >>, << Arr(Storage), Storage, 0, 1, 1, 1 >> >>,
    [a \in 1..3 |-> [b |-> [c \in 1..Cells |-> Old(a, c)], a |-> heap[a],
                     x |-> [c \in 1..Cells |-> IF a = Arr(Output) /\ c \in OutCells THEN Old(Arr(Input), InCell) + 100 + c ELSE Old(a, c)]]], ~failed)
=============================================================================
