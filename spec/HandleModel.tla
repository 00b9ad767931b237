---------------------------- MODULE HandleModel ----------------------------
(* The mechanism behind handles: Java objects hold the address of a native    *)
(* object, which lives in memory that is used again after it was freed. Java  *)
(* may destroy an object twice. Refines Handles: no object sees another's     *)
(* settings, nothing is freed twice or used after it was freed.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Objects, Addresses, Limits
VARIABLES ptr,      \* Java object -> address, 0 when none
          memory,   \* address -> native object or "free"
          bad       \* something was freed twice or used after it was freed
vars == << ptr, memory, bad >>
Free == [live |-> FALSE, rule |-> 0, min |-> 0, max |-> 0, save |-> 0]
Largest == 2147483647
HInit == ptr = [o \in Objects |-> 0] /\ memory = [a \in Addresses |-> Free] /\ bad = FALSE
Init(o) == /\ ptr[o] = 0 /\ \E a \in Addresses : ~memory[a].live
              /\ memory' = [memory EXCEPT ![a] = [live |-> TRUE, rule |-> 4, min |-> 0, max |-> Largest, save |-> 1]]
              /\ ptr' = [ptr EXCEPT ![o] = a]
           /\ UNCHANGED bad
Destroy(o) == /\ bad' = (bad \/ (ptr[o] # 0 /\ ~memory[ptr[o]].live))
              /\ memory' = IF ptr[o] = 0 THEN memory ELSE [memory EXCEPT ![ptr[o]] = Free]
              /\ ptr' = [ptr EXCEPT ![o] = 0]
Change(o, m) == ptr[o] # 0 /\ bad' = (bad \/ ~memory[ptr[o]].live) /\ memory' = [memory EXCEPT ![ptr[o]] = m] /\ UNCHANGED ptr
SetRule(o) == ptr[o] # 0 /\ \E v \in {4, 8} : Change(o, [memory[ptr[o]] EXCEPT !.rule = v])
SetMin(o) == ptr[o] # 0 /\ \E v \in Limits : Change(o, [memory[ptr[o]] EXCEPT !.min = v])
SetMax(o) == ptr[o] # 0 /\ \E v \in Limits : Change(o, [memory[ptr[o]] EXCEPT !.max = v])
SetSave(o) == ptr[o] # 0 /\ \E v \in 0..1 : Change(o, [memory[ptr[o]] EXCEPT !.save = v])
InitAny == \E o \in Objects : Init(o)
DestroyAny == \E o \in Objects : Destroy(o)
SetAny == \E o \in Objects : SetRule(o) \/ SetMin(o) \/ SetMax(o) \/ SetSave(o)
HNext == InitAny \/ DestroyAny \/ SetAny
HSpec == HInit /\ [][HNext]_vars
Safe == ~bad /\ \A o, q \in Objects : (o # q /\ ptr[o] # 0) => ptr[o] # ptr[q]
NoLeak == \A a \in Addresses : memory[a].live <=> \E o \in Objects : ptr[o] = a
\* what Java sees
Seen == [o \in { x \in Objects : ptr[x] # 0 } |->
           LET m == memory[ptr[o]] IN [kind |-> "contour", real |-> FALSE, java |-> <<>>, rule |-> m.rule, min |-> m.min, max |-> m.max, save |-> m.save]]
Ref == INSTANCE Handles WITH hs <- Seen
RefNext == \E o \in Objects :
    \/ Ref!New(o, "contour", FALSE, <<>>)
    \/ Ref!Destroy(o)
    \/ (o \in DOMAIN Seen /\ ((\E v \in Limits : Ref!Set(o, "min", v) \/ Ref!Set(o, "max", v)) \/ (\E v \in {4, 8} : Ref!Set(o, "rule", v)) \/ (\E v \in 0..1 : Ref!Set(o, "save", v))))
Refines == Seen = << >> /\ [][RefNext]_Seen
=============================================================================
