------------------------------ MODULE Threads ------------------------------
(* Calls which run at the same time in several threads. What a call gives   *)
(* when it runs alone is known; while other calls run it gives the same,    *)
(* and what the calls only read stays as it is.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES alone,    \* << thread, number of the call >> -> result when run alone
          running,  \* thread -> number of its running call, 0: none
          done,     \* thread -> calls finished
          shared    \* what all of them read
tvars == << alone, running, done, shared >>
Known(t, k) == << t, k >> \in DOMAIN alone
Alone(t, k, r) == /\ ~Known(t, k) /\ alone' = alone @@ (<< t, k >> :> r)
                  /\ UNCHANGED << running, done, shared >>
\* the calls of one thread follow one another
Begin(t, k) == /\ running[t] = 0 /\ k = done[t] + 1 /\ Known(t, k)
               /\ running' = [running EXCEPT ![t] = k] /\ UNCHANGED << alone, done, shared >>
\* something happens inside of a call, or a thread does not get anywhere
Step(t) == t \in DOMAIN running /\ UNCHANGED tvars
End(t, k, r) == /\ running[t] = k /\ k > 0
                /\ r = alone[<< t, k >>]
                /\ running' = [running EXCEPT ![t] = 0] /\ done' = [done EXCEPT ![t] = k] /\ UNCHANGED << alone, shared >>
\* looking at what is shared
Look(d) == shared = d /\ UNCHANGED tvars
=============================================================================
