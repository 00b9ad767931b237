---------------------------- MODULE ThreadTrace ----------------------------
EXTENDS Threads, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
TInit == i = 1 /\ alone = << >> /\ running = << >> /\ done = << >> /\ shared = << >>
TReset == Is("init") /\ alone' = << >> /\ running' = [t \in 1..Ev.n |-> 0] /\ done' = [t \in 1..Ev.n |-> 0] /\ shared' = << >>
\* what is shared, and another look at it when every call is through
TShare == Is("share") /\ shared = << >> /\ shared' = Ev.d /\ UNCHANGED << alone, running, done >>
TShared == Is("shared") /\ Look(Ev.d) /\ \A t \in DOMAIN running : running[t] = 0 /\ ~Known(t, done[t] + 1)
TNext == \/ TReset \/ TShare \/ TShared
         \/ Is("solo") /\ Alone(Ev.t, Ev.k, Ev.r)
         \/ Is("begin") /\ Begin(Ev.t, Ev.k)
         \/ Is("step") /\ Step(Ev.t)
         \/ Is("end") /\ End(Ev.t, Ev.k, Ev.r)
TSpec == TInit /\ [][TNext]_<< alone, running, done, shared, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
