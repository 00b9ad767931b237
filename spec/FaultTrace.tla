---------------------------- MODULE FaultTrace ----------------------------
EXTENDS Faults, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Ev == Tr[i]
Is(name) == i <= Len(Tr) /\ Ev.e = name /\ i' = i + 1
TInit == i = 1 /\ usual = << >> /\ there = FALSE
TTry == /\ Is("try") /\ Ev.sound /\ Ev.kept
        /\ (IF Ev.gone THEN GiveUp(Ev.k, Ev.hit) ELSE Give(Ev.k, Ev.r))
TNext == \/ Is("init") /\ ~there /\ usual' = << >> /\ there' = FALSE
         \/ Is("alone") /\ Alone(Ev.r, Ev.left)
         \/ Is("make") /\ Make
         \/ TTry
         \/ Is("drop") /\ Drop(Ev.left)
TSpec == TInit /\ [][TNext]_<< usual, there, i >>
Accepted == TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
