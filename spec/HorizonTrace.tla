----------------------------- MODULE HorizonTrace -----------------------------
EXTENDS Horizon, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start
Next == /\ l > 0 /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               x == Answer(st, e)
           IN IF Agrees(st, e)
              THEN st' = x.st /\ l' = l + 1
              ELSE PrintT(<<"BAD", tid, l, e.o, e, x.r, st>>) /\ l' = 0 /\ st' = st
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
