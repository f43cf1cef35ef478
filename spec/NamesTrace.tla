----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start
Next == /\ l > 0 /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
           IN IF IsChange(e) THEN st' = Change(st, e) /\ l' = l + 1
              ELSE IF Agrees(st, e) THEN st' = After(st, e) /\ l' = l + 1
              ELSE PrintT(<<"BAD", tid, l, e.o, e, Want(st, e)>>) /\ l' = 0 /\ st' = st
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
