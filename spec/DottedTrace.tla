---------------------------- MODULE DottedTrace ----------------------------
EXTENDS Dotted, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<tid, l>>
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
Next == /\ l > 0 /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
           IN IF Answer(e)
              THEN l' = l + 1
              ELSE PrintT(<<"BAD", tid, l, e.o, e>>) /\ l' = 0
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
