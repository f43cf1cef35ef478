-------------------------- MODULE NodeGraphsTrace --------------------------
EXTENDS NodeGraphs, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, regs
vars == <<tid, l, regs>>
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ regs = [i \in 1..Traces[tid].n |-> NONE]
Next == /\ l > 0 /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
               x == Answer(regs, e)
           IN IF Agrees(x.r, e.r)
              THEN regs' = x.st /\ l' = l + 1
              ELSE PrintT(<<"BAD", tid, l, e.o, e, x.r>>) /\ l' = 0 /\ regs' = regs
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
