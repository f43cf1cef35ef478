----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Paths, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st, sp
vars == <<tid, l, st, sp>>
Nil == [B |-> <<>>, E |-> <<>>, A |-> {}, N |-> {}, L |-> <<>>]
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start
        /\ sp = Nil
IsPath(e) == e.o \in {"shpaths", "avoided", "item", "iter"}
Next == /\ l > 0 /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l]
           IN IF IsPath(e)
              THEN LET x == PathAnswer(st, sp, e)
                   IN /\ st' = st
                      /\ IF x.ok /\ e.d = <<>> THEN sp' = x.sp /\ l' = l + 1
                         ELSE PrintT(<<"BAD", tid, l, e.o, e, x.x, st>>) /\ l' = 0 /\ sp' = sp
              ELSE LET x == Answer0(st, e)
                   IN /\ sp' = sp
                      /\ IF Agrees(x.r, e) THEN st' = x.st /\ l' = l + 1
                         ELSE PrintT(<<"BAD", tid, l, e.o, e, x.r, st>>) /\ l' = 0 /\ st' = st
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
