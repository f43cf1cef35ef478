----------------------------- MODULE GlueTrace -----------------------------
(* Recorded accesses.  A trace has the declarations mods, the number of      *)
(* names and of roots, and events                                            *)
(*   get  a: handle, name    r: value      new handle when it is a module    *)
(*   set  a: handle, name, value  r: outcome                                 *)
(* with d the calls of handlers and same: 1 unless the handle gave another   *)
(* object for that name before.  Handles 1..R are the roots.                 *)
EXTENDS Glue, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, st
vars == <<tid, l, st>>
T == Traces[tid]
Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = [g |-> Fresh(T.mods, T.names, T.roots), h |-> [r \in 1..T.roots |-> <<r, 1>>]]
Answer(e) ==
  LET h == st.h[e.a[1]]
      c == [M |-> T.mods, N |-> T.names, r |-> h[1]]
      s == [st.g EXCEPT !.calls = <<>>]
      x == IF e.o = "get" THEN Get(c, s, h[2], e.a[2]) ELSE Set(c, s, h[2], e.a[2], e.a[3])
      isMod == e.o = "get" /\ x.v > Base /\ x.v < Wrapped
  IN [ok |-> /\ e.o \in {"get", "set"} /\ e.r = x.v /\ e.d = x.st.calls /\ e.same = 1,
      st |-> [g |-> x.st, h |-> IF isMod THEN Append(st.h, <<h[1], x.v - Base>>) ELSE st.h],
      x |-> x]
Next == /\ l > 0 /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               x == Answer(e)
           IN IF x.ok
              THEN st' = x.st /\ l' = l + 1
              ELSE PrintT(<<"BAD", tid, l, e.o, e, x.x.v, x.x.st.calls, st.h[e.a[1]]>>) /\ l' = 0 /\ st' = st
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
