----------------------------- MODULE MCHorizon -----------------------------
EXTENDS Horizon
CONSTANTS NObj, NAddr, NHor
VARIABLES st, n
Init == st = Start /\ n = 0
Next == \/ /\ n < NObj /\ n' = n + 1
           /\ \E a \in (1..NAddr) \ Ran(st.at) : st' = Create(st, n + 1, a)
        \/ /\ n' = n
           /\ \/ \E o \in Alive(st) : st' = Die(st, o)
              \/ \E h \in (1..NHor) \ DOMAIN st.hz : \E X \in SUBSET Alive(st) : st' = Take(st, h, X)
              \/ \E h \in DOMAIN st.hz : st' = Drop(st, h)
Spec == Init /\ [][Next]_<<st, n>>
\* Reuse of addresses does not matter.
Exact == \A h \in DOMAIN st.hz : NewsByAddress(st, h, Alive(st)) = News(st, h, Alive(st))
Since == \A h \in DOMAIN st.hz : st.hz[h].old \subseteq Alive(st)
Patched == st.patched <=> DOMAIN st.hz # {}
=============================================================================
