------------------------------ MODULE MCGlue ------------------------------
(* A package (2) with two modules (3, 4) of N names, under every choice of   *)
(* declarations from a few, and every order of accesses and assignments.     *)
EXTENDS Glue
CONSTANTS N, Rich
VARIABLES M, st, made, phase
vars == <<M, st, made, phase>>
None == [own |-> 0, get |-> <<>>, imp |-> 0, glob |-> 0]
V(m, n, k) == 100 * m + 10 * n + k
Defs(m, n) ==
  {None, [None EXCEPT !.own = V(m, n, 1)], [None EXCEPT !.glob = V(m, n, 2)],
   [None EXCEPT !.get = <<V(m, n, 3), 0, 0, 0>>], [None EXCEPT !.get = <<V(m, n, 3), 1, 0, 0>>, !.glob = V(m, n, 2)]} \cup
  (IF n = 1 /\ N > 1 THEN {[None EXCEPT !.get = <<V(m, n, 3), 2, m, 2>>]} ELSE {}) \cup
  (IF m = 3 THEN {[None EXCEPT !.imp = 4], [None EXCEPT !.imp = 4, !.glob = V(m, n, 2)],
                  [None EXCEPT !.get = <<V(m, n, 3), 2, 4, N>>]} ELSE {}) \cup
  (IF Rich /\ m = 3 THEN {[None EXCEPT !.get = <<V(m, n, 3), 1, 4, n>>], [None EXCEPT !.own = V(m, n, 1), !.imp = 4]} ELSE {})
Blank == [clamp |-> 0, broken |-> 0, defs |-> [n \in 1..N |-> None], setable |-> <<>>, chgable |-> <<>>, hand |-> [n \in 1..N |-> 0],
          preload |-> <<>>, path |-> <<>>, mods |-> <<>>, wrap |-> 0, nowrap |-> <<>>]
Modules(m) == {[Blank EXCEPT !.clamp = 1, !.defs = d, !.setable = s, !.path = p] :
                 d \in {f \in [1..N -> UNION {Defs(m, n) : n \in 1..N}] : \A n \in 1..N : f[n] \in Defs(m, n)},
                 s \in {<<>>, <<N>>}, p \in IF m = 3 /\ Rich THEN {<<>>, <<4>>} ELSE {<<>>}}
L == 4
C == [M |-> M, N |-> N, r |-> 1]
Set0 == {2 * L, 2 * L + 3}
Init == phase = 0 /\ M = <<Blank, Blank, Blank, Blank>> /\ st = Fresh(M, N, 1) /\ made = {}
Choose == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<st, made>>
          /\ \E a \in Modules(3), b \in Modules(4) : M' = <<Blank, [Blank EXCEPT !.clamp = 1], a, b>>
\* the successful calls of handlers, each with the number of those before
Count(s, x) == made \cup {<<s.calls[i], IF s.calls[i] \in {y[1] : y \in made} THEN 2 ELSE 1>> :
                              i \in {i \in DOMAIN s.calls : s.res[1][s.calls[i][2]][s.calls[i][3]] # 0}}
DoGet == \E m \in 3..4, n \in 1..N :
           LET x == Get(C, [st EXCEPT !.calls = <<>>], m, n)
           IN st' = [x.st EXCEPT !.calls = <<>>] /\ made' = Count(x.st, x)
DoSet == \E m \in 3..4, n \in 1..N, v \in Set0 :
           LET x == Set(C, [st EXCEPT !.calls = <<>>], m, n, v)
           IN st' = [x.st EXCEPT !.calls = <<>>] /\ made' = made
Next == Choose \/ (phase = 1 /\ UNCHANGED <<M, phase>> /\ (DoGet \/ DoSet))
Spec == Init /\ [][Next]_vars
(* What a declaration means, by itself *)
RECURSIVE Means(_, _)
Means(m, n) ==
  LET d == M[m].defs[n]
  IN CASE d.own # 0 -> d.own
       [] d.own = 0 /\ d.get # <<>> -> IF d.get[2] = 2 THEN Means(d.get[3], d.get[4])
                                       ELSE IF d.get[3] # 0 /\ Means(d.get[3], d.get[4]) = 0 THEN 0 ELSE d.get[1] + PerRoot
       [] d.own = 0 /\ d.get = <<>> /\ d.imp # 0 -> Means(d.imp, n)
       [] OTHER -> IF M[m].path # <<>> /\ Means(M[m].path[1], n) # 0 THEN Means(M[m].path[1], n) ELSE d.glob
Free == M[3].setable # <<>> \/ M[4].setable # <<>>
Declared == phase = 1 /\ ~Free => \A m \in 3..4, n \in 1..N : st.res[1][m][n] \in {0, Means(m, n)}
Told == phase = 1 => \A m \in 3..4, n \in 1..N : st.res[1][m][n] \in Set0 =>
          \/ n \in SetOf(M[m].setable)
          \/ \E p \in 3..4 : \E k \in SetOf(M[p].setable) : st.res[1][p][k] = st.res[1][m][n]
Once == \A y \in made : y[2] = 1
Stays == [][\A m \in 3..4, n \in 1..N : st.res[1][m][n] # 0 => st'.res[1][m][n] = st.res[1][m][n]]_vars
=============================================================================
