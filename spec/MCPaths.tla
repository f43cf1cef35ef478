------------------------------ MODULE MCPaths ------------------------------
(* Every graph over a few objects and every choice of destinations, avoided *)
(* nodes and avoided edges: the listing has exactly the shortest paths.      *)
EXTENDS Paths, TLC
CONSTANTS N, MaxAv
V == 1..N
VARIABLE q
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
G(g) == [adj |-> [i \in V |-> SeqOf(g[i])], hid |-> {}, opq |-> {}, root |-> 1, lo |-> {}, hi |-> {}]
Init == \E g \in [V -> SUBSET V], D \in SUBSET V, S \in {{1}, {1, 2}}, K \in SUBSET (V \ {1}) :
        \E A \in {X \in SUBSET UNION {{u} \X g[u] : u \in V} : Cardinality(X) <= MaxAv} :
          q = [st |-> G(g), D |-> D, S |-> S, N |-> K, A |-> A]
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
\* All simple paths that the definition allows, by enumeration.
RECURSIVE Walks(_, _)
Walks(W, n) ==
  IF n = 0 THEN W
  ELSE LET X == {w \in W : Len(w) = Cardinality(SetOf(w))}
           more == UNION {{Append(w, y) : y \in {y \in Out(q.st, w[Len(w)]) :
                       <<w[Len(w)], y>> \notin q.A /\ y \notin q.N /\ y \notin SetOf(w)}} : w \in X}
       IN W \cup Walks(W \cup more, n - 1)
AllPaths == {w \in Walks({<<s>> : s \in q.S \ q.N}, N) :
               Len(w) > 1 /\ w[Len(w)] \in q.D /\ w[Len(w)] \notin q.S}
F == Found(q.st, q.D, q.S, q.N, q.A)
Shortest ==
  LET P == AllPaths
      m == IF P = {} THEN 0 ELSE CHOOSE k \in {Len(w) : w \in P} : \A w \in P : k <= Len(w)
  IN NodePaths(F) = {w \in P : Len(w) = m}
Counted ==
  LET rel == SeqOf({<<u, v, 1>> : u, v \in V})
  IN NumPaths(F, rel) = Cardinality(NodePaths(F))
\* Avoiding the edges of one level makes the paths longer, or none remain.
AvoidLonger == \A i \in 1..Len(F.E) :
   LET H == Found(q.st, F.B[Len(F.B)], F.B[1], q.N, q.A \cup F.E[i])
   IN /\ H.B = <<>> \/ Len(H.B) >= Len(F.B)
      /\ NodePaths(H) \cap NodePaths(F) = {}
=============================================================================
