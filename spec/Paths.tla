------------------------------- MODULE Paths -------------------------------
(* Listings of shortest paths.  A listing is asked for with destination,    *)
(* source and avoided nodes and avoided edges; what it shows is determined   *)
(* by the graph alone.  st.sp is the listing being looked at:                *)
(*   B    its layers: B[i] the nodes at distance i - 1 that lie on a path     *)
(*   E    E[i] the edges between layers i and i + 1                          *)
(*   A    the edges it avoids, N the nodes                                   *)
(*   L    the paths in the order they were listed, each <<nodes, names>>     *)
EXTENDS Heap

\* The layers of the breadth-first search, up to the one that meets D.
RECURSIVE Layers(_, _, _, _, _)
Layers(st, U, seen, A, D) ==
  IF U = {} THEN <<>>
  ELSE LET V == {v \in Image(st, U) : v \notin seen /\ \E u \in U : v \in Out(st, u) /\ <<u, v>> \notin A}
       IN IF V \cap D # {} THEN <<U, V>>
          ELSE <<U>> \o Layers(st, V, seen \cup V, A, D)
EdgesIn(st, X, Y, A) == {p \in X \X Y : p[2] \in Out(st, p[1]) /\ p \notin A}
\* Only what leads to D is kept.
RECURSIVE Prune(_, _, _, _)
Prune(st, Ls, B, A) ==      \* Ls: the layers before the one that B is in
  IF Ls = <<>> THEN <<B>>
  ELSE LET X == {u \in Ls[Len(Ls)] : \E v \in B : v \in Out(st, u) /\ <<u, v>> \notin A}
       IN Prune(st, SubSeq(Ls, 1, Len(Ls) - 1), X, A) \o <<B>>
Found(st, D, S, N, A) ==
  LET Ls == Layers(st, S \ N, N \cup (S \ N), A, D)
      k == Len(Ls)
      hit == k > 1 /\ Ls[k] \cap D # {}
      B == IF hit THEN Prune(st, SubSeq(Ls, 1, k - 1), Ls[k] \cap D, A) ELSE <<>>
  IN [B |-> B, E |-> [i \in 1..Max2(Len(B) - 1, 0) |-> EdgesIn(st, B[i], B[i + 1], A)],
      A |-> A, N |-> N, L |-> <<>>]

\* The paths, as sequences of nodes.
RECURSIVE From(_, _)
From(E, q) ==   \* all continuations of the sequence q through the edge layers E
  IF E = <<>> THEN {q}
  ELSE UNION {From(Tail(E), Append(q, p[2])) : p \in {p \in E[1] : p[1] = q[Len(q)]}}
NodePaths(sp) == IF sp.B = <<>> THEN {} ELSE UNION {From(sp.E, <<x>>) : x \in sp.B[1]}

\* rel: how many relations there are for each edge, as <<x, y, count>>
Rels(rel, x, y) == LET c == {rel[i][3] : i \in {i \in 1..Len(rel) : rel[i][1] = x /\ rel[i][2] = y}}
                   IN IF Cardinality(c) = 1 THEN CHOOSE n \in c : TRUE ELSE 0
\* The sum of a function over its domain
RECURSIVE SumIn(_, _)
SumIn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumIn(f, S \ {x})
Sum(f) == SumIn(f, DOMAIN f)
\* The number of paths from each node of layer i: a function.
RECURSIVE Ways(_, _, _)
Ways(sp, rel, i) ==
  IF i = Len(sp.B) THEN [x \in sp.B[i] |-> 1]
  ELSE LET W == Ways(sp, rel, i + 1)
       IN [x \in sp.B[i] |->
             Sum([p \in {p \in sp.E[i] : p[1] = x} |-> Rels(rel, p[1], p[2]) * W[p[2]]])]
NumPaths(sp, rel) ==
  IF sp.B = <<>> THEN 0
  ELSE LET W == Ways(sp, rel, 1) IN Sum(W)
RECURSIVE Prod(_, _)
Prod(rel, q) == IF Len(q) < 2 THEN 1 ELSE Rels(rel, q[1], q[2]) * Prod(rel, Tail(q))

----------------------------------------------------------------------------
\* What a listing shows: r = [sets, edges, number of paths, paths or <<>> if
\* they are too many to list]
SpOk(sp, e) ==
  LET r == e.r IN
  /\ Len(r.sets) = Len(sp.B)
  /\ \A i \in 1..Len(sp.B) : NoRep(r.sets[i]) /\ SetOf(r.sets[i]) = sp.B[i]
  /\ Len(r.edges) = Len(sp.E)
  /\ \A i \in 1..Len(sp.E) : NoRep(r.edges[i]) /\ Pairs(r.edges[i]) = sp.E[i]
  \* every reference of a path has a name
  /\ \A i \in 1..Len(sp.E) : \A p \in sp.E[i] : Rels(e.rel, p[1], p[2]) >= 1
  /\ r.num = NumPaths(sp, e.rel)
  /\ r.listed => /\ Len(r.paths) = r.num
                 /\ NoRep(r.paths)
                 /\ {r.paths[i][1] : i \in 1..Len(r.paths)} = NodePaths(sp)
                 /\ \A q \in NodePaths(sp) :
                      Cardinality({i \in 1..Len(r.paths) : r.paths[i][1] = q}) = Prod(e.rel, q)

Norm(i, n) == IF i < 0 THEN i + n ELSE i
Sub(q, a, b) == IF a >= b \/ a > Len(q) THEN <<>> ELSE SubSeq(q, a + 1, IF b > Len(q) THEN Len(q) ELSE b)

PathAnswer(st, sp, e) ==
  LET a == e.a IN
  CASE e.o = "shpaths" ->       \* a: destinations, sources, avoided nodes, avoided edges
         LET f == Found(st, SetOf(a[1]), SetOf(a[2]), SetOf(a[3]), Pairs(a[4]))
         IN [ok |-> SpOk(f, e), x |-> f, sp |-> IF e.r.listed THEN [f EXCEPT !.L = e.r.paths] ELSE f]
    [] e.o = "avoided" ->       \* avoid also the edges at these levels
         LET A == sp.A \cup UNION {sp.E[a[i] + 1] : i \in 1..Len(a)}
             f == Found(st, sp.B[Len(sp.B)], sp.B[1], sp.N, A)
         IN [ok |-> SpOk(f, e), x |-> f, sp |-> IF e.r.listed THEN [f EXCEPT !.L = e.r.paths] ELSE f]
    [] e.o = "item" ->
         LET n == Len(sp.L) i == Norm(a[1], n)
         IN [ok |-> e.r = (IF 0 <= i /\ i < n THEN <<sp.L[i + 1]>> ELSE <<>>), x |-> <<i, n>>, sp |-> sp]
    [] e.o = "iter" ->          \* from, to
         LET n == Len(sp.L) i == Norm(a[1], n)
         IN [ok |-> e.r = (IF 0 <= i /\ i < n THEN Sub(sp.L, i, a[2]) ELSE <<>>), x |-> <<i, n>>, sp |-> sp]
=============================================================================
