------------------------------- MODULE Heap -------------------------------
(* The object graph of a program and the questions the analyser answers    *)
(* about it.                                                               *)
(*                                                                         *)
(* st.adj[i]  the references held by object i, in a sequence (a reference  *)
(*            held twice occurs twice)                                     *)
(* st.hid     the objects that are hidden from the view                    *)
(* st.opq     the objects whose references are not followed                *)
(* st.root    the root of the view                                         *)
(* st.lo, hi  the edges from objects the root leads to that were there at   *)
(*            every moment, at some moment, since the view last forgot what *)
(*            it had gathered about referrers                               *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
Max2(a, b) == IF a > b THEN a ELSE b
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
FirstOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})

Nodes(st) == DOMAIN st.adj
\* The references that the view follows.
Out(st, x) == IF x \in st.opq THEN {} ELSE SetOf(st.adj[x])
NumEdges(st, x, y) == IF x \in st.opq THEN 0 ELSE Count(st.adj[x], y)
Pred(st, y) == {x \in Nodes(st) : y \in Out(st, x)}
Image(st, X) == UNION {Out(st, x) : x \in X}

\* Everything connected to the start set, expanding only what may be expanded.
RECURSIVE Closure(_, _, _, _, _)
Closure(st, seen, front, avoid, x) ==
  \* x: whether avoided objects belong to the result (but are not expanded)
  LET new == {n \in Image(st, front) : n \notin seen /\ (x \/ n \notin avoid)}
  IN IF new = {} THEN seen
     ELSE Closure(st, seen \cup new, (new \ st.hid) \ avoid, avoid, x)

Reach(st, S, A) == Closure(st, S \ A, S \ A, A, FALSE) \ st.hid
ReachX(st, S, A) == Closure(st, S, S \ A, A, TRUE) \ st.hid
HeapOf(st) == Reach(st, {st.root}, {})
Referents(st, X) == Image(st, X) \ st.hid

\* What the traversal behind the referrer graph walks over: the root, and
\* everything it leads to, hidden objects included (those that are not
\* opaque lead to nothing that is visible).
RECURSIVE AllFrom(_, _, _)
AllFrom(st, seen, front) ==
  LET new == Image(st, front) \ seen
  IN IF new = {} THEN seen ELSE AllFrom(st, seen \cup new, new)
Walked(st) == IF st.root \in Nodes(st) THEN AllFrom(st, {st.root}, {st.root}) ELSE {}
\* References back to the root itself are on no path from the root and are
\* not gathered.
Referrers(st, X) == {y \in Walked(st) : Out(st, y) \cap (X \ {st.root}) # {}}
WalkedEdges(st) == UNION {{y} \X (Out(st, y) \ {st.root}) : y \in Walked(st)}
Fresh(st) == LET E == WalkedEdges(st) IN [st EXCEPT !.lo = E, !.hi = E]
Changed(st) == LET E == WalkedEdges(st) IN [st EXCEPT !.lo = @ \cap E, !.hi = @ \cup E]
ReferrersIn(E, X) == {p[1] : p \in {p \in E : p[2] \in X}}

\* Dominated set of D_i among the sets D_1..D_n considered together.
DominosOf(st, Di, D) ==
  LET W == Reach(st, {st.root}, D)
  IN Reach(st, Di, W) \ Reach(st, D, W \cup Di)
\* The definition it must equal: what the root no longer reaches.
Dominated(st, X) == Reach(st, X, {}) \ Reach(st, {st.root}, X)
ImDom(st, X) ==
  LET P == Referrers(st, X)
  IN P \cap ReachX(st, {st.root}, P)

\* One step of the breadth-first search for shortest paths.
StepEdges(st, U, S, Av) ==
  {<<v, u>> \in Nodes(st) \X U : v \in Out(st, u) /\ v \notin S /\ <<u, v>> \notin Av}

----------------------------------------------------------------------------
SortedSeq(S) == S    \* sets are reported as sequences without repetition
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))

OkSet(X) == [k |-> "set", v |-> X]
OkInt(n) == [k |-> "int", v |-> n]
Nothing == [k |-> "none", v |-> 0]

Answer0(st, e) ==
  LET a == e.a IN
  CASE e.o = "new" ->       \* an object comes into existence, with references
         [st |-> [st EXCEPT !.adj = [i \in (DOMAIN @) \cup {a[1]} |->
                                       IF i = a[1] THEN a[2] ELSE @[i]]],
          r |-> Nothing]
    [] e.o = "root" -> [st |-> [st EXCEPT !.root = a[1]], r |-> Nothing]
    [] e.o = "link" -> [st |-> [st EXCEPT !.adj[a[1]] = Append(@, a[2])], r |-> Nothing]
    [] e.o = "unlink" ->
         [st |-> [st EXCEPT !.adj[a[1]] = Drop(@, FirstOf(@, a[2]))], r |-> Nothing]
    [] e.o = "hide" ->      \* object, hidden?, opaque?
         [st |-> [st EXCEPT !.hid = IF a[2] = 1 THEN @ \cup {a[1]} ELSE @ \ {a[1]},
                            !.opq = IF a[3] = 1 THEN @ \cup {a[1]} ELSE @ \ {a[1]}],
          r |-> Nothing]
    [] e.o = "gc" -> [st |-> st, r |-> Nothing]
    [] e.o = "reach" -> [st |-> st, r |-> OkSet(Reach(st, SetOf(a[1]), SetOf(a[2])))]
    [] e.o = "reachx" -> [st |-> st, r |-> OkSet(ReachX(st, SetOf(a[1]), SetOf(a[2])))]
    [] e.o = "heap" -> [st |-> st, r |-> OkSet(HeapOf(st))]
    [] e.o = "relimg" -> [st |-> st, r |-> OkSet(Referents(st, SetOf(a[1])))]
    [] e.o = "numedges" -> [st |-> st, r |-> OkInt(NumEdges(st, a[1], a[2]))]
    [] e.o = "step" ->      \* sources, visited, avoided edges, one per node?
         LET E == StepEdges(st, SetOf(a[1]), SetOf(a[2]), Pairs(a[3]))
         IN [st |-> st, r |-> [k |-> IF a[4] = 1 THEN "step1" ELSE "step", v |-> E]]
    [] e.o = "referrers" -> [st |-> st, r |-> OkSet(Referrers(st, SetOf(a[1])))]
    [] e.o = "dominos" ->   \* of each of several sets considered together
         LET D == UNION {SetOf(a[1][i]) : i \in 1..Len(a[1])}
         IN [st |-> st, r |-> [k |-> "sets",
              v |-> [i \in 1..Len(a[1]) |-> DominosOf(st, SetOf(a[1][i]), D)]]]
    [] e.o = "dominated" -> [st |-> st, r |-> OkSet(Dominated(st, SetOf(a[1])))]
    [] e.o = "imdom" -> [st |-> st, r |-> OkSet(ImDom(st, SetOf(a[1])))]
    [] e.o = "size" ->      \* a sum of individual sizes
         [st |-> st, r |-> OkInt(SumSeq(a[1]))]

Changing == {"new", "root", "link", "unlink", "hide"}
Forgetting == {"gc", "root"}
\* With the knowledge about referrers that the view keeps between questions.
Answer(st, e) ==
  LET x == Answer0(st, e)
  IN CASE e.o \in Forgetting -> [x EXCEPT !.st = Fresh(@)]
       [] e.o \in Changing -> [x EXCEPT !.st = Changed(@)]
       [] e.o = "referrers" ->
            [x EXCEPT !.r = [k |-> "between", v |-> [lo |-> ReferrersIn(st.lo, SetOf(e.a[1])),
                                                     hi |-> ReferrersIn(st.hi, SetOf(e.a[1]))]]]
       [] OTHER -> x

\* e.r: what was observed; e.d: the objects whose reference count differs
\* after the call from before it.
NoRep(q) == Len(q) = Cardinality(SetOf(q))
Agrees(x, e) ==
  LET r == e.r IN
  /\ e.d = <<>>
  /\ CASE x.k = "none" -> TRUE
       [] x.k = "set" -> NoRep(r) /\ SetOf(r) = x.v
       [] x.k = "between" -> NoRep(r) /\ x.v.lo \subseteq SetOf(r) /\ SetOf(r) \subseteq x.v.hi
       [] x.k = "int" -> r = x.v
       [] x.k = "sets" -> Len(r) = Len(x.v) /\ \A i \in 1..Len(r) : NoRep(r[i]) /\ SetOf(r[i]) = x.v[i]
       [] x.k = "step" -> /\ NoRep(r[1]) /\ NoRep(r[2])
                          /\ Pairs(r[2]) = x.v
                          /\ SetOf(r[1]) = {p[1] : p \in x.v}
       [] x.k = "step1" -> /\ NoRep(r[1]) /\ NoRep(r[2])
                           /\ SetOf(r[1]) = {p[1] : p \in x.v}
                           /\ Pairs(r[2]) \subseteq x.v
                           /\ \A v \in SetOf(r[1]) : Cardinality({p \in Pairs(r[2]) : p[1] = v}) = 1

Start == [adj |-> [i \in {} |-> <<>>], hid |-> {}, opq |-> {}, root |-> 0, lo |-> {}, hi |-> {}]
=============================================================================
