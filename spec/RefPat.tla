------------------------------ MODULE RefPat ------------------------------
(* Reference patterns over the object graph of Heap: the tree of referrers  *)
(* of a set, class by class.                                                *)
(*                                                                          *)
(* A line is [ix, mark, seen, set]: its place in the tree (the position of  *)
(* each of its ancestors among its siblings), how it ends, the number of    *)
(* the line that showed the same set before (or -1), and the objects.       *)
EXTENDS Heap
PStart == [h |-> Start, pats |-> <<>>]
Rel(h, how, X) == CASE how = "referrers" -> Referrers(h, X)
                    [] how = "imdom" -> ImDom(h, X)
                    [] how = "referents" -> Referents(h, X)
RECURSIVE SumOf(_, _)
SumOf(size, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN size[x] + SumOf(size, X \ {x})
Front(q) == SubSeq(q, 1, Len(q) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* p: [set, depth, how, nocyc, stop, cls, size]; stop, cls and size per object
Above(L, i, nocyc) == IF nocyc THEN UNION {L[j].set : j \in {j \in 1..i : IsPrefix(L[j].ix, L[i].ix)}} ELSE {}
Kids(h, p, L, i) == Rel(h, p.how, L[i].set) \ Above(L, i, p.nocyc)
Stops(p, X) == \A x \in X : p.stop[x] = 1
Earlier(L, i) == {j \in 1..(i - 1) : L[j].set = L[i].set}
SeenAt(L, i) == IF Earlier(L, i) = {} THEN -1 ELSE (CHOOSE j \in Earlier(L, i) : \A k \in Earlier(L, i) : j <= k) - 1
Expands(p, L, i) == SeenAt(L, i) = -1 /\ Len(L[i].ix) < p.depth /\ (L[i].ix = <<>> \/ ~Stops(p, L[i].set))
\* The classes of a set, in the order of the lines that show them.
ClassesOf(p, X) == {{y \in X : p.cls[y] = p.cls[x]} : x \in X}
MarkOf(p, L, i, kids) ==
  CASE SeenAt(L, i) # -1 -> "^"
    [] kids = {} -> "R"
    [] L[i].ix # <<>> /\ Stops(p, L[i].set) -> "S"
    [] Len(L[i].ix) < p.depth -> "-"
    [] OTHER -> "+"
ChildrenAt(L, i) == {j \in 1..Len(L) : Len(L[j].ix) = Len(L[i].ix) + 1 /\ Front(L[j].ix) = L[i].ix}
\* Preorder: every line is the first child of the one before it, or comes
\* next after some line on the way to that.
Follows(a, b) == \/ b = a \o <<0>>
                 \/ \E n \in 1..Len(a) : b = SubSeq(a, 1, n - 1) \o <<a[n] + 1>>
Right(h, p, L) ==
  /\ L # <<>> /\ L[1].ix = <<>> /\ L[1].set = p.set
  /\ \A i \in 1..(Len(L) - 1) : Follows(L[i].ix, L[i + 1].ix)
  /\ \A i \in 1..Len(L) :
       LET kids == Kids(h, p, L, i)
           C == ChildrenAt(L, i)
           sub(k) == L[CHOOSE j \in C : L[j].ix[Len(L[j].ix)] = k]
       IN /\ L[i].seen = SeenAt(L, i)
          /\ L[i].mark = MarkOf(p, L, i, kids)
          /\ IF ~Expands(p, L, i) THEN C = {}
             ELSE LET K == ClassesOf(p, kids)
                  IN /\ Cardinality(C) = Cardinality(K)
                     /\ {L[j].ix[Len(L[j].ix)] : j \in C} = 0..(Cardinality(K) - 1)
                     /\ {L[j].set : j \in C} = K
                     /\ \A k \in 1..(Cardinality(K) - 1) : SumOf(p.size, sub(k - 1).set) >= SumOf(p.size, sub(k).set)

\* The tree itself, with classes of equal size in one order or the other.
RECURSIVE Sort(_, _, _)
Sort(p, C, up) ==
  IF C = {} THEN <<>>
  ELSE LET best == {X \in C : \A Y \in C : SumOf(p.size, X) >= SumOf(p.size, Y)}
           small(X) == CHOOSE x \in X : \A y \in X : x <= y
           X == CHOOSE X \in best : \A Y \in best : IF up THEN small(X) <= small(Y) ELSE small(X) >= small(Y)
       IN <<X>> \o Sort(p, C \ {X}, up)
RECURSIVE Grow(_, _, _, _, _, _), GrowAll(_, _, _, _, _, _, _)
Grow(h, p, L, ix, X, up) ==
  LET L1 == Append(L, [ix |-> ix, set |-> X, seen |-> -1, mark |-> "-"])
      i == Len(L1)
      kids == Kids(h, p, L1, i)
      L2 == [L1 EXCEPT ![i].seen = SeenAt(L1, i), ![i].mark = MarkOf(p, L1, i, kids)]
  IN IF Expands(p, L2, i) THEN GrowAll(h, p, L2, ix, Sort(p, ClassesOf(p, kids), up), 1, up) ELSE L2
GrowAll(h, p, L, ix, q, k, up) ==
  IF k > Len(q) THEN L ELSE GrowAll(h, p, Grow(h, p, L, ix \o <<k - 1>>, q[k], up), ix, q, k + 1, up)

Lines(r) == [i \in 1..Len(r) |-> [ix |-> r[i][1], mark |-> r[i][2], seen |-> r[i][3], set |-> SetOf(r[i][4])]]
Named(L, ix) == {i \in 1..Len(L) : L[i].ix = ix}
No(st) == [ok |-> FALSE, st |-> st]
Yes(st, b) == [ok |-> b, st |-> st]
PAnswer(st, e) ==
  IF e.o \in Changing \cup Forgetting
  THEN LET x == Answer(st.h, e) IN Yes([st EXCEPT !.h = x.st], Agrees(x.r, e))
  ELSE IF e.o = "pattern"
  THEN LET p == [set |-> SetOf(e.a[1]), depth |-> e.a[2], how |-> e.a[3], nocyc |-> e.a[4] = 1,
                 stop |-> e.a[5], cls |-> e.a[6], size |-> e.a[7]]
           L == Lines(e.r)
       IN Yes([st EXCEPT !.pats = Append(@, L)], (\A i \in 1..Len(L) : NoRep(e.r[i][4]) /\ 0 \notin L[i].set) /\ Right(st.h, p, L))
  ELSE LET L == st.pats[e.a[1]] IN
  CASE e.o = "line" -> LET i == e.a[2]
                           j == IF i < 0 THEN i + Len(L) ELSE i
                       IN Yes(st, IF j >= 0 /\ j < Len(L) THEN SetOf(e.r) = L[j + 1].set ELSE e.r = <<-1>>)
    [] e.o = "name" -> Yes(st, IF Named(L, e.a[2]) = {} THEN e.r = <<-1>>
                               ELSE SetOf(e.r) = L[CHOOSE i \in Named(L, e.a[2]) : TRUE].set)
    [] e.o = "len" -> Yes(st, e.r = Len(L))
    [] e.o = "iter" -> Yes(st, LET n == IF e.a[2] < Len(L) THEN e.a[2] ELSE Len(L)
                               IN Len(e.r) = n /\ \A i \in 1..n : SetOf(e.r[i]) = L[i].set)
    \* rows on a page: number, place, mark, earlier line, number of objects
    [] e.o = "show" -> Yes(st, /\ e.r # <<>>
                               /\ \A k \in 1..Len(e.r) :
                                    LET w == e.r[k]
                                    IN /\ w[1] = e.r[1][1] + k - 1
                                       /\ w[1] >= 0 /\ w[1] < Len(L)
                                       /\ LET x == L[w[1] + 1]
                                          IN w[2] = x.ix /\ w[3] = x.mark /\ w[4] = x.seen /\ w[5] = Cardinality(x.set))
    [] e.o = "reset" -> Yes(st, TRUE)
    [] OTHER -> No(st)
=============================================================================
