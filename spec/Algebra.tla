------------------------------ MODULE Algebra ------------------------------
(* How combinations of kinds are written, and rewritten: a term is an atom, *)
(* the complement of an atom, an intersection or union of terms, or a       *)
(* concrete set of objects.  Each operation gives a simplified term.  What  *)
(* is claimed about terms (containment, equality, disjointness) is derived  *)
(* from how they are written; it must be true of the objects.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Universe,   \* the objects
          Atoms,      \* the atomic kinds
          Means,      \* Means[a]: the objects of atom a
          Below,      \* pairs of atoms of which the first is known to be contained in the second
          Apart       \* pairs of atoms known to be disjoint (either order)

At(a) == [k |-> "at", a |-> a]
No(a) == [k |-> "no", a |-> a]          \* complement of an atom
Con(X) == [k |-> "con", c |-> X]        \* these objects
NotCon(X) == [k |-> "nocon", c |-> X]   \* all but these objects
Nothing == Con({})
Anything == NotCon({})
IsAtom(t) == t.k \in {"at", "con"}
IsFactor(t) == t.k \in {"at", "con", "no", "nocon"}

RECURSIVE Den(_)
Den(t) == CASE t.k = "at" -> Means[t.a]
            [] t.k = "no" -> Universe \ Means[t.a]
            [] t.k = "con" -> t.c
            [] t.k = "nocon" -> Universe \ t.c
            [] t.k = "and" -> {o \in Universe : \A i \in 1..Len(t.x) : o \in Den(t.x[i])}
            [] t.k = "or" -> UNION {Den(t.x[i]) : i \in 1..Len(t.x)}

Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Built(k, s) == IF Len(s) = 0 THEN Nothing ELSE IF Len(s) = 1 THEN s[1] ELSE [k |-> k, x |-> s]
Neg(t) == CASE t.k = "at" -> No(t.a) [] t.k = "no" -> At(t.a) [] t.k = "con" -> NotCon(t.c) [] t.k = "nocon" -> Con(t.c)
Pos(t) == CASE t.k = "no" -> At(t.a) [] t.k = "nocon" -> Con(t.c) [] OTHER -> t

RECURSIVE Le(_, _), And(_, _), Or(_, _), FoldAnd(_, _), FoldOr(_, _)
\* Is a known to be contained in b?
Le(a, b) ==
  CASE a = Nothing -> TRUE
    [] a.k = "or" -> \A i \in 1..Len(a.x) : Le(a.x[i], b)
    [] b.k = "or" -> LET c == And(b, a) IN c.k # "or" /\ Le(a, c)
    [] b.k = "and" -> \A i \in 1..Len(b.x) : Le(a, b.x[i])
    [] b.k \in {"no", "nocon"} ->
         IF a.k \in {"no", "nocon"} THEN Le(Pos(b), Pos(a)) ELSE And(Pos(b), a) = Nothing
    [] a.k = "con" -> a.c \subseteq Den(b)
    [] a.k \in {"no", "nocon"} -> FALSE
    [] a.k = "and" -> LET c == And(a, b)
                      IN c.k = "and" /\ Len(c.x) = Len(a.x) /\
                         \A i \in 1..Len(a.x) : \E j \in 1..Len(c.x) : Le(a.x[i], c.x[j])
    [] b.k = "con" -> FALSE
    [] OTHER -> a = b \/ <<a.a, b.a>> \in Below

\* Are the factors a and b, neither known to contain the other, known to be disjoint?
Disjoint(a, b) ==
  CASE a.k \in {"no", "nocon"} /\ b.k \in {"no", "nocon"} -> FALSE
    [] a.k \in {"no", "nocon"} -> Le(b, Pos(a))
    [] b.k \in {"no", "nocon"} -> Le(a, Pos(b))
    [] a.k = "at" /\ b.k = "at" -> <<a.a, b.a>> \in Apart \/ <<b.a, a.a>> \in Apart
    [] OTHER -> FALSE

Pair(a, b) == IF Le(a, b) THEN a ELSE IF Le(b, a) THEN b ELSE IF Disjoint(a, b) THEN Nothing
              ELSE [k |-> "and", x |-> <<a, b>>]
\* the arguments of an intersection with a factor
Narrow(a, b) ==
  IF \E i \in 1..Len(a.x) : Le(a.x[i], b) THEN a
  ELSE LET rest == SelectSeq(a.x, LAMBDA x : ~Le(b, x))
       IN IF \E i \in 1..Len(rest) : Disjoint(rest[i], b) THEN Nothing
          ELSE Built("and", Append(rest, b))
\* a complement with a factor: less is taken away when only part of it matters
Trim(a, b) ==
  LET x == And(Pos(a), b)
      aa == IF IsAtom(x) THEN Neg(x) ELSE a
  IN Pair(aa, b)
And(a, b) ==
  CASE a = Nothing \/ b = Nothing -> Nothing
    [] a.k = "con" -> Con(a.c \cap Den(b))
    [] b.k = "con" -> Con(b.c \cap Den(a))
    [] a.k = "or" \/ b.k = "or" ->
         LET p == IF a.k = "or" THEN a.x ELSE <<a>>
             q == IF b.k = "or" THEN b.x ELSE <<b>>
         IN IF a.k = "or" THEN FoldOr(Nothing, [i \in 1..(Len(p) * Len(q)) |->
                And(p[((i - 1) \div Len(q)) + 1], q[((i - 1) % Len(q)) + 1])])
            ELSE FoldOr(Nothing, [i \in 1..Len(q) |-> And(q[i], a)])
    [] b.k = "and" -> FoldAnd(a, b.x)
    [] a.k = "and" -> Narrow(a, b)
    [] a.k \in {"no", "nocon"} -> Trim(a, b)
    [] b.k \in {"no", "nocon"} -> Trim(b, a)
    [] OTHER -> Pair(a, b)
FoldAnd(r, s) == IF s = <<>> THEN r ELSE FoldAnd(And(r, s[1]), Tail(s))
FoldOr(r, s) == IF s = <<>> THEN r ELSE FoldOr(Or(r, s[1]), Tail(s))

Either(a, b) == IF Le(b, a) THEN a ELSE IF Le(a, b) THEN b ELSE [k |-> "or", x |-> <<a, b>>]
Or(a, b) ==
  CASE a = Nothing -> b
    [] b = Nothing -> a
    [] a.k = "con" /\ b.k = "con" -> Con(a.c \cup b.c)
    [] a.k = "or" /\ b.k = "or" -> FoldOr(a, b.x)
    [] a.k = "or" -> LET xs == SelectSeq(a.x, LAMBDA x : ~Le(x, b))
                     IN IF \E i \in 1..Len(xs) : Le(b, xs[i]) THEN a
                        ELSE IF Len(xs) < Len(a.x) THEN FoldOr(Nothing, Append(xs, b))
                        ELSE Built("or", Append(xs, b))
    [] b.k = "or" -> Or(b, a)
    [] a.k = "and" /\ b.k = "and" ->
         \* x & y | x & ~y
         LET merges == {<<i, j>> \in (1..Len(a.x)) \X (1..Len(b.x)) :
                          /\ LET u == Or(a.x[i], b.x[j]) IN Le(Anything, u)
                          /\ LET p == Built("and", Cut(a.x, i))
                                 q == Built("and", Cut(b.x, j))
                             IN Le(p, q) /\ Le(q, p)}
         IN IF merges # {} THEN LET m == CHOOSE m \in merges : TRUE IN Built("and", Cut(a.x, m[1]))
            ELSE Either(a, b)
    [] a.k = "and" ->
         IF Le(a, b) THEN b ELSE IF Le(b, a) THEN a
         ELSE LET us == [i \in 1..Len(a.x) |-> Or(a.x[i], b)]
              IN IF \A i \in 1..Len(us) : IsFactor(us[i]) THEN FoldAnd(Anything, us) ELSE Either(a, b)
    [] b.k = "and" -> Or(b, a)
    [] a.k \in {"no", "nocon"} ->
         IF Le(Pos(a), b) THEN Anything
         ELSE IF And(Pos(a), b) = Nothing THEN a ELSE Either(a, b)
    [] b.k \in {"no", "nocon"} -> Or(b, a)
    [] OTHER -> Either(a, b)

RECURSIVE Not(_)
Not(t) == IF IsFactor(t) THEN Neg(t)
          ELSE IF t.k = "and" THEN FoldOr(Nothing, [i \in 1..Len(t.x) |-> Not(t.x[i])])
          ELSE FoldAnd(Not(t.x[1]), [i \in 1..(Len(t.x) - 1) |-> Not(t.x[i + 1])])
Minus(a, b) == And(a, Not(b))
Xor(a, b) == Or(Minus(a, b), Minus(b, a))
Eq(a, b) == Le(a, b) /\ Le(b, a)
\* A term is named for its arguments, without those of an intersection that
\* others imply and without what objects are excepted, since that depends on
\* the order in which they were; the order does not matter.
Least(s) == LET keep(i) == \A j \in 1..Len(s) : j = i \/ ~Le(s[j], s[i]) \/ (Le(s[i], s[j]) /\ i < j)
            IN {s[i] : i \in {i \in 1..Len(s) : keep(i) /\ s[i].k # "nocon"}}
RECURSIVE Name(_)
Name(t) == CASE t.k = "and" -> LET m == Least(t.x)
                               IN IF m = {} THEN <<"nocon">>
                                  ELSE IF Cardinality(m) = 1 THEN Name(CHOOSE x \in m : TRUE)
                                  ELSE <<"and", {Name(x) : x \in m}>>
             [] t.k = "or" -> <<"or">>
             [] t.k = "nocon" -> <<"nocon">>
             [] t.k = "con" -> <<"con", t.c>>
             [] OTHER -> <<t.k, t.a>>
=============================================================================
