------------------------------ MODULE Classes ------------------------------
(* How objects are classified, what a kind selects, and the algebra of      *)
(* kinds and sets of objects.                                               *)
(*                                                                          *)
(* st.typ[n]   the type of object n (a string)                              *)
(* st.sup[t]   the types that type t is a subtype of, t included            *)
(* st.size[n]  its individual size                                          *)
(* st.own[n]   the objects of which the dictionary n holds the attributes   *)
(* st.refs[n]  the references n holds: name, object, name as attribute     *)
(* st.prod[n]  where n was allocated: <<>> (unknown) or <<file, line>>      *)
(* st.pool     the kinds and sets made so far: each a set of objects        *)
(* st.plain    which of them are sets of objects rather than kinds          *)
(* Object 1 is the root of the view.                                        *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* The objects that are asked about: classes lead to and are led to by much
\* that is not described here, so what refers to them is not known.
Objects(st) == {n \in DOMAIN st.typ : "type" \notin st.sup[st.typ[n]]}
Targets(st, n) == {p[2] : p \in SetOf(st.refs[n])}

RECURSIVE Walk(_, _, _)
Walk(st, seen, front) ==
  LET new == UNION {Targets(st, n) : n \in front} \ seen
  IN IF new = {} THEN seen ELSE Walk(st, seen \cup new, new)
\* The referrers that are gathered: those the root leads to.  References
\* back to the root are not gathered.
Referrers(st, o) == IF o = 1 THEN {} ELSE {n \in st.walked : o \in Targets(st, n)}
\* An item of the dictionary of attributes of an object is also named as an
\* attribute, when the object refers to it itself.
NamesOf(st, o) == UNION {
  LET owned == {d \in DOMAIN st.own : st.own[d] = n}
  IN {p[1] : p \in {q \in SetOf(st.refs[n]) : q[2] = o}} \cup
     UNION {{p[3] : p \in {q \in SetOf(st.refs[d]) : q[2] = o}} : d \in owned} : n \in Referrers(st, o)}

----------------------------------------------------------------------------
(* Classifiers, and the value each gives to an object:                      *)
(*   U unity, T type, S individual size, I identity, M module, K type or    *)
(*   dictionary owner, D the kind of the owner of a dictionary, A several   *)
(*   at once, R the kinds of the referrers, V the names of the references   *)
(*   to it, F the first of some kinds that contains it, P where allocated.  *)
RECURSIVE Value(_, _, _)
Value(st, C, o) ==
  CASE C.c = "U" -> 0
    [] C.c = "T" -> st.typ[o]
    [] C.c = "S" -> st.size[o]
    [] C.c = "I" -> o
    [] C.c = "M" -> IF st.typ[o] = "module" THEN o ELSE 0
    [] C.c = "K" -> IF st.typ[o] # "dict" THEN <<"is", st.typ[o]>>
                    ELSE IF st.own[o] = 0 THEN <<"free">> ELSE <<"of", st.typ[st.own[o]]>>
    [] C.c = "D" -> IF st.typ[o] # "dict" THEN <<>>
                    ELSE IF st.own[o] = 0 THEN <<0>> ELSE <<1, Value(st, C.of, st.own[o])>>
    [] C.c = "A" -> [i \in 1..Len(C.cs) |-> Value(st, C.cs[i], o)]
    [] C.c = "R" -> {Value(st, C.of, r) : r \in Referrers(st, o)}
    [] C.c = "V" -> NamesOf(st, o)
    [] C.c = "F" -> LET fits == {i \in 1..Len(C.ks) : o \in st.pool[C.ks[i]]}
                    IN IF fits = {} THEN Len(C.ks) ELSE (CHOOSE i \in fits : \A j \in fits : i <= j) - 1
    [] C.c = "P" -> st.prod[o]

\* A value as it is written in a request.
RECURSIVE Written(_, _)
Written(C, v) ==
  CASE C.c = "D" -> IF Len(v) = 2 THEN <<1, Written(C.of, v[2])>> ELSE v
    [] C.c = "A" -> [i \in 1..Len(C.cs) |-> Written(C.cs[i], v[i])]
    [] C.c = "R" -> {Written(C.of, x) : x \in SetOf(v)}
    [] C.c = "V" -> SetOf(v)
    [] OTHER -> v

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* The order of the values of a classifier, where there is one.
AtMost(st, C, a, b) ==
  CASE C.c = "T" -> b \in st.sup[a]
    [] C.c = "S" -> a <= b
    [] C.c = "F" -> a <= b
    [] C.c \in {"R", "V"} -> a \subseteq b
    [] C.c = "P" -> \* "" and 0: any file, any line
         IF a = <<>> \/ b = <<>> THEN a = b
         ELSE /\ (a[1] = "" \/ b[1] = "" \/ a[1] = b[1] \/ StartsWith(a[1], b[1]))
              /\ (a[2] = 0 \/ b[2] = 0 \/ a[2] <= b[2])
Below(st, C, a, b) ==
  CASE C.c = "P" -> AtMost(st, C, a, b) /\ a # <<>> /\ (a[2] = 0 \/ b[2] = 0 \/ a[2] < b[2])
    [] OTHER -> a # b /\ AtMost(st, C, a, b)
Fits(st, C, a, b, cmp) ==
  CASE cmp = "==" -> a = b
    [] cmp = "!=" -> a # b
    [] cmp = "<=" -> AtMost(st, C, a, b)
    [] cmp = ">=" -> AtMost(st, C, b, a)
    [] cmp = "<"  -> Below(st, C, a, b)
    [] cmp = ">"  -> Below(st, C, b, a)
Selected(st, C, v, cmp) == {o \in Objects(st) : Fits(st, C, Value(st, C, o), v, cmp)}

Blocks(st, C, X) == {{x \in X : Value(st, C, x) = Value(st, C, y)} : y \in X}
RECURSIVE Sum(_, _)
Sum(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + Sum(f, X \ {x})

----------------------------------------------------------------------------
Start == [typ |-> <<"list">>, sup |-> [list |-> {"list"}], size |-> <<0>>, own |-> <<0>>, refs |-> <<<<>>>>,
          prod |-> <<<<>>>>, pool |-> <<>>, plain |-> <<>>, walked |-> {1}]
Ext(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Keep(st, X, plain) == [st EXCEPT !.pool = Append(@, X), !.plain = Append(@, plain)]

Ans(st, r) == [st |-> st, r |-> r]
Quiet == [k |-> "none", v |-> 0]
Is(v) == [k |-> "is", v |-> v]
Answer(st, e) ==
  LET a == e.a IN
  CASE e.o = "type"  -> Ans([st EXCEPT !.sup = Ext(@, a[1], SetOf(a[2]))], Quiet)
    [] e.o = "new"   -> Ans([st EXCEPT !.typ = Ext(@, a[1], a[2]), !.own = Ext(@, a[1], a[3]), !.size = Ext(@, a[1], 0),
                                       !.refs = Ext(@, a[1], <<>>), !.prod = Ext(@, a[1], <<>>)], Quiet)
    [] e.o = "ref"   -> Ans([st EXCEPT !.refs[a[1]] = Append(@, <<a[2], a[3], a[4]>>)], Quiet)
    [] e.o = "unref" -> Ans([st EXCEPT !.refs[a[1]] = SelectSeq(@, LAMBDA p : ~(p[1] = a[2] /\ p[2] = a[3]))], Quiet)
    [] e.o = "owner" -> Ans([st EXCEPT !.own[a[1]] = a[2]], Quiet)
    [] e.o = "prod"  -> Ans([st EXCEPT !.prod[a[1]] = a[2]], Quiet)
    \* sizes are read, and a full collection made, before questions are asked
    [] e.o = "look"  -> Ans([st EXCEPT !.size = [n \in DOMAIN st.typ |-> a[1][n]], !.pool = <<>>, !.plain = <<>>,
                                       !.walked = Walk(st, {1}, {1})], Quiet)
    \* classes of a set under a classifier: for each its objects, count and
    \* size; then the count and size of all
    [] e.o = "part"  -> LET X == SetOf(a[2])
                        IN Ans(st, [k |-> "part", v |-> <<{<<B, Cardinality(B), Sum(st.size, B)>> : B \in Blocks(st, a[1], X)},
                                                          Cardinality(X), Sum(st.size, X)>>])
    \* kinds and sets enter the pool
    [] e.o = "set"   -> Ans(Keep(st, SetOf(a[1]), TRUE), Quiet)
    [] e.o = "kind"  -> Ans(Keep(st, Selected(st, a[1], Written(a[1], a[2]), a[3]), FALSE), Quiet)
    \* made within n lines of a file
    [] e.o = "scope" -> Ans(Keep(st, {o \in Objects(st) : /\ st.prod[o] # <<>> /\ st.prod[o][1] = a[1]
                                                          /\ st.prod[o][2] \in a[2]..(a[2] + a[3] - 1)}, FALSE), Quiet)
    [] e.o = "where" -> Ans(st, Is(st.prod[a[1]]))
    [] e.o = "kindof" -> Ans(Keep(st, Selected(st, a[1], Value(st, a[1], a[2]), "=="), FALSE), Quiet)
    [] e.o = "anything" -> Ans(Keep(st, Objects(st), FALSE), Quiet)
    [] e.o = "kindsof" -> \* the objects whose class is that of a member
         Ans(Keep(st, {o \in Objects(st) : \E x \in SetOf(a[2]) : Value(st, a[1], o) = Value(st, a[1], x)}, FALSE), Quiet)
    [] e.o = "dictsof" -> \* dictionaries whose owner is a member
         Ans(Keep(st, {o \in Objects(st) : st.typ[o] = "dict" /\ st.own[o] # 0 /\ st.own[o] \in st.pool[a[1]]}, FALSE), Quiet)
    [] e.o = "op"    ->
         LET x == st.pool[a[2]]
             y == IF a[1] = "not" THEN {} ELSE st.pool[a[3]]
             r == CASE a[1] = "and" -> x \cap y [] a[1] = "or" -> x \cup y [] a[1] = "sub" -> x \ y
                    [] a[1] = "xor" -> (x \ y) \cup (y \ x) [] a[1] = "not" -> Objects(st) \ x
         IN Ans(Keep(st, r, a[4] = 1), Quiet)
    \* the text of a kind, evaluated, gives that kind again
    [] e.o = "again" -> Ans(Keep(st, st.pool[a[1]], FALSE), [k |-> IF a[2] = 1 THEN "is" ELSE "any", v |-> 1])
    \* what is asked about them
    [] e.o = "select" -> Ans(st, [k |-> "set", v |-> SetOf(a[1]) \cap st.pool[a[2]]])
    [] e.o = "in"    -> Ans(st, Is(IF a[1] \in st.pool[a[2]] THEN 1 ELSE 0))
    \* a claim of equality or containment must be true; between sets of
    \* objects, and of a set of objects in a kind, it must also be made
    [] e.o = "claim" ->
         LET x == st.pool[a[2]]
             y == st.pool[a[3]]
             s == CASE a[1] = "le" -> x \subseteq y [] a[1] = "eq" -> x = y [] a[1] = "lt" -> x \subseteq y /\ x # y
                    [] a[1] = "disjoint" -> x \cap y = {}
             full == st.plain[a[2]] /\ (st.plain[a[3]] \/ a[1] = "le")
             \* a kind may be strictly more special than another though at
             \* present they have the same objects
             t == IF a[1] = "lt" /\ ~full THEN x \subseteq y ELSE s
         IN Ans(st, [k |-> IF full \/ a[4] = 1 THEN "is" ELSE "if", v |-> IF t THEN 1 ELSE 0])
    [] e.o = "hash"  -> Ans(st, [k |-> "if", v |-> 0])   \* an equal pair with different hashes

Norm(q) == {<<SetOf(q[i][1]), q[i][2], q[i][3]>> : i \in 1..Len(q)}
Agrees(x, e) ==
  CASE x.k = "none" -> e.r = 0
    [] x.k = "is" -> e.r = x.v
    [] x.k = "any" -> e.r \in {0, 1}
    [] x.k = "if" -> e.r = 1 => x.v = 1
    [] x.k = "set" -> SetOf(e.r) = x.v /\ Len(e.r) = Cardinality(x.v)
    [] x.k = "part" -> /\ Norm(e.r[1]) = x.v[1] /\ Len(e.r[1]) = Cardinality(x.v[1])
                       /\ \A i \in 1..Len(e.r[1]) : Len(e.r[1][i][1]) = Cardinality(SetOf(e.r[1][i][1]))
                       /\ e.r[2] = x.v[2] /\ e.r[3] = x.v[3]
=============================================================================
