------------------------------- MODULE Hiding -------------------------------
(* What a heap listing shows and what it hides.  Nodes are the objects of   *)
(* the program, classes included; node 1 is the root of the view.           *)
(*                                                                          *)
(* st.refs[n]  the references node n holds, in a sequence                   *)
(* st.cls[n]   the class of n, or 0 when that is of no concern              *)
(* st.base[n]  the base class of the class n, or 0                          *)
(* st.reg[n]   what the class n is registered as: "" nothing, "HI" (its     *)
(*             exact instances are hidden), "HE" (instances of it and its   *)
(*             subclasses are hidden when they hold the tag of the view)    *)
(* st.tag[n]   the tag in the tag slot of n, 0: none                        *)
(* st.dtag[n]  the tag in the attribute dictionary of n, 0: none            *)
(* st.vt       the tag of the view                                          *)
(* st.blind    the view does not look into the interpreter it runs in       *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
FirstOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
Nodes(st) == DOMAIN st.refs

RECURSIVE Kinship(_, _)
Kinship(st, c) == IF c = 0 THEN {} ELSE {c} \cup Kinship(st, st.base[c])   \* a class and its bases
TagChecked(st, c) == \E b \in Kinship(st, c) : st.reg[b] = "HE"
Hidden(st, n) ==
  LET c == st.cls[n] IN
  \/ n = 1
  \/ c # 0 /\ st.reg[c] = "HI"
  \/ IF TagChecked(st, c) /\ st.reg[c] # "HI" THEN st.tag[n] = st.vt ELSE st.dtag[n] = st.vt

\* An attribute dictionary that holds the tag is not looked into, though the
\* object may be visible because of its tag slot.
Followed(st, n) == IF st.dtag[n] = st.vt THEN {st.cls[n]} ELSE SetOf(st.refs[n])

RECURSIVE Spread(_, _, _)
Spread(st, seen, front) ==
  LET new == {m \in UNION {Followed(st, n) : n \in front} : m \notin seen /\ ~Hidden(st, m)}
  IN IF new = {} THEN seen ELSE Spread(st, seen \cup new, new)
Listing(st) == IF st.blind THEN {} ELSE Spread(st, {}, {1})

\* A class may be registered once, in one way, and not when a base already
\* has its subclasses checked.
MayRegister(st, c) == st.reg[c] # "HI" /\ ~TagChecked(st, c)

Start == [refs |-> <<<<>>>>, cls |-> <<0>>, base |-> <<0>>, reg |-> <<"">>, tag |-> <<0>>, dtag |-> <<0>>,
          vt |-> 1, blind |-> FALSE]
Ext(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
NewNode(st, n, c, b, r) ==
  [st EXCEPT !.refs = Ext(@, n, r), !.cls = Ext(@, n, c), !.base = Ext(@, n, b), !.reg = Ext(@, n, ""),
             !.tag = Ext(@, n, 0), !.dtag = Ext(@, n, 0)]

Ans(st, r) == [st |-> st, r |-> r]
Quiet == [k |-> "none", v |-> 0]
Answer(st, e) ==
  LET a == e.a IN
  CASE e.o = "new"   -> Ans(NewNode(st, a[1], a[2], 0, a[3]), Quiet)    \* node, class, references
    [] e.o = "class" -> Ans(NewNode(st, a[1], 0, a[2], a[3]), Quiet)    \* node, base, references
    [] e.o = "link"  -> Ans([st EXCEPT !.refs[a[1]] = Append(@, a[2])], Quiet)
    [] e.o = "unlink" -> Ans([st EXCEPT !.refs[a[1]] = Drop(@, FirstOf(@, a[2]))], Quiet)
    [] e.o = "tag"   -> Ans([st EXCEPT !.tag[a[1]] = a[2]], Quiet)
    [] e.o = "dtag"  -> Ans([st EXCEPT !.dtag[a[1]] = a[2]], Quiet)
    [] e.o = "viewtag" -> Ans([st EXCEPT !.vt = a[1]], Quiet)
    [] e.o = "blind" -> Ans([st EXCEPT !.blind = a[1] = 1], Quiet)
    [] e.o = "register" ->                  \* class, "HI" or "HE"
         IF MayRegister(st, a[1]) THEN Ans([st EXCEPT !.reg[a[1]] = a[2]], [k |-> "is", v |-> "ok"])
         ELSE Ans(st, [k |-> "is", v |-> "ValueError"])
    [] e.o = "heap"  -> Ans(st, [k |-> "set", v |-> Listing(st)])
    \* what else differs between two listings around an analysis whose
    \* result is kept: types of objects that are in only one of them
    [] e.o = "same"  -> Ans(st, [k |-> "set", v |-> {}])

Agrees(x, e) ==
  CASE x.k = "none" -> TRUE
    [] x.k = "is" -> e.r = x.v
    [] x.k = "set" -> SetOf(e.r) = x.v /\ Len(e.r) = Cardinality(x.v)
=============================================================================
