------------------------------ MODULE Dotted ------------------------------
(* Trees in the dotted syntax of guppy.gsl.DottedTree.                       *)
(* A text is the sequence of its lines and a line is a sequence of           *)
(* characters, numbered: Dot, Quote, and any others.  The text without any   *)
(* character is the empty sequence of lines.                                 *)
(* A tree is the sequence of its nodes in preorder, [d |-> depth, t |-> the  *)
(* lines of the tag, n |-> index of the line the node begins on].            *)
EXTENDS Integers, Sequences, FiniteSets
Dot == 1
Quote == 2

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Lead(s, c) == Min({i \in 1..Len(s) : s[i] # c} \cup {Len(s) + 1}) - 1
After(s, k) == SubSeq(s, k + 1, Len(s))
(* a line that would be taken for the beginning of a node, or for a quoted   *)
(* one, is written with one more quote                                       *)
Risky(s) == LET k == Lead(s, Quote) IN k < Len(s) /\ s[k + 1] = Dot
Quoted(s) == IF Risky(s) THEN <<Quote>> \o s ELSE s
Unquoted(s) == IF Risky(s) /\ s[1] = Quote THEN Tail(s) ELSE s
Map(ls) == [i \in DOMAIN ls |-> Unquoted(ls[i])]

Level(s) == Lead(s, Dot)
Heads(ls) == {i \in 1..Len(ls) : Level(ls[i]) > 0}
Prev(ls, i) == LET H == {j \in Heads(ls) : j < i} IN IF H = {} THEN 0 ELSE Max(H)
End(ls, i) == LET H == {j \in Heads(ls) : j > i} IN IF H = {} THEN Len(ls) ELSE Min(H) - 1
Depth(ls, i) == IF i = 0 THEN 0 ELSE Level(ls[i])
Legal(ls) == \A i \in Heads(ls) : Depth(ls, i) <= Depth(ls, Prev(ls, i)) + 1
(* the line the first complaint is about, counted from 0 *)
Fault(ls) == Min({i \in Heads(ls) : Depth(ls, i) > Depth(ls, Prev(ls, i)) + 1}) - 1

RootTag(ls) == LET t == SubSeq(ls, 1, End(ls, 0))
               IN CASE t = <<>> -> << <<>> >>
                    [] t = << <<>> >> -> << <<>>, <<>> >>
                    [] OTHER -> Map(t)
HeadTag(ls, i) == <<Unquoted(After(ls[i], Level(ls[i])))>> \o Map(SubSeq(ls, i + 1, End(ls, i)))
Nth(ls, k) == Min({i \in Heads(ls) : Cardinality({j \in Heads(ls) : j <= i}) = k})
Parse(ls) == <<[d |-> 0, t |-> RootTag(ls), n |-> 0]>> \o
             [k \in 1..Cardinality(Heads(ls)) |->
                LET i == Nth(ls, k) IN [d |-> Depth(ls, i), t |-> HeadTag(ls, i), n |-> i - 1]]

Dots(k) == [i \in 1..k |-> Dot]
Shown(x) == [i \in DOMAIN x.t |-> IF i = 1 THEN Dots(x.d) \o Quoted(x.t[1]) ELSE Quoted(x.t[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
(* how a tree is written: the empty tag of the root takes no line            *)
Unparse(tr) == (IF tr[1].t = << <<>> >> THEN <<>> ELSE Shown(tr[1])) \o Cat([i \in 1..Len(tr) - 1 |-> Shown(tr[i + 1])])

Tree(tr) == /\ Len(tr) > 0 /\ tr[1].d = 0
            /\ \A i \in 2..Len(tr) : tr[i].d \in 1..tr[i - 1].d + 1
Bare(tr) == [i \in DOMAIN tr |-> [d |-> tr[i].d, t |-> tr[i].t]]
Same(a, b) == Bare(a) = Bare(b)

(* One event: o what was asked, a the input, r the answer, x the complaint.  *)
(*   parse    a: lines, r: nodes with the lines they begin on; x is -1 or    *)
(*            the line that was complained about                             *)
(*   plain    as parse, without the indices; x is -1 or -2 (refused)         *)
(*   unparse  a: nodes, r: lines                                             *)
Answer(e) ==
  CASE e.o = "parse" -> (IF Legal(e.a) THEN e.x = -1 /\ e.r = Parse(e.a)
                         ELSE e.x = Fault(e.a))
    [] e.o = "plain" -> (IF Legal(e.a) THEN e.x = -1 /\ Same(e.r, Parse(e.a)) ELSE e.x = -2)
    [] e.o = "unparse" -> Legal(e.r) /\ Same(Parse(e.r), e.a)
    [] OTHER -> FALSE
=============================================================================
