--------------------------- MODULE MCNodeGraphs ---------------------------
(* All histories of two graphs over a small set of nodes.                   *)
EXTENDS NodeGraphs, TLC
CONSTANTS U, NR, MaxE
VARIABLES regs, last
vars == <<regs, last>>
Init == regs = [i \in 1..NR |-> NONE] /\ last = [o |-> "init"]
Has(i) == regs[i].k = "g"
Do(e) == LET x == Answer(regs, e) IN
           /\ \A i \in 1..NR : Cardinality(x.st[i].e) <= MaxE
           /\ regs' = x.st /\ last' = [e |-> e, r |-> x.r]
Lit(s) == [k |-> "lit", s |-> s]
Qs == {<<>>} \cup {<<x>> : x \in U} \cup {<<x, y>> : x, y \in U}
Next ==
  \/ \E d \in 1..NR, m \in BOOLEAN : Do([o |-> "new", d |-> d, m |-> m, b |-> Lit(<<>>), a |-> 1])
  \/ \E i, d \in 1..NR, o \in {"copy", "inverted"} : Has(i) /\ Do([o |-> o, a |-> i, d |-> d])
  \/ \E i, j, d \in 1..NR : Has(i) /\ Has(j) /\ Do([o |-> "updated", a |-> i, d |-> d, b |-> [k |-> "reg", i |-> j]])
  \/ \E i, j \in 1..NR : Has(i) /\ Has(j) /\ i # j /\ Do([o |-> "update", a |-> i, b |-> [k |-> "reg", i |-> j]])
  \/ \E i, d \in 1..NR, q \in Qs : Has(i) /\ Do([o |-> "restr", a |-> i, d |-> d, xs |-> q])
  \/ \E i \in 1..NR, x, y \in U : Has(i) /\ Do([o |-> "add", a |-> i, x |-> x, y |-> y])
  \/ \E i \in 1..NR, q \in Qs, y \in U : Has(i) /\ Do([o |-> "addn1", a |-> i, xs |-> q, y |-> y])
  \/ \E i \in 1..NR, o \in {"invert", "clear", "len", "dom", "del"} : Has(i) /\ Do([o |-> o, a |-> i])
  \/ \E i \in 1..NR, x \in U : Has(i) /\ Do([o |-> "get", a |-> i, x |-> x])
  \/ \E i \in 1..NR, x \in U, q \in Qs \ {<<>>} : Has(i) /\ Cardinality(Rng(q)) = Len(q) /\
        Do([o |-> "set", a |-> i, x |-> x, ys |-> q, tuple |-> TRUE])
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..NR : regs[i].e \subseteq U \X U
Laws == \A i \in 1..NR : LET E == regs[i].e IN
          /\ Inv(Inv(E)) = E /\ Dom(Inv(E)) = Ran(E)
          /\ \A X \in SUBSET U : Ran(Restr(E, X)) = Img(E, X) /\ Dom(Restr(E, X)) = Dom(E) \cap X
          /\ Img(E, Dom(E)) = Ran(E)
Frame == [][\A i \in 1..NR : regs'[i] # regs[i] =>
              LET e == last'.e IN \/ "d" \in DOMAIN e /\ e.d = i
                                  \/ e.a = i /\ e.o \in {"add", "addn1", "update", "invert", "clear", "set", "del"}]_vars
(* replacing keeps the number of edges of the source *)
SetKeeps == [][last'.e.o = "set" /\ last'.r.t = "none" =>
                 Cardinality(regs'[last'.e.a].e) = Cardinality(regs[last'.e.a].e)]_vars
View == regs
=============================================================================
