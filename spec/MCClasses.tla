----------------------------- MODULE MCClasses -----------------------------
(* Small worlds of every shape: the laws of partitions and selections, and  *)
(* what the table of dictionary owners, which is gathered at the first      *)
(* question about an unknown dictionary and kept until a full collection,   *)
(* answers.                                                                 *)
EXTENDS Classes, TLC
VARIABLES st, table, dirty, last
vars == <<st, table, dirty, last>>
N == 1..3
Ty == {"list", "dict", "K"}
Init ==
  /\ \E t \in [2..3 -> Ty], o \in [2..3 -> 0..3], r \in [1..3 -> SUBSET {<<"a", 2, ".a">>, <<"b", 3, ".b">>}], s \in [2..3 -> {8, 16}] :
       /\ \A d \in 2..3 : o[d] # 0 => t[d] = "dict" /\ o[d] # 1 /\ t[o[d]] = "K"
       /\ LET q(x) == CHOOSE z \in UNION {[1..k -> x] : k \in {Cardinality(x)}} : SetOf(z) = x
              w == [Start EXCEPT !.typ = <<"list", t[2], t[3]>>, !.own = <<0, o[2], o[3]>>, !.size = <<8, s[2], s[3]>>,
                    !.refs = [n \in N |-> q(r[n])], !.prod = <<<<>>, <<>>, <<>>>>,
                    !.sup = [list |-> {"list", "object"}, dict |-> {"dict", "object"}, K |-> {"K", "object"}],
                    !.pool = <<{2}, {1, 3}>>]
          IN st = [w EXCEPT !.walked = Walk(w, {1}, {1})]
  /\ table = <<>> /\ dirty = FALSE /\ last = <<>>
Dicts == {d \in N : st.typ[d] = "dict"}
Classify == \E d \in Dicts :
  /\ table' = IF d \in DOMAIN table THEN table ELSE [x \in Dicts |-> st.own[x]]
  /\ last' = <<d, table'[d], dirty>>
  /\ UNCHANGED <<st, dirty>>
Swap == \E d \in Dicts, o \in {0} \cup {n \in N : st.typ[n] = "K"} :
  /\ st' = [st EXCEPT !.own[d] = o] /\ dirty' = (dirty \/ table # <<>>) /\ last' = <<>> /\ table' = table
Collect == table' = <<>> /\ dirty' = FALSE /\ last' = <<>> /\ st' = st
Next == Classify \/ Swap \/ Collect
Spec == Init /\ [][Next]_vars

OwnerExact == last # <<>> /\ ~last[3] => last[2] = st.own[last[1]]

c(x) == [c |-> x]
Cs == {c("U"), c("T"), c("S"), c("I"), c("M"), c("K"), c("V"), [c |-> "D", of |-> c("T")], [c |-> "R", of |-> c("K")],
       [c |-> "A", cs |-> <<c("T"), c("S")>>], [c |-> "R", of |-> [c |-> "D", of |-> c("S")]],
       [c |-> "D", of |-> [c |-> "R", of |-> c("T")]], [c |-> "F", ks |-> <<1, 2>>]}
Partitioned == \A C \in Cs, X \in SUBSET N :
  LET B == Blocks(st, C, X)
  IN /\ UNION B = X /\ {} \notin B
     /\ \A p, q \in B : p = q \/ p \cap q = {}
     \* the class of an object does not depend on its company
     /\ \A x \in X : \E p \in B : x \in p /\ p = X \cap Selected(st, C, Value(st, C, x), "==")
     /\ Sum(st.size, X) = Sum([p \in B |-> Sum(st.size, p)], B)
Refined == \A X \in SUBSET N : \A b \in Blocks(st, [c |-> "A", cs |-> <<c("T"), c("S")>>], X) :
  \E t \in Blocks(st, c("T"), X), s \in Blocks(st, c("S"), X) : b = t \cap s
Ordered == \A C \in {c("T"), c("S"), c("V"), [c |-> "R", of |-> c("K")]}, x \in N :
  LET v == Value(st, C, x) IN
  /\ Selected(st, C, v, "<") = Selected(st, C, v, "<=") \ Selected(st, C, v, "==")
  /\ Selected(st, C, v, "!=") = N \ Selected(st, C, v, "==")
  /\ Selected(st, C, v, "<=") \cap Selected(st, C, v, ">=") = Selected(st, C, v, "==")
=============================================================================
