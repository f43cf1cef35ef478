---------------------------- MODULE MCNodeSets ----------------------------
(* All histories over a small world.  Invariants: exact life times and
   reference counts; frame conditions: a call changes one set object only,
   immutable set objects never change.                                      *)
EXTENDS NodeSets, TLC
CONSTANTS U, NR, MaxSets
VARIABLES st, last
vars == <<st, last>>
Init == st = [prog |-> U, sets |-> <<>>, regs |-> [i \in 1..NR |-> NONE]] /\ last = [o |-> "init"]
Has(i) == st.regs[i].k = "set"
Do(e) == LET x == Answer(st, e) IN st' = x.st /\ last' = [e |-> e, r |-> x.r]
G(v) == [t |-> "int", v |-> v, same |-> FALSE]
RegO(i) == [k |-> "reg", i |-> i]
Room == Len(st.sets) < MaxSets
Subs == {<<>>} \cup {<<x>> : x \in U} \cup {<<x, y>> : x, y \in U}
Next ==
  \/ \E x \in U : x \notin Alive(st) /\ Do([o |-> "mk", x |-> x, a |-> 1])
  \/ \E x \in st.prog : Do([o |-> "drop", x |-> x, a |-> 1])
  \/ Room /\ \E d \in 1..NR, m \in BOOLEAN, s \in Subs : Rng(s) \subseteq st.prog /\
        Do([o |-> "new", d |-> d, m |-> m, b |-> [k |-> "lit", f |-> "list", s |-> s], r |-> G(0), a |-> 1])
  \/ Room /\ \E d, i \in 1..NR, m \in BOOLEAN : Has(i) /\
        Do([o |-> "new", d |-> d, m |-> m, b |-> RegO(i), r |-> [t |-> "", v |-> 0, same |-> ~m /\ ~st.sets[st.regs[i].ref].m], a |-> 1])
  \/ Room /\ \E d, i, j \in 1..NR, f \in {"and", "or", "sub", "xor"} : Has(i) /\ Has(j) /\
        (Do([o |-> "bin", f |-> f, a |-> i, b |-> RegO(j), d |-> d]) \/ Do([o |-> "ibin", f |-> f, a |-> i, b |-> RegO(j)]))
  \/ \E i \in 1..NR, x \in st.prog, o \in {"add", "discard", "append", "remove", "tas", "tac"} : Has(i) /\ Do([o |-> o, a |-> i, x |-> x])
  \/ \E i \in 1..NR : Has(i) /\ Do([o |-> "clear", a |-> i])
  \/ \E i \in 1..NR, x \in U : Has(i) /\ Do([o |-> "pop", a |-> i, r |-> G(x)])
  \/ \E i, d \in 1..NR : Has(i) /\ Do([o |-> "iter", a |-> i, d |-> d])
  \/ \E i \in 1..NR, x \in U : st.regs[i].k = "iter" /\ Do([o |-> "next", a |-> i, r |-> G(x)])
  \/ \E i \in 1..NR : st.regs[i].k # "none" /\ Do([o |-> "del", a |-> i])
Spec == Init /\ [][Next]_vars
TypeOK == /\ st.prog \subseteq U
          /\ \A i \in DOMAIN st.sets : st.sets[i].s \subseteq U
          /\ \A i \in 1..NR : st.regs[i].ref # 0 => st.regs[i].ref \in DOMAIN st.sets
Lifetime == \A x \in U : (x \in Alive(st)) <=> (x \in st.prog \/ Extra(st, x) > 0)
Frame == [][\A i \in DOMAIN st.sets : st'.sets[i] # st.sets[i] =>
              st.sets[i].m /\ last'.e.a \in 1..NR /\ st.regs[last'.e.a].ref = i]_vars
Iters == \A i \in 1..NR : st.regs[i].k = "iter" /\ st.regs[i].ref # 0 => st.regs[i].rem \subseteq st.sets[st.regs[i].ref].s
View == <<st.prog, [i \in 1..NR |-> IF st.regs[i].ref = 0 THEN <<st.regs[i].k>> ELSE <<st.regs[i], st.sets[st.regs[i].ref]>>], Len(st.sets)>>
=============================================================================
