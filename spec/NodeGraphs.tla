---------------------------- MODULE NodeGraphs ----------------------------
(* Node graphs: finite sets of edges <<source, target>> between objects
   (ids, by identity), optionally used as mappings.  A register holds
   nothing or a graph [k |-> "g", m |-> is_mapping, e |-> edges].           *)
EXTENDS Integers, Sequences, FiniteSets

NONE == [k |-> "none", m |-> FALSE, e |-> {}]
Gr(m, e) == [k |-> "g", m |-> m, e |-> e]
Rng(q) == {q[i] : i \in DOMAIN q}
Dom(E) == {p[1] : p \in E}
Ran(E) == {p[2] : p \in E}
Img(E, X) == {p[2] : p \in {q \in E : q[1] \in X}}
Inv(E) == {<<p[2], p[1]>> : p \in E}
Restr(E, X) == {p \in E : p[1] \in X}
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
(* references an edge set holds to x *)
Refs(E, x) == Cardinality({p \in E : p[1] = x}) + Cardinality({p \in E : p[2] = x})
RECURSIVE SumRefs(_, _, _)
SumRefs(regs, x, i) == IF i = 0 THEN 0 ELSE Refs(regs[i].e, x) + SumRefs(regs, x, i - 1)

R(t, v) == [t |-> t, v |-> v]
RNone == R("none", 0)
RExc(n) == R("exc", n)
Ans(regs, r) == [st |-> regs, r |-> r]

(* operands: edges or nodes, given literally or by a register *)
EVal(regs, b) == IF b.k = "reg" THEN regs[b.i].e ELSE Pairs(b.s)

Answer(regs, e) ==
  LET a == regs[e.a]
      E == a.e
      same(r) == Ans(regs, r)
      upd(E2, r) == Ans([regs EXCEPT ![e.a].e = E2], r)
      put(m, E2) == Ans([regs EXCEPT ![e.d] = Gr(m, E2)], RNone)
  IN
  CASE e.o = "new"    -> put(e.m, EVal(regs, e.b))
    [] e.o = "copy"   -> put(a.m, E)
    [] e.o = "inverted" -> put(a.m, Inv(E))
    [] e.o = "updated" -> put(a.m, E \cup EVal(regs, e.b))
    [] e.o = "restr"  -> put(a.m, Restr(E, Rng(e.xs)))
    [] e.o = "add"    -> upd(E \cup {<<e.x, e.y>>}, RNone)
    [] e.o = "addn1"  -> upd(E \cup {<<x, e.y>> : x \in Rng(e.xs)}, RNone)
    [] e.o = "update" -> upd(E \cup EVal(regs, e.b), RNone)
    [] e.o = "selfupdate" -> \* refused or harmless
                         same(IF e.r.t = "exc" THEN RExc("RuntimeError") ELSE RNone)
    [] e.o = "badupdate" -> same(RExc("TypeError"))
    [] e.o = "invert" -> upd(Inv(E), RNone)
    [] e.o = "clear"  -> upd({}, RNone)
    [] e.o = "set"    -> \* a[x] = targets
         LET old == Img(E, {e.x}) IN
         IF a.m THEN IF Cardinality(old) # 1 THEN same(RExc("ValueError"))
                     ELSE upd((E \ Restr(E, {e.x})) \cup {<<e.x, e.ys[1]>>}, RNone)
         ELSE IF e.tuple = FALSE THEN same(RExc("TypeError"))
         ELSE IF Cardinality(old) # Len(e.ys) THEN same(RExc("ValueError"))
         ELSE upd((E \ Restr(E, {e.x})) \cup {<<e.x, y>> : y \in Rng(e.ys)}, RNone)
    [] e.o = "delitem" -> same(RExc("NotImplementedError"))
    [] e.o = "get"    ->
         LET t == Img(E, {e.x}) IN
         IF ~a.m THEN same(R("nodes", t))
         ELSE IF t = {} THEN same(RExc("KeyError"))
         ELSE IF Cardinality(t) > 1 THEN same(RExc("ValueError"))
         ELSE same(R("node", CHOOSE x \in t : TRUE))
    [] e.o = "len"    -> same(R("int", Cardinality(E)))
    [] e.o = "list"   -> same(R("edges", E))
    [] e.o = "flat"   -> same(R("bag", E))     \* may repeat edges added more than once
    [] e.o = "ismap"  -> same(R("bool", a.m))
    [] e.o = "dom"    -> same(R("nodes", Dom(E)))
    [] e.o = "ran"    -> same(R("nodes", Ran(E)))
    [] e.o = "relimg" -> same(R("nodes", Img(E, Rng(e.xs))))
    [] e.o = "covers" -> same(R("bool", Rng(e.xs) \subseteq Dom(E)))
    [] e.o = "refs"   -> same(R("refs", [i \in 1..Len(e.xs) |-> SumRefs(regs, e.xs[i], Len(regs))]))
    [] e.o = "del"    -> Ans([regs EXCEPT ![e.a] = NONE], RNone)

SeqOfSet(q, s) == Len(q) = Cardinality(s) /\ {q[i] : i \in DOMAIN q} = s
Agrees(exp, got) ==
  CASE exp.t = "nodes" -> got.t = "nodes" /\ SeqOfSet(got.v, exp.v)
    [] exp.t = "edges" -> got.t = "edges" /\ Len(got.v) = Cardinality(exp.v) /\ Pairs(got.v) = exp.v
    [] exp.t = "bag"   -> got.t = "edges" /\ Pairs(got.v) = exp.v
    [] exp.t = "none"  -> got.t = "none"
    [] OTHER -> got.t = exp.t /\ got.v = exp.v
=============================================================================
