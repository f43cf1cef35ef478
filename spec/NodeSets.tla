----------------------------- MODULE NodeSets -----------------------------
(* Node sets: sets of objects by identity.

   State: prog   - the objects (ids) the program itself holds references to
          sets   - set objects: id -> [m |-> mutable?, s |-> members]; set
                   objects are shared by reference, hence the indirection
          regs   - registers: what the program names
                     none | set (ref = set id) | iter (ref = set id,
                     rem = members not yet delivered, opt = those of them
                     that were removed meanwhile: an iterator does not
                     deliver them, unless they are added again, when it may)
          dead   - nothing: an object that is in no set and not in prog is
                   dead; `mk` makes a new one under its id
   A set object (and an iterator) is alive while a register refers to it.  *)
EXTENDS Integers, Sequences, FiniteSets

NONE == [k |-> "none", ref |-> 0, rem |-> {}, opt |-> {}]
SetR(i) == [k |-> "set", ref |-> i, rem |-> {}, opt |-> {}]
IterR(i, r) == [k |-> "iter", ref |-> i, rem |-> r, opt |-> {}]

LiveSets(st) == {st.regs[i].ref : i \in DOMAIN st.regs} \ {0}
Holders(st, x) == {i \in LiveSets(st) : x \in st.sets[i].s}
Alive(st) == st.prog \cup UNION {st.sets[i].s : i \in LiveSets(st)}
(* extra references an object has because of live set objects *)
Extra(st, x) == Cardinality(Holders(st, x))

Rng(q) == {q[i] : i \in DOMAIN q}
Xor(a, b) == (a \ b) \cup (b \ a)
Op(f, a, b) == CASE f = "and" -> a \cap b [] f = "or" -> a \cup b
                 [] f = "sub" -> a \ b [] f = "xor" -> Xor(a, b)
Rel(f, a, b) == CASE f = "eq" -> a = b [] f = "ne" -> a # b
                  [] f = "le" -> a \subseteq b [] f = "ge" -> b \subseteq a
                  [] f = "lt" -> a \subseteq b /\ a # b [] f = "gt" -> b \subseteq a /\ a # b

R(t, v) == [t |-> t, v |-> v]
RNone == R("none", 0)
RExc(n) == R("exc", n)
RSet(m, s) == [t |-> IF m THEN "mut" ELSE "imm", v |-> s]

(* operand: contents *)
Val(st, b) == IF b.k = "reg" THEN st.sets[st.regs[b.i].ref].s ELSE Rng(b.s)
IsSet(st, b) == b.k = "reg" \/ b.f \in {"imm", "mut", "subimm", "submut"}

Ans(st, r) == [st |-> st, r |-> r]
(* a new set object bound to register d *)
Fresh(st, d, m, s, r) ==
  Ans([st EXCEPT !.sets = Append(@, [m |-> m, s |-> s]), !.regs[d] = SetR(Len(st.sets) + 1)], r)

Answer(st, e) ==
  LET a == st.regs[e.a]
      A == IF a.ref = 0 THEN [m |-> FALSE, s |-> {}] ELSE st.sets[a.ref]
      upd(s, r) == Ans([st EXCEPT !.sets[a.ref].s = s,
                                  !.regs = [i \in DOMAIN @ |-> IF @[i].k = "iter" /\ @[i].ref = a.ref
                                              THEN [@[i] EXCEPT !.rem = @ \cap s, !.opt = @ \cup (st.regs[i].rem \ s)]
                                              ELSE @[i]]], r)
      same(r) == Ans(st, r)
  IN
  CASE e.o = "mk"   -> Ans([st EXCEPT !.prog = @ \cup {e.x}], RNone)
    [] e.o = "drop" -> Ans([st EXCEPT !.prog = @ \ {e.x}], RNone)
    [] e.o = "alive" -> same(R("ids", Alive(st)))
    [] e.o = "died" -> \* the destructor of x ran, and looked for x in all sets
                       IF e.x \in Alive(st) THEN same(RExc("still alive")) ELSE same(R("ids", {}))
    [] e.o = "refs" -> same(R("refs", [i \in 1..Len(e.xs) |-> Extra(st, e.xs[i])]))
    [] e.o = "new"  -> \* mutable or immutable, from anything; an immutable
                       \* set made from an immutable set may be the same one
         LET s == Val(st, e.b) IN
         IF e.r.same
         THEN IF ~e.m /\ e.b.k = "reg" /\ ~st.sets[st.regs[e.b.i].ref].m
              THEN Ans([st EXCEPT !.regs[e.d] = SetR(st.regs[e.b.i].ref)], RSet(FALSE, s))
              ELSE IF ~e.m /\ e.b.k = "lit" /\ e.b.f \in {"imm", "subimm"}
              THEN Fresh(st, e.d, e.m, s, RSet(FALSE, s))
              ELSE same(RExc("must not be the same object"))
         ELSE Fresh(st, e.d, e.m, s, RSet(e.m, s))
    [] e.o = "bin"  -> LET s == Op(e.f, A.s, Val(st, e.b)) IN Fresh(st, e.d, FALSE, s, RSet(FALSE, s))
    [] e.o = "ibin" -> LET s == Op(e.f, A.s, Val(st, e.b)) IN
                       IF A.m THEN upd(s, RSet(TRUE, s)) ELSE Fresh(st, e.a, FALSE, s, RSet(FALSE, s))
    [] e.o = "cmp"  -> IF IsSet(st, e.b) THEN same(R("bool", Rel(e.f, A.s, Val(st, e.b))))
                       ELSE IF e.f = "eq" THEN same(R("bool", FALSE))
                       ELSE IF e.f = "ne" THEN same(R("bool", TRUE))
                       ELSE same(RExc("TypeError"))
    [] e.o = "hash" -> IF A.m THEN same(RExc("TypeError")) ELSE same(R("bool", TRUE))
    [] e.o = "in"   -> same(R("bool", e.x \in A.s))
    [] e.o = "len"  -> same(R("int", Cardinality(A.s)))
    \* an operation with objects that are new with it; how many its result has
    [] e.o = "fresh" -> same(R("int", IF e.f = "and" THEN 0 ELSE Cardinality(A.s) + IF e.f = "sub" THEN 0 ELSE e.n))
    [] e.o = "bool" -> same(R("bool", A.s # {}))
    [] e.o = "list" -> same(R("ids", A.s))
    [] e.o = "isimm" -> same(R("bool", ~A.m))
    [] e.o = "objat" -> IF A.m THEN same(RExc("AttributeError"))
                        ELSE IF e.x \in A.s THEN same(R("int", e.x)) ELSE same(RExc("ValueError"))
    [] e.o \in {"add", "discard", "append", "remove", "tas", "tac", "clear", "pop"} /\ ~A.m ->
                       same(RExc("AttributeError"))
    [] e.o = "add"     -> upd(A.s \cup {e.x}, RNone)
    [] e.o = "discard" -> upd(A.s \ {e.x}, RNone)
    [] e.o = "append"  -> IF e.x \in A.s THEN same(RExc("ValueError")) ELSE upd(A.s \cup {e.x}, RNone)
    [] e.o = "remove"  -> IF e.x \in A.s THEN upd(A.s \ {e.x}, RNone) ELSE same(RExc("ValueError"))
    [] e.o = "tas"     -> upd(A.s \cup {e.x}, R("bool", e.x \in A.s))
    [] e.o = "tac"     -> upd(A.s \ {e.x}, R("bool", e.x \in A.s))
    [] e.o = "clear"   -> upd({}, RNone)
    [] e.o = "pop"     -> \* some member
         IF A.s = {} THEN same(RExc("ValueError"))
         ELSE IF e.r.t = "int" /\ e.r.v \in A.s THEN upd(A.s \ {e.r.v}, e.r)
         ELSE same(R("member of", A.s))
    [] e.o = "iter" -> Ans([st EXCEPT !.regs[e.d] = IterR(a.ref, A.s)], RNone)
    [] e.o = "next" -> \* some member not delivered yet; those removed meanwhile are skipped
         IF e.r.t = "int" /\ e.r.v \in (a.rem \cup a.opt) \cap A.s
         THEN Ans([st EXCEPT !.regs[e.a].rem = a.rem \ {e.r.v}, !.regs[e.a].opt = a.opt \ {e.r.v}], e.r)
         ELSE IF a.rem = {} THEN Ans([st EXCEPT !.regs[e.a] = IF A.m THEN IterR(a.ref, {}) ELSE IterR(0, {})], RExc("StopIteration"))
         ELSE same(R("member of", a.rem))
    [] e.o = "del"  -> Ans([st EXCEPT !.regs[e.a] = NONE], RNone)
    [] e.o = "union" -> \* module functions mutnodeset_union / immnodeset_union
         LET s == UNION {Val(st, e.bs[i]) : i \in DOMAIN e.bs} IN Fresh(st, e.d, e.m, s, RSet(e.m, s))
    [] e.o = "bad"  -> same(RExc("TypeError"))   \* a non-iterable operand

IsSeqOf(q, s) == Len(q) = Cardinality(s) /\ {q[i] : i \in DOMAIN q} = s
Agrees(exp, got) ==
  CASE got.t = "q" -> exp.t # "exc"
    [] exp.t \in {"imm", "mut", "ids"} -> got.t = exp.t /\ IsSeqOf(got.v, exp.v)
    [] exp.t = "exc" -> got.t = "exc" /\ got.v = exp.v
    [] exp.t = "none" -> got.t = "none"
    [] OTHER -> got.t = exp.t /\ got.v = exp.v
=============================================================================
