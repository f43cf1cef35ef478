------------------------------ MODULE BitSets ------------------------------
(* The bit sets of guppy.sets as a state machine over registers.

   A bit set value is [c, s]: the finite set s of integers, or its
   complement when c.  A register holds nothing, an immutable bit set
   ("imm"), a mutable bit set ("mut") or an iterator ("iter", whose s is the
   part not yet produced).  One action per API call; an action maps the
   register file and a call to the register file and the observable result.

   Elements are symbolic: the harness maps them by a strictly increasing
   function to machine integers anywhere in the word range (affine whenever
   a shift or an arithmetic range is used), because TLC integers have 32
   bits.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets

NONE == [k |-> "none", c |-> FALSE, s |-> {}]
Imm(v) == [k |-> "imm", c |-> v.c, s |-> v.s]
Mut(v) == [k |-> "mut", c |-> v.c, s |-> v.s]
V(c, s) == [c |-> c, s |-> s]

Mem(v, x) == (x \in v.s) # v.c

(* ---- algebra on [c, s] ---- *)
Cpl(v) == V(~v.c, v.s)
And(a, b) == IF ~a.c /\ ~b.c THEN V(FALSE, a.s \cap b.s)
             ELSE IF ~a.c THEN V(FALSE, a.s \ b.s)
             ELSE IF ~b.c THEN V(FALSE, b.s \ a.s)
             ELSE V(TRUE, a.s \cup b.s)
Or(a, b) == Cpl(And(Cpl(a), Cpl(b)))
Sub(a, b) == And(a, Cpl(b))
Xor(a, b) == V(a.c # b.c, (a.s \ b.s) \cup (b.s \ a.s))
Op(f, a, b) == CASE f = "and" -> And(a, b)
                 [] f = "or"  -> Or(a, b)
                 [] f = "sub" -> Sub(a, b)
                 [] f = "xor" -> Xor(a, b)
Eq(a, b) == a.c = b.c /\ a.s = b.s
Le(a, b) == LET d == Sub(a, b) IN ~d.c /\ d.s = {}
Cmp(f, a, b) == CASE f = "eq" -> Eq(a, b)
                  [] f = "ne" -> ~Eq(a, b)
                  [] f = "le" -> Le(a, b)
                  [] f = "lt" -> Le(a, b) /\ ~Eq(a, b)
                  [] f = "ge" -> Le(b, a)
                  [] f = "gt" -> Le(b, a) /\ ~Eq(a, b)
Truth(v) == v.c \/ v.s # {}

MinS(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxS(s) == CHOOSE x \in s : \A y \in s : y <= x
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == MinS(s) IN <<m>> \o Sorted(s \ {m})
(* the n lowest / highest elements *)
Lowest(s, n)  == {x \in s : Cardinality({y \in s : y < x}) < n}
Highest(s, n) == {x \in s : Cardinality({y \in s : y > x}) < n}
RangeSet(lo, hi, st) == {x \in lo..(hi - 1) : (x - lo) % st = 0}

(* ---- results ---- *)
RNone    == [t |-> "none"]
RBool(b) == [t |-> "bool", v |-> b]
RInt(i)  == [t |-> "int", v |-> i]
RSet(k, v) == [t |-> k, c |-> v.c, s |-> v.s]
RList(s) == [t |-> "list", s |-> s]        \* the elements in ascending order
RExc(e)  == [t |-> "exc", v |-> e]

(* regs: sequence of registers; e: a call.
   Answer(regs, e) = [st |-> new registers, r |-> expected result]          *)
Ans(st, r) == [st |-> st, r |-> r]
Put(regs, d, x, r) == Ans([regs EXCEPT ![d] = x], r)

Operand(regs, o) == IF o.k = "reg" THEN V(regs[o.i].c, regs[o.i].s)
                    ELSE V(o.c, {o.s[j] : j \in DOMAIN o.s})

Answer(regs, e) ==
  LET a == IF "a" \in DOMAIN e THEN regs[e.a] ELSE NONE
      b == IF "b" \in DOMAIN e THEN Operand(regs, e.b) ELSE V(FALSE, {})
      same(r) == Ans(regs, r)
      has(x) == Mem(a, x)
      set(x)  == IF a.c THEN [a EXCEPT !.s = @ \ {x}] ELSE [a EXCEPT !.s = @ \cup {x}]
      clr(x)  == IF a.c THEN [a EXCEPT !.s = @ \cup {x}] ELSE [a EXCEPT !.s = @ \ {x}]
  IN CASE e.o = "new"    -> Put(regs, e.d, Imm(b), RSet("imm", b))
       [] e.o = "newsub" -> \* the ImmBitSet type (or a subclass): refuses complements
             IF b.c THEN same(RExc("exc")) ELSE Put(regs, e.d, Imm(b), RSet("imm", b))
       [] e.o = "mnew"   -> Put(regs, e.d, Mut(b), RSet("mut", b))
       [] e.o = "range"  -> LET v == V(FALSE, RangeSet(e.lo, e.hi, e.step))
                            IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "bin"    -> LET v == Op(e.f, V(a.c, a.s), b) IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "rbin"   -> LET v == Op(e.f, b, V(a.c, a.s)) IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "ibin"   -> LET v == Op(e.f, V(a.c, a.s), b)
                            IN Put(regs, e.a, [k |-> a.k, c |-> v.c, s |-> v.s], RSet(a.k, v))
       [] e.o = "inv"    -> LET v == Cpl(V(a.c, a.s)) IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "shl"    -> \* e.lo, e.hi: the least and greatest machine integer
             LET v == V(a.c, {x + e.n : x \in a.s})
             IN IF \E x \in v.s : x < e.lo \/ x > e.hi THEN same(RExc("OverflowError"))
                ELSE Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "cmp"    -> same(RBool(Cmp(e.f, V(a.c, a.s), b)))
       [] e.o = "hash"   -> same(RBool(TRUE))  \* equal values hash equal; a hash exists
       [] e.o = "in"     -> same(RBool(has(e.x)))
       [] e.o = "bool"   -> same(RBool(Truth(a)))
       [] e.o = "len"    -> IF a.c THEN same(RExc("exc")) ELSE same(RInt(Cardinality(a.s)))
       [] e.o = "list"   -> IF a.c THEN same(RExc("exc")) ELSE same(RList(a.s))
       [] e.o = "proj"   -> same(RSet(a.k, a))
       [] e.o = "round"  -> same(RSet(a.k, a))  \* repr, copy, pickle and integer round trips
       [] e.o = "first"  -> IF a.c \/ a.s = {} THEN same(RExc("exc")) ELSE same(RInt(MinS(a.s)))
       [] e.o = "last"   -> IF a.c \/ a.s = {} THEN same(RExc("exc")) ELSE same(RInt(MaxS(a.s)))
       [] e.o = "low"    -> IF a.c THEN same(RExc("exc"))
                            ELSE LET v == V(FALSE, Lowest(a.s, e.n)) IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "high"   -> IF a.c THEN same(RExc("exc"))
                            ELSE LET v == V(FALSE, Highest(a.s, e.n)) IN Put(regs, e.d, Imm(v), RSet("imm", v))
       [] e.o = "all"    -> Put(regs, e.d, Imm(a), RSet("imm", a))
       (* mutation *)
       [] e.o = "add"     -> Put(regs, e.a, set(e.x), RNone)
       [] e.o = "discard" -> Put(regs, e.a, clr(e.x), RNone)
       [] e.o = "append"  -> IF has(e.x) THEN same(RExc("ValueError")) ELSE Put(regs, e.a, set(e.x), RNone)
       [] e.o = "remove"  -> IF has(e.x) THEN Put(regs, e.a, clr(e.x), RNone) ELSE same(RExc("ValueError"))
       [] e.o = "tas"     -> Put(regs, e.a, set(e.x), RBool(has(e.x)))
       [] e.o = "tac"     -> Put(regs, e.a, clr(e.x), RBool(has(e.x)))
       [] e.o = "clear"   -> Put(regs, e.a, Mut(V(FALSE, {})), RNone)
       [] e.o = "pop"     -> \* e.n = 0: lowest, e.n = -1: highest
             IF a.c \/ a.s = {} THEN same(RExc("ValueError"))
             ELSE LET x == IF e.n = 0 THEN MinS(a.s) ELSE MaxS(a.s)
                  IN Put(regs, e.a, [a EXCEPT !.s = @ \ {x}], RInt(x))
       [] e.o = "split"   -> same(RNone)   \* storage tuning: no observable effect
       (* iteration: a snapshot *)
       [] e.o = "iter"    -> IF a.c THEN same(RExc("exc"))
                             ELSE Put(regs, e.d, [k |-> "iter", c |-> FALSE, s |-> a.s], RNone)
       [] e.o = "next"    -> IF a.s = {} THEN same(RExc("StopIteration"))
                             ELSE LET x == MinS(a.s) IN Put(regs, e.a, [a EXCEPT !.s = @ \ {x}], RInt(x))
       [] e.o = "del"     -> Put(regs, e.a, NONE, RNone)

(* An observed result agrees with the expected one. "exc" accepts any
   exception, a named exception only itself.  Observed sets and lists come as
   sequences, which must be strictly ascending.                             *)
Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
SeqIsSet(q, s) == Ascending(q) /\ Len(q) = Cardinality(s) /\ \A i \in DOMAIN q : q[i] \in s
Agrees(exp, got) ==
  CASE got.t = "q" -> exp.t # "exc"   \* contents deliberately not looked at
    [] exp.t = "exc" -> got.t = "exc" /\ (exp.v = "exc" \/ got.v = exp.v)
    [] exp.t \in {"imm", "mut", "iter"} -> got.t = exp.t /\ got.c = exp.c /\ SeqIsSet(got.v, exp.s)
    [] exp.t = "list" -> got.t = "list" /\ SeqIsSet(got.v, exp.s)
    [] exp.t = "none" -> got.t = "none"
    [] OTHER -> got.t = exp.t /\ got.v = exp.v
=============================================================================
