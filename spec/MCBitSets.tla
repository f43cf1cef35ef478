----------------------------- MODULE MCBitSets -----------------------------
(* Bounded exploration of BitSets: all register files over universe U, all
   calls.  Checks the algebraic laws pointwise and the frame conditions:
   a call changes only its target register, immutable sets never change.    *)
EXTENDS BitSets, TLC

CONSTANTS U, R
VARIABLES regs, last
vars == <<regs, last>>

Vals == [c : BOOLEAN, s : SUBSET U]
Init == regs = [i \in 1..R |-> NONE] /\ last = [o |-> "init"]
Has(i) == regs[i].k \in {"imm", "mut"}
Do(e) == LET x == Answer(regs, e) IN regs' = x.st /\ last' = [e |-> e, r |-> x.r]
Lit(v) == [k |-> "lit", c |-> v.c, s |-> Sorted(v.s)]
RegO(i) == [k |-> "reg", i |-> i]
Fs == {"and", "or", "sub", "xor"}
Cs == {"eq", "ne", "le", "lt", "ge", "gt"}
Next ==
  \/ \E v \in Vals, d \in 1..R, o \in {"new", "newsub", "mnew"} : Do([o |-> o, d |-> d, b |-> Lit(v)])
  \/ \E i, d \in 1..R : Has(i) /\ \E o \in {"new", "mnew"} : Do([o |-> o, d |-> d, b |-> RegO(i)])
  \/ \E i, j, d \in 1..R, f \in Fs : Has(i) /\ Has(j) /\ Do([o |-> "bin", f |-> f, a |-> i, b |-> RegO(j), d |-> d])
  \/ \E i, j \in 1..R, f \in Fs : Has(i) /\ Has(j) /\ Do([o |-> "ibin", f |-> f, a |-> i, b |-> RegO(j)])
  \/ \E i, d \in 1..R : Has(i) /\ \E o \in {"inv", "all", "iter"} : Do([o |-> o, a |-> i, d |-> d])
  \/ \E i, j \in 1..R, f \in Cs : Has(i) /\ Has(j) /\ Do([o |-> "cmp", f |-> f, a |-> i, b |-> RegO(j)])
  \/ \E i \in 1..R, x \in U : regs[i].k = "mut" /\ \E o \in {"add", "discard", "append", "remove", "tas", "tac"} :
        Do([o |-> o, a |-> i, x |-> x])
  \/ \E i \in 1..R, x \in U : Has(i) /\ Do([o |-> "in", a |-> i, x |-> x])
  \/ \E i \in 1..R : regs[i].k = "mut" /\ (Do([o |-> "clear", a |-> i]) \/ \E n \in {0, -1} : Do([o |-> "pop", a |-> i, n |-> n]))
  \/ \E i \in 1..R : regs[i].k = "iter" /\ Do([o |-> "next", a |-> i])
  \/ \E i, d \in 1..R, n \in 1..2, o \in {"low", "high"} : Has(i) /\ Do([o |-> o, a |-> i, n |-> n, d |-> d])
Spec == Init /\ [][Next]_vars

(* membership laws, checked on every pair of registers in every state *)
Laws == \A i, j \in 1..R : Has(i) /\ Has(j) =>
          LET a == V(regs[i].c, regs[i].s)  b == V(regs[j].c, regs[j].s) IN
          /\ \A x \in U : /\ Mem(And(a, b), x) = (Mem(a, x) /\ Mem(b, x))
                          /\ Mem(Or(a, b), x)  = (Mem(a, x) \/ Mem(b, x))
                          /\ Mem(Sub(a, b), x) = (Mem(a, x) /\ ~Mem(b, x))
                          /\ Mem(Xor(a, b), x) = (Mem(a, x) # Mem(b, x))
                          /\ Mem(Cpl(a), x) = ~Mem(a, x)
          /\ Eq(Cpl(Cpl(a)), a)
          /\ Eq(Sub(a, b), And(a, Cpl(b)))
          /\ Le(a, b) <=> Eq(And(a, b), a)
          /\ Le(a, b) /\ Le(b, a) => Eq(a, b)
          /\ Cmp("lt", a, b) => \E x \in U \cup {999} : Mem(b, x) /\ ~Mem(a, x)
TypeOK == \A i \in 1..R : regs[i].k \in {"none", "imm", "mut", "iter"} /\ regs[i].s \subseteq U
(* a call changes at most its target; an immutable set is only ever
   replaced (rebinding), an iterator only consumed *)
Frame == [][\A i \in 1..R : regs'[i] # regs[i] =>
              LET e == last'.e IN \/ "d" \in DOMAIN e /\ e.d = i
                                  \/ "a" \in DOMAIN e /\ e.a = i
                                     /\ e.o \in {"ibin","add","discard","append","remove","tas","tac","clear","pop","next"}]_vars
Snapshot == [][\A i \in 1..R : regs[i].k = "iter" /\ regs'[i].k = "iter" /\ regs'[i] # regs[i] =>
                 LET e == last'.e IN \/ e.o = "next" /\ regs[i].s = regs'[i].s \cup {last'.r.v}
                                     \/ e.o = "iter"]_vars
View == regs
=============================================================================
