------------------------------- MODULE Words -------------------------------
(* guppy.etc.KnuthBendix: equality of words under given equations, and       *)
(* guppy.etc.IterPermute: the combinations of several sequences.             *)
(*                                                                           *)
(* A word is a sequence of letters 1..K.  E is a sequence of equations,      *)
(* pairs of words.  Two words are equal when a sequence of steps leads from  *)
(* one to the other, a step replacing one side of an equation, somewhere in  *)
(* the word, by the other.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
WordsUpTo(K, M) == UNION {[1..n -> 1..K] : n \in 0..M}
At(w, i, u) == i + Len(u) <= Len(w) /\ SubSeq(w, i + 1, i + Len(u)) = u
Put(w, i, u, v) == SubSeq(w, 1, i) \o v \o SubSeq(w, i + Len(u) + 1, Len(w))
StepsBy(w, u, v) == {Put(w, i, u, v) : i \in {i \in 0..Len(w) : At(w, i, u)}}
Steps(E, w) == UNION {StepsBy(w, E[k][1], E[k][2]) \cup StepsBy(w, E[k][2], E[k][1]) : k \in DOMAIN E}

(* A model: every letter a map of the points 1..P to themselves.             *)
RECURSIVE Run(_, _, _)
Run(m, w, p) == IF w = <<>> THEN p ELSE Run(m, Tail(w), m[w[1]][p])
Acts(m, P, a, b) == \A p \in 1..P : Run(m, a, p) = Run(m, b, p)
Models(E, K, P) == {m \in [1..K -> [1..P -> 1..P]] : \A k \in DOMAIN E : Acts(m, P, E[k][1], E[k][2])}

(* R : words -> words, the normal forms.                                     *)
(* Words that are equal have the same normal form: it does not change on a   *)
(* step.  (Steps that leave the words considered are not looked at.)         *)
Invariant(E, R) == \A w \in DOMAIN R : \A v \in Steps(E, w) : v \in DOMAIN R => R[v] = R[w]
(* Words with the same normal form are equal: no model tells a word from its *)
(* normal form.                                                              *)
Meant(R, K, P, MM) == \A m \in MM : \A w \in DOMAIN R : Acts(m, P, w, R[w])
Settled(R) == \A w \in DOMAIN R : R[w] \in DOMAIN R => R[R[w]] = R[w]
(* A normal form is a least word of its class: no longer than any word it    *)
(* is the normal form of.                                                    *)
Short(R) == \A w \in DOMAIN R : Len(R[w]) <= Len(w)
RECURSIVE Weigh(_, _)
Weigh(wt, w) == IF w = <<>> THEN 0 ELSE wt[w[1]] + Weigh(wt, Tail(w))
Light(wt, R) == \A w \in DOMAIN R : Weigh(wt, R[w]) <= Weigh(wt, w)

(* When the longer sides of the equations do not overlap, each other or      *)
(* themselves, nothing is to be completed.                                   *)
Long(e) == IF Len(e[1]) >= Len(e[2]) THEN e[1] ELSE e[2]
Overlap(a, b) == \E n \in 1..Len(a) : n <= Len(b) /\ SubSeq(a, Len(a) - n + 1, Len(a)) = SubSeq(b, 1, n)
Inside(a, b) == \E i \in 0..Len(b) : At(b, i, a)
Plain(E) == /\ \A k \in DOMAIN E : Len(E[k][1]) # Len(E[k][2])
            /\ \A j, k \in DOMAIN E : j # k => ~Overlap(Long(E[j]), Long(E[k])) /\ ~Inside(Long(E[j]), Long(E[k]))
            /\ \A k \in DOMAIN E : LET u == Long(E[k]) IN \A n \in 1..Len(u) - 1 :
                  SubSeq(u, Len(u) - n + 1, Len(u)) # SubSeq(u, 1, n)

(* Combinations of sequences of lengths n: every one, once, the first ones   *)
(* with all of the sequences going round together.                           *)
Longest(n) == CHOOSE x \in {n[i] : i \in DOMAIN n} : \A i \in DOMAIN n : n[i] <= x
Together(n, k) == [i \in DOMAIN n |-> IF n[i] = -1 THEN k ELSE ((k - 1) % n[i]) + 1]
Total(n) == LET F[i \in 0..Len(n)] == IF i = 0 THEN 1 ELSE F[i - 1] * n[i] IN F[Len(n)]
All(n, r) == IF n = <<>> THEN r = << <<>> >>
             ELSE IF \E i \in DOMAIN n : n[i] = 0 THEN r = <<>>
             ELSE /\ Len(r) = Total(n)
                  /\ \A k \in 1..Longest(n) : r[k] = Together(n, k)
                  /\ \A k \in DOMAIN r : Len(r[k]) = Len(n) /\ \A i \in DOMAIN n : r[k][i] \in 1..n[i]
                  /\ Cardinality({r[k] : k \in DOMAIN r}) = Len(r)
(* The first ones only; length -1: a sequence without end.                   *)
Some(n, k, r) == Len(r) = k /\ \A j \in 1..k : r[j] = Together(n, j)

(* One event: o what was asked, a of what, r the answer.                     *)
(*   rules   a: letters, equations, weights of the letters; r: 1, or 0 when  *)
(*           completion was given up                                         *)
(*   reduce  a: words; r: their normal forms                                 *)
(*   same    a: two words; r: 1 if they are called equal                     *)
(*   perm    a: lengths; r: combinations         first  a: lengths, number   *)
WStart == [k |-> 0, eqs |-> <<>>, wt |-> <<>>, form |-> <<>>, done |-> FALSE]
Points(k) == IF k > 2 THEN 2 ELSE 3
WAnswer(st, e) ==
  CASE e.o = "rules" -> [st |-> [k |-> e.a[1], eqs |-> e.a[2], wt |-> e.a[3], form |-> <<>>, done |-> e.r = 1],
                         ok |-> e.r = 1 \/ ~Plain(e.a[2])]
    [] e.o = "reduce" ->
         LET R == [w \in {e.a[i] : i \in DOMAIN e.a} |-> e.r[CHOOSE i \in DOMAIN e.a : e.a[i] = w]]
         IN [st |-> [st EXCEPT !.form = R],
             ok |-> /\ st.done /\ Len(e.r) = Len(e.a)
                    /\ Invariant(st.eqs, R) /\ Settled(R) /\ Light(st.wt, R)
                    /\ Meant(R, st.k, Points(st.k), Models(st.eqs, st.k, Points(st.k)))]
    [] e.o = "same" -> [st |-> st, ok |-> e.a[1] \in DOMAIN st.form /\ e.a[2] \in DOMAIN st.form
                                          /\ e.r = (IF st.form[e.a[1]] = st.form[e.a[2]] THEN 1 ELSE 0)]
    [] e.o = "perm" -> [st |-> st, ok |-> All(e.a, e.r)]
    [] e.o = "first" -> [st |-> st, ok |-> Some(e.a[1], e.a[2], e.r)]
    [] OTHER -> [st |-> st, ok |-> FALSE]
=============================================================================
