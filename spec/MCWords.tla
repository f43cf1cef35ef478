------------------------------ MODULE MCWords ------------------------------
(* Completion: as long as two rules disagree about a word they both apply    *)
(* to, their results, reduced, become a rule; a rule the others make         *)
(* superfluous may be dropped.  No step changes which words are equal, and   *)
(* when no two rules disagree the normal forms decide equality.              *)
EXTENDS Words, TLC
CONSTANTS K, Side, Eqs, MaxRules, MaxLen, P
VARIABLES eqs, rules
vars == <<eqs, rules>>
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN FALSE ELSE a[1] > b[1] \/ (a[1] = b[1] /\ Lex(Tail(a), Tail(b)))
Gt(a, b) == Len(a) > Len(b) \/ (Len(a) = Len(b) /\ Lex(a, b))
Rule(a, b) == IF Gt(a, b) THEN <<a, b>> ELSE <<b, a>>
Ones(rs, w) == UNION {StepsBy(w, x[1], x[2]) : x \in rs}
RECURSIVE Reduce(_, _)
Reduce(rs, w) == LET S == Ones(rs, w) IN IF S = {} THEN w ELSE Reduce(rs, CHOOSE v \in S : TRUE)
(* what two rules make of the words both apply to *)
Pairs(x, y) ==
  {<<Put(x[1], i, y[1], y[2]), x[2]>> : i \in {i \in 0..Len(x[1]) : At(x[1], i, y[1])}} \cup
  {<<x[2] \o SubSeq(y[1], n + 1, Len(y[1])), SubSeq(x[1], 1, Len(x[1]) - n) \o y[2]>> :
     n \in {n \in 1..Len(x[1]) : n <= Len(y[1]) /\ SubSeq(x[1], Len(x[1]) - n + 1, Len(x[1])) = SubSeq(y[1], 1, n)}}
Critical(rs) == UNION {Pairs(x, y) : x \in rs, y \in rs}
Apart(rs) == {c \in {<<Reduce(rs, c[1]), Reduce(rs, c[2])>> : c \in Critical(rs)} : c[1] # c[2]}
Sides == WordsUpTo(K, Side)
Init == /\ eqs = <<>> /\ rules = {}
Choose == /\ Len(eqs) < Eqs
          /\ \E a, b \in Sides : Gt(a, b) /\ eqs' = Append(eqs, <<a, b>>) /\ rules' = rules \cup {<<a, b>>}
          /\ rules = {eqs[k] : k \in DOMAIN eqs}
Complete == /\ eqs # <<>> /\ Cardinality(rules) < MaxRules
            /\ \E c \in Apart(rules) : /\ Len(c[1]) <= MaxLen /\ Len(c[2]) <= MaxLen
                                       /\ rules' = rules \cup {Rule(c[1], c[2])}
            /\ UNCHANGED eqs
Drop == /\ \E x \in rules : /\ Reduce(rules \ {x}, x[1]) = Reduce(rules \ {x}, x[2])
                            /\ rules' = rules \ {x}
        /\ UNCHANGED eqs
Next == Choose \/ Complete \/ Drop
Spec == Init /\ [][Next]_vars
Sound == \A m \in Models(eqs, K, P) : \A x \in rules : Acts(m, P, x[1], x[2])
Decided == eqs # <<>> /\ Apart(rules) = {} =>
   LET R == [w \in WordsUpTo(K, MaxLen) |-> Reduce(rules, w)]
   IN Invariant(eqs, R) /\ Settled(R) /\ Short(R) /\ Meant(R, K, P, Models(eqs, K, P))
Easy == rules = {Rule(eqs[k][1], eqs[k][2]) : k \in DOMAIN eqs} /\ Plain(eqs) => Apart(rules) = {}
=============================================================================
