----------------------------- MODULE MCAlgebra -----------------------------
(* Every combination, to some depth, of atoms of which some are exact       *)
(* types, one is a type with its subtypes, one is a size, with a concrete   *)
(* set.                                                                     *)
EXTENDS Integers, FiniteSets
CONSTANT Depth
Un == 1..6
Ats == {"E1", "E2", "L", "S"}
Mean == [E1 |-> {1, 2}, E2 |-> {3, 4}, L |-> {1, 2, 5}, S |-> {1, 3, 5, 6}]
INSTANCE Algebra WITH Universe <- Un, Atoms <- Ats, Means <- Mean, Below <- {<<"E1", "L">>}, Apart <- {<<"E1", "E2">>}
VARIABLES t, d
Base == {At(a) : a \in Ats} \cup {No(a) : a \in {"L", "S"}} \cup {Con({1, 4, 6}), Nothing, Anything}
Second == Base \cup {And(a, b) : a \in Base, b \in Base} \cup {Or(a, b) : a \in Base, b \in Base}
Init == t \in Base /\ d = 1
Next == /\ d < Depth /\ d' = d + 1
        /\ \/ \E b \in Second : t' \in {And(t, b), Or(t, b), Minus(t, b), And(b, t), Or(b, t)}
           \/ t' = Not(t)
           \/ \E b \in Base : t' = Xor(t, b)
Spec == Init /\ [][Next]_<<t, d>>
View == t
Checked == IF d < Depth THEN Second ELSE Base
Sound == \A b \in Checked :
  /\ Den(And(t, b)) = Den(t) \cap Den(b)
  /\ Den(Or(t, b)) = Den(t) \cup Den(b)
  /\ Den(And(b, t)) = Den(t) \cap Den(b)
  /\ Den(Or(b, t)) = Den(t) \cup Den(b)
Complemented == Den(Not(t)) = Un \ Den(t)
Claims == \A b \in Second :
  /\ Le(t, b) => Den(t) \subseteq Den(b)
  /\ Le(b, t) => Den(b) \subseteq Den(t)
  /\ And(t, b) = Nothing => Den(t) \cap Den(b) = {}
  \* equal terms have the same name
  /\ Eq(t, b) => Name(t) = Name(b)
Reflexive == Le(t, t)
=============================================================================
