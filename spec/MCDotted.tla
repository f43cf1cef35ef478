----------------------------- MODULE MCDotted -----------------------------
(* Every small tree is read back from its text, and every small text that    *)
(* can be read stands for a tree.                                            *)
EXTENDS Dotted
CONSTANTS Wide, Nodes, Lines
VARIABLES kind, x
vars == <<kind, x>>
Words(n) == UNION {[1..k -> 1..3] : k \in 0..n}
Tags == {<<w>> : w \in Words(Wide)} \cup {<<v, w>> : v \in Words(1), w \in Words(Wide)}
Init == kind = "none" /\ x = <<>>
Next ==
  \/ /\ kind \in {"none", "tree"} /\ Len(x) < Nodes
     /\ \E t \in Tags, d \in 0..Nodes :
          /\ IF x = <<>> THEN d = 0 ELSE d \in 1..x[Len(x)].d + 1
          /\ x' = Append(x, [d |-> d, t |-> t])
     /\ kind' = "tree"
  \/ /\ kind \in {"none", "text"} /\ Len(x) < Lines
     /\ \E w \in Words(Wide) : x' = Append(x, w)
     /\ kind' = "text"
Spec == Init /\ [][Next]_vars
Back == kind = "tree" => LET s == Unparse(x) IN Legal(s) /\ Same(Parse(s), x)
Stable == kind = "text" /\ Legal(x) => Tree(Parse(x)) /\ Same(Parse(Unparse(Parse(x))), Parse(x))
Refused == kind = "text" /\ ~Legal(x) => Fault(x) \in 0..Len(x) - 1
=============================================================================
