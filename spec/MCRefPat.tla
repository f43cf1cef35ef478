----------------------------- MODULE MCRefPat -----------------------------
(* Every graph of N objects, with the first as the root, every way to class *)
(* them, every set to start from: the tree that the specification grows is  *)
(* the one it accepts, whichever way ties are ordered, and is finite.       *)
EXTENDS RefPat, TLC
CONSTANTS N, Depths
VARIABLES h, p
vars == <<h, p>>
All == 1..N
H(g) == [adj |-> [i \in All |-> LET RECURSIVE q(_)
                                    q(j) == IF j > N THEN <<>> ELSE IF <<i, j>> \in g THEN <<j>> \o q(j + 1) ELSE q(j + 1)
                                IN q(1)], hid |-> {}, opq |-> {}, root |-> 1, lo |-> {}, hi |-> {}]
Init == /\ \E g \in SUBSET (All \X All) : h = H(g)
        /\ \E X \in SUBSET All \ {{}}, d \in Depths, nc \in BOOLEAN, S \in {{}, {2}}, c \in {[i \in All |-> i], [i \in All |-> IF i < N THEN 1 ELSE 2]} :
             p = [set |-> X, depth |-> d, how |-> "referrers", nocyc |-> nc, stop |-> [i \in All |-> IF i \in S THEN 1 ELSE 0],
                  cls |-> c, size |-> [i \in All |-> IF i = 1 THEN 2 ELSE 1]]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Tree(L) == /\ Right(h, p, L)
           \* every class of referrers is below a line that shows the class it refers to, once
           /\ \A i \in 1..Len(L) : Len(L[i].ix) <= p.depth
           /\ \A i, j \in 1..Len(L) : i # j /\ L[i].set = L[j].set => ~(Expands(p, L, i) /\ Expands(p, L, j))
           /\ \A i \in 1..Len(L) : L[i].seen # -1 => L[L[i].seen + 1].set = L[i].set /\ L[i].seen + 1 < i
           \* dropping or exchanging lines is noticed
           /\ Len(L) > 1 => ~Right(h, p, SubSeq(L, 1, Len(L) - 1))
           /\ \A i \in 2..Len(L) : L[i].set # L[1].set => ~Right(h, p, [L EXCEPT ![i].set = L[1].set])
Holds == Tree(Grow(h, p, <<>>, <<>>, p.set, TRUE)) /\ Tree(Grow(h, p, <<>>, <<>>, p.set, FALSE))
=============================================================================
