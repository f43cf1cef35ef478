------------------------------ MODULE MCHeap ------------------------------
(* Every graph over a few objects with every choice of hidden objects: the  *)
(* answers obey the definitions they are meant to satisfy.                   *)
EXTENDS Heap, TLC
CONSTANTS N, SmallHid
V == 1..N
VARIABLE st
Graphs == [V -> SUBSET V]
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
Init == \E g \in Graphs, h \in SUBSET (IF SmallHid THEN {2} ELSE V \ {1}) : \E o \in SUBSET h :
          st = [adj |-> [i \in V |-> SeqOf(g[i])], hid |-> h, opq |-> o, root |-> 1, lo |-> {}, hi |-> {}]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
\* A chain of references from S to x that stays out of A, whose inner members
\* are visible: by induction over its length, independent of Closure.
RECURSIVE Chain(_, _, _, _)
Chain(S, x, A, n) ==
  \/ x \in S /\ x \notin A
  \/ /\ n > 0 /\ x \notin A
     /\ \E y \in V : (y \notin st.hid \/ y \in S) /\ x \in Out(st, y) /\ Chain(S, y, A, n - 1)
ReachIsChain == \A S, A \in SUBSET V : Reach(st, S, A) = {x \in V \ st.hid : Chain(S, x, A, N)}
ReachXLaw == \A S, A \in SUBSET V :
    LET base == Closure(st, S \ A, S \ A, A, FALSE)
    IN ReachX(st, S, A) =
         ((base \cup (S \cap A) \cup {x \in A : \E y \in base : (y \notin st.hid \/ y \in S) /\ x \in Out(st, y)}) \ st.hid)
Additive == \A S, T, A \in SUBSET V : Reach(st, S \cup T, A) = Reach(st, S, A) \cup Reach(st, T, A)
Antitone == \A S, A \in SUBSET V : \A x \in V : Reach(st, S, A \cup {x}) \subseteq Reach(st, S, A)
\* The dominated set as it is computed is the dominated set as it is defined.
DominosLaw == st.hid = {} => \A X \in SUBSET V :
                DominosOf(st, X, X) = Dominated(st, X)
\* Sets considered together share what none of them dominates alone.
DominosTogether == st.hid = {} => \A X, Y \in SUBSET V :
    /\ DominosOf(st, X, X \cup Y) \subseteq Dominated(st, X \cup Y)
    /\ X \cap Y = {} => DominosOf(st, X, X \cup Y) \cap DominosOf(st, Y, X \cup Y) = {}
\* Every way from the root to a member of X leads through an immediate dominator.
ImDomLaw == st.hid = {} => \A X \in SUBSET V : LET M == ImDom(st, X) IN
    /\ M \subseteq Referrers(st, X)
    /\ 1 \notin X => Reach(st, {1}, M) \cap X = {}
    /\ \A m \in M : m = 1 \/ \E p \in Pred(st, m) : p \in Reach(st, {1}, Referrers(st, X))
ReferrersLaw == st.hid = {} => \A X \in SUBSET V :
    \A y \in V : y \in Referrers(st, X) <=> (y \in HeapOf(st) /\ Out(st, y) \cap (X \ {1}) # {})
=============================================================================
