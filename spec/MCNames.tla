------------------------------ MODULE MCNames ------------------------------
(* A list, a dictionary, a set, an instance with its attribute dictionary   *)
(* and a slotted object of a class in the graph, under every short history. *)
EXTENDS Names
CONSTANT MaxOps
VARIABLES st, n
Keys == {"k", "0"}
Init == /\ n = 0
        /\ st = << Obj(0, 0, 0, <<>>, <<>>, <<>>),       \* 1: a list
                   Obj(0, 0, 0, <<>>, <<>>, <<>>),       \* 2: a dict
                   Obj(6, 2, 0, <<>>, <<>>, <<>>),       \* 3: an instance, its attributes in 2
                   Obj(0, 0, 2, <<>>, <<>>, <<<<InterAttr, "mapping", 2>>>>),   \* 4: a proxy of 2
                   Obj(0, 0, 0, <<>>, <<>>, <<>>),       \* 5: a set
                   Obj(0, 0, 0, <<>>, <<>>, <<<<Attribute, "a", 1>>>>) >>       \* 6: a class or slotted thing
V == 1..6
Events ==
  {[o |-> "ins", a |-> <<1, i, v>>] : i \in 1..(Len(st[1].seq) + 1), v \in V}
  \cup {[o |-> "del", a |-> <<1, i>>] : i \in 1..Len(st[1].seq)}
  \cup {[o |-> "put", a |-> <<2, k, 0, v>>] : k \in Keys, v \in V}
  \cup {[o |-> "put", a |-> <<2, "#3", 3, v>>] : v \in {1, 3}}
  \cup {[o |-> "drop", a |-> <<2, k>>] : k \in Keys}
  \cup {[o |-> "sadd", a |-> <<5, v>>] : v \in {3, 6}}
  \cup {[o |-> "fix", a |-> <<6, Attribute, "a", v>>] : v \in 0..2}
Perms(S) == {q \in [1..Cardinality(S) -> S] : IsPerm(q, S)}
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E e \in Events : st' = Change(st, e)
           \/ \E q \in Perms(st[5].set) : st' = After(st, [o |-> "order", a |-> <<5>>, r |-> q])
Spec == Init /\ [][Next]_<<st, n>>
\* Every name is true, every reference has one, and a name means one thing.
Known == st[5].ord # <<>> \/ st[5].set = {}
True == \A s \in V, t \in V : \A m \in Rel(st, s, t) : Deref(st, s, m) = {t}
Complete == Known => \A s \in V : \A t \in Direct(st, s) : Rel(st, s, t) # {}
All == \A s \in V, t \in V : \A m \in Rel(st, s, t) : \A u \in V \ {t} : m \notin Rel(st, s, u)
=============================================================================
