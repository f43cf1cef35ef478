------------------------------ MODULE MCHiding ------------------------------
(* The view keeps what it found out about each type, by address, and        *)
(* derives it for a new type from what it keeps about the base.  A type     *)
(* that dies takes its entry along, so that a new type at its address       *)
(* starts afresh, and a registration reaches the entries of subclasses.      *)
(* An entry tells whether the type is hidden (hi) and whether the tags of    *)
(* its instances and those of its subclasses are checked (he).              *)
EXTENDS Hiding
CONSTANTS NCls, NAddr
VARIABLES st, n, at, xt     \* at: live class -> address; xt: address -> [hi, he]
vars == <<st, n, at, xt>>
Live == DOMAIN at
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Def(s, c) == [hi |-> s.reg[c] = "HI", he |-> TagChecked(s, c)]

\* Looking up a class fills in its bases first.
RECURSIVE Filled(_, _)
Filled(x, c) ==
  IF c = 0 \/ at[c] \in DOMAIN x THEN x
  ELSE LET y == Filled(x, st.base[c])
           b == st.base[c]
       IN Ext(y, at[c], [hi |-> FALSE, he |-> b # 0 /\ y[at[b]].he])

Init == st = Start /\ n = 1 /\ at = <<>> /\ xt = <<>>
NewClass == /\ n <= NCls
            /\ \E a \in (1..NAddr) \ {at[c] : c \in Live}, b \in Live \cup {0} :
                 /\ st' = NewNode(st, n + 1, 0, b, <<>>) /\ n' = n + 1 /\ at' = Ext(at, n + 1, a) /\ xt' = xt
Look == \E c \in Live : xt' = Filled(xt, c) /\ UNCHANGED <<st, n, at>>
Register == \E c \in Live, k \in {"HI", "HE"} :
  /\ MayRegister(st, c)
  /\ st' = [st EXCEPT !.reg[c] = k]
  /\ LET x == Filled(xt, c)
     IN xt' = [a \in DOMAIN x |->
                 [hi |-> x[a].hi \/ (k = "HI" /\ a = at[c]),
                  he |-> x[a].he \/ (k = "HE" /\ \E d \in Live : at[d] = a /\ c \in Kinship(st, d))]]
  /\ UNCHANGED <<n, at>>
Dies == \E c \in Live :
  /\ \A d \in Live \ {c} : st.base[d] # c
  /\ xt' = Without(xt, at[c]) /\ at' = Without(at, c) /\ UNCHANGED <<st, n>>
Next == NewClass \/ Look \/ Register \/ Dies
Spec == Init /\ [][Next]_vars
Exact == \A c \in Live : at[c] \in DOMAIN xt => xt[at[c]] = Def(st, c)
Refusal == \A c \in Live : MayRegister(st, c) <=> Def(st, c) = [hi |-> FALSE, he |-> FALSE]
NoStale == DOMAIN xt \subseteq {at[c] : c \in Live}
=============================================================================
