------------------------------- MODULE Names -------------------------------
(* The names of references: how one object leads to another.  An object has  *)
(*   ty    its class, when that is an object of the graph (else 0)             *)
(*   attr  its attribute dictionary (0: none)                                 *)
(*   via   the mapping it shows the items of (0: none)                        *)
(*   seq   its items by position                                              *)
(*   map   its items by key, in order: <<name of key, key (or 0), value>>     *)
(*   set   its elements, and ord their iteration order when it was observed   *)
(*   fix   parts with a name of their own: <<code, name, part>>               *)
(* Names are <<code, text>> with the codes of guppy.heapy.Path.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Attribute == 1
IndexVal == 2
IndexKey == 3
InterAttr == 4
HasAttr == 5
LocalVar == 6
Cell == 7
Stack == 8
InSet == 9

Start == <<>>
ObjS(ty, attr, via, seq, map, fix, str) ==
  [str |-> str, ty |-> ty, attr |-> attr, via |-> via, seq |-> seq, map |-> map, set |-> {}, ord |-> <<>>, fix |-> fix]
Obj(ty, attr, via, seq, map, fix) == ObjS(ty, attr, via, seq, map, fix, 0)
SetOf(q) == {q[i] : i \in 1..Len(q)}
Ix(q) == 1..Len(q)
IsPerm(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)

----------------------------------------------------------------------------
\* All names by which s leads to t.
ItemNames(st, m, t, kc, vc) ==
  LET M == st[m].map
  IN {<<kc, ToString(i - 1)>> : i \in {i \in Ix(M) : M[i][2] = t}}
     \cup {<<vc, M[i][1]>> : i \in {i \in Ix(M) : M[i][3] = t}}
Rel(st, s, t) ==
  LET x == st[s]
  IN (IF x.ty = t THEN {<<InterAttr, "ob_type">>} ELSE {})
     \cup {<<IndexVal, ToString(i - 1)>> : i \in {i \in Ix(x.seq) : x.seq[i] = t}}
     \cup ItemNames(st, s, t, IndexKey, IndexVal)
     \cup (IF x.via = 0 THEN {} ELSE ItemNames(st, x.via, t, IndexKey, IndexVal))
     \cup (IF x.attr = 0 THEN {}
           ELSE ItemNames(st, x.attr, t, HasAttr, Attribute)
                \cup (IF x.attr = t THEN {<<Attribute, "__dict__">>} ELSE {}))
     \cup {<<InSet, ToString(i - 1)>> : i \in {i \in Ix(x.ord) : x.ord[i] = t}}
     \cup {<<x.fix[i][1], x.fix[i][2]>> : i \in {i \in Ix(x.fix) : x.fix[i][3] = t}}
Held(st, s, keys) ==
  LET x == st[s]
  IN ({x.ty, x.attr} \cup SetOf(x.seq) \cup x.set \cup keys
      \cup {x.map[i][3] : i \in Ix(x.map)}
      \cup {x.fix[i][3] : i \in {i \in Ix(x.fix) : x.fix[i][1] # Cell}}) \ {0}
\* What s holds itself.  (The contents of a cell belong to the cell.  Keys
\* that are strings are not always seen by Python's traversal: only Seen is
\* sure to be seen.)
Direct(st, s) == Held(st, s, {st[s].map[i][2] : i \in Ix(st[s].map)})
Seen(st, s) ==
  Held(st, s, {k \in {st[s].map[i][2] : i \in Ix(st[s].map)} \ {0} : st[k].str = 0})

\* Following a name.
Deref(st, s, n) ==
  LET x == st[s]
      At(q, i) == {q[j] : j \in {j \in Ix(q) : ToString(j - 1) = i}}
      Keys(M, i) == {M[j][2] : j \in {j \in Ix(M) : ToString(j - 1) = i}}
      Vals(M, k) == {M[j][3] : j \in {j \in Ix(M) : M[j][1] = k}}
      map(m) == IF m = 0 THEN <<>> ELSE st[m].map
  IN (CASE n[1] = IndexVal -> At(x.seq, n[2]) \cup Vals(x.map, n[2]) \cup Vals(map(x.via), n[2])
        [] n[1] = IndexKey -> Keys(x.map, n[2]) \cup Keys(map(x.via), n[2])
        [] n[1] = HasAttr -> Keys(map(x.attr), n[2])
        [] n[1] = InSet -> At(x.ord, n[2])
        [] n[1] = Attribute -> Vals(map(x.attr), n[2])
                               \cup (IF n[2] = "__dict__" THEN {x.attr} ELSE {})
        [] OTHER -> {})
     \cup (IF n = <<InterAttr, "ob_type">> THEN {x.ty} ELSE {})
     \cup {x.fix[i][3] : i \in {i \in Ix(x.fix) : <<x.fix[i][1], x.fix[i][2]>> = n}}

----------------------------------------------------------------------------
Ins(q, i, v) == SubSeq(q, 1, i - 1) \o <<v>> \o SubSeq(q, i, Len(q))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Put(M, k, kn, v) ==
  IF \E i \in Ix(M) : M[i][1] = k
  THEN [i \in Ix(M) |-> IF M[i][1] = k THEN <<k, M[i][2], v>> ELSE M[i]]
  ELSE Append(M, <<k, kn, v>>)
Drop(M, k) == SelectSeq(M, LAMBDA e : e[1] # k)
Fix(F, c, n, t) ==
  LET G == SelectSeq(F, LAMBDA e : <<e[1], e[2]>> # <<c, n>>)
  IN IF t = 0 THEN G ELSE Append(G, <<c, n, t>>)

Change(st, e) ==
  LET a == e.a n == a[1]
  IN CASE e.o = "new" -> Append(st, ObjS(a[2], a[3], a[4], a[5], a[6], a[7], a[8]))
       [] e.o = "ins" -> [st EXCEPT ![n].seq = Ins(@, a[2], a[3])]
       [] e.o = "del" -> [st EXCEPT ![n].seq = Del(@, a[2])]
       [] e.o = "put" -> [st EXCEPT ![n].map = Put(@, a[2], a[3], a[4])]
       [] e.o = "drop" -> [st EXCEPT ![n].map = Drop(@, a[2])]
       [] e.o = "sadd" -> [st EXCEPT ![n].set = @ \cup {a[2]}, ![n].ord = <<>>]
       [] e.o = "sdel" -> [st EXCEPT ![n].set = @ \ {a[2]}, ![n].ord = <<>>]
       [] e.o = "attr" -> [st EXCEPT ![n].attr = a[2]]
       [] e.o = "fix" -> [st EXCEPT ![n].fix = Fix(@, a[2], a[3], a[4])]
IsChange(e) == e.o \in {"new", "ins", "del", "put", "drop", "sadd", "sdel", "fix", "attr"}

\* Pairs: names of each pair listed once
Listed(r, S) == Len(r) = Cardinality(S) /\ {<<r[i][1], r[i][2]>> : i \in Ix(r)} = S
Want(st, e) ==
  LET a == e.a
  IN CASE e.o = "order" -> st[a[1]].set
       [] e.o = "rel" -> Rel(st, a[1], a[2])
       [] e.o = "direct" -> Direct(st, a[1])
       [] e.o = "eval" -> {a[2]}
Agrees(st, e) ==
  LET a == e.a r == e.r
  IN /\ e.d = <<>>
     /\ CASE e.o = "order" -> IsPerm(r, st[a[1]].set)
          [] e.o = "rel" -> Listed(r, Rel(st, a[1], a[2]))
          [] e.o = "direct" -> Seen(st, a[1]) \subseteq SetOf(r) /\ SetOf(r) \subseteq Direct(st, a[1])
          [] e.o = "eval" -> SetOf(r) \subseteq {a[2]}
After(st, e) == IF e.o = "order" THEN [st EXCEPT ![e.a[1]].ord = e.r] ELSE st
=============================================================================
