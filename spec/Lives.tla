------------------------------- MODULE Lives -------------------------------
(* What the analysed program is entitled to: its objects, the references     *)
(* among them, and the moment each of them dies.  Analysis is a step that    *)
(* changes nothing; while one of its results is kept the objects in it may   *)
(* have more references and live longer, and no longer than that.            *)
(*                                                                           *)
(* held    objects the program has a reference of its own to                 *)
(* out     the references every object holds, a sequence (a bag) of objects  *)
(* base    references from elsewhere, per object; -1 as long as unknown      *)
(* watched objects whose death is announced; dead: those announced           *)
(* kept    results of the analysis that are kept                             *)
EXTENDS Integers, Sequences, FiniteSets
SetOf(s) == {s[i] : i \in DOMAIN s}
LStart == [held |-> {}, out |-> <<>>, base |-> <<>>, watched |-> {}, dead |-> {}, kept |-> 0, env |-> -1, torn |-> {}]
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Bag(s) == [x \in SetOf(s) |-> Times(s, x)]
Without(s, x) == LET i == CHOOSE i \in DOMAIN s : s[i] = x IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Objects(st) == DOMAIN st.out \ st.torn
RECURSIVE Spread(_, _, _)
Spread(st, seen, front) == IF front = {} THEN seen
                           ELSE LET next == UNION {SetOf(st.out[x]) : x \in front} \ seen
                                IN Spread(st, seen \cup next, next)
Alive(st) == Spread(st, st.held, st.held)
(* What dies at once: objects nothing alive refers to, one after the other.  *)
RECURSIVE Cascade(_, _)
Cascade(st, gone) ==
  LET rest == Objects(st) \ gone
      kept == st.held \cup UNION {SetOf(st.out[x]) : x \in rest}
      more == rest \ kept
  IN IF more = {} THEN gone ELSE Cascade(st, gone \cup more)
References(st, from, x) ==
  LET F[i \in 0..Len(st.out)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF i \in from THEN Times(st.out[i], x) ELSE 0)
  IN F[Len(st.out)]
Bury(st, gone) == [st EXCEPT !.torn = @ \cup gone, !.dead = @ \cup (gone \cap st.watched)]

(* Steps of the program *)
New(st, n, refs) == [st EXCEPT !.out = Append(@, refs), !.held = @ \cup {n}, !.base = Append(@, -1)]
Link(st, a, b) == [st EXCEPT !.out[a] = Append(@, b)]
Unlink(st, a, b) == [st EXCEPT !.out[a] = Without(@, b)]
Release(st, S) == LET s == [st EXCEPT !.held = @ \ S] IN IF st.kept = 0 THEN Bury(s, Cascade(s, {})) ELSE s
Cut(st, a, b) == LET s == Unlink(st, a, b) IN IF st.kept = 0 THEN Bury(s, Cascade(s, {})) ELSE s
(* After a collection the objects out of reach are gone. *)
Collect(st) == IF st.kept = 0 THEN Bury(st, Objects(st) \ Alive(st)) ELSE st

(* Events: o, a, r, and d the deaths announced since the event before.       *)
Fell(st, s, e) == CASE s.kept = 0 -> SetOf(e.d) = s.dead \ st.dead
                    [] OTHER -> /\ SetOf(e.d) \cap Alive(s) = {}
                                /\ SetOf(e.d) \subseteq st.watched \ st.dead
Known(st, s, e) == [s EXCEPT !.dead = @ \cup SetOf(e.d), !.torn = @ \cup SetOf(e.d)]
LAnswer(st, e) ==
  LET s == CASE e.o = "new" -> New(st, e.a[1], e.a[2])
             [] e.o = "link" -> Link(st, e.a[1], e.a[2])
             [] e.o = "unlink" -> Cut(st, e.a[1], e.a[2])
             [] e.o = "release" -> Release(st, SetOf(e.a))
             [] e.o = "collect" -> Collect(st)
             [] e.o = "watch" -> [st EXCEPT !.watched = SetOf(e.a)]
             [] e.o = "keep" -> [st EXCEPT !.kept = @ + 1]
             \* the results go, and a collection follows
             [] e.o = "drop" -> Collect([st EXCEPT !.kept = 0])
             [] e.o = "count" -> IF st.kept # 0 THEN st
                                 ELSE [st EXCEPT !.base = [x \in DOMAIN @ |->
                                         IF @[x] = -1 /\ \E i \in DOMAIN e.a : e.a[i] = x
                                         THEN e.r[CHOOSE i \in DOMAIN e.a : e.a[i] = x] - References(st, Objects(st), x) ELSE @[x]]]
             [] e.o = "env" -> [st EXCEPT !.env = IF @ = -1 THEN e.r ELSE @]
             [] OTHER -> st
      ok == CASE e.o = "count" -> \A i \in DOMAIN e.a : IF st.kept = 0 THEN e.r[i] = s.base[e.a[i]] + References(st, Objects(st), e.a[i])
                                                   ELSE e.r[i] >= s.base[e.a[i]] + References(st, Alive(st), e.a[i])
              [] e.o = "look" -> Bag(e.r) = Bag(st.out[e.a[1]])
              [] e.o = "env" -> e.r = s.env
              \* repeated, it does not need more memory every time
              [] e.o = "again" -> \E i \in 1..Len(e.r) - 1 : e.r[i + 1] <= e.r[i]
              [] OTHER -> e.o \in {"new", "link", "unlink", "release", "collect", "watch", "keep", "drop", "analyse"}
  IN [ok |-> ok /\ Fell(st, s, e), st |-> IF s.kept = 0 THEN s ELSE Known(st, s, e)]
=============================================================================
