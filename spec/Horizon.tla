------------------------------ MODULE Horizon ------------------------------
(* Reference points in time.  Objects are numbered in the order they are     *)
(* created; at[o] is the address of the live object o.  A horizon remembers  *)
(* what was there by address, and forgets an address when the object at it   *)
(* is deallocated; that deallocation is noticed as long as there is any      *)
(* horizon.  A reference set (setref) holds the objects themselves.          *)
EXTENDS Integers, Sequences, FiniteSets
SetOf(q) == {q[i] : i \in 1..Len(q)}
Ran(f) == {f[x] : x \in DOMAIN f}
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

\* hz[h] = [old |-> the objects that existed and still exist, by number,
\*          mem |-> what the horizon remembers, by address]
Start == [at |-> <<>>, hz |-> <<>>, ref |-> {}, patched |-> FALSE]
Alive(st) == DOMAIN st.at
Create(st, o, a) == [st EXCEPT !.at = [x \in DOMAIN st.at \cup {o} |-> IF x = o THEN a ELSE st.at[x]]]
Die(st, o) ==
  [st EXCEPT !.at = Without(st.at, o),
             !.hz = [h \in DOMAIN st.hz |->
                       [old |-> st.hz[h].old \ {o},
                        mem |-> IF st.patched THEN st.hz[h].mem \ {st.at[o]} ELSE st.hz[h].mem]]]
Take(st, h, X) ==
  [st EXCEPT !.hz = [k \in DOMAIN st.hz \cup {h} |->
                       IF k = h THEN [old |-> X, mem |-> {st.at[o] : o \in X}] ELSE st.hz[k]],
             !.patched = TRUE]
Drop(st, h) == LET H == Without(st.hz, h) IN [st EXCEPT !.hz = H, !.patched = H # <<>> /\ DOMAIN H # {}]
News(st, h, X) == X \ st.hz[h].old
\* The same as the implementation finds it
NewsByAddress(st, h, X) == {o \in X : st.at[o] \notin st.hz[h].mem}
SetRef(st, X) == [st EXCEPT !.ref = X]

Answer(st, e) ==
  LET a == e.a
  IN CASE e.o = "new" -> [st |-> Create(st, a[1], a[2]), r |-> 0]
       [] e.o = "die" -> [st |-> Die(st, a[1]), r |-> 0]
       [] e.o = "take" -> [st |-> Take(st, a[1], SetOf(a[2])), r |-> 0]
       [] e.o = "drop" -> [st |-> Drop(st, a[1]), r |-> 0]
       [] e.o = "news" -> [st |-> st, r |-> News(st, a[1], SetOf(a[2]))]
       [] e.o = "setref" -> [st |-> SetRef(st, Alive(st)), r |-> 0]
       [] e.o = "unref" -> [st |-> SetRef(st, {}), r |-> 0]
       [] e.o = "heap" -> [st |-> st, r |-> Alive(st) \ st.ref]
       [] e.o = "slots" -> [st |-> st, r |-> {}]    \* types with a changed deallocator
Agrees(st, e) ==
  LET x == Answer(st, e).r
  IN CASE e.o \in {"news", "heap"} -> SetOf(e.r) = x /\ Len(e.r) = Cardinality(x)
       \* the addresses told are those of distinct objects
       [] e.o = "new" -> e.a[2] \notin Ran(st.at)
       [] e.o = "slots" -> ~st.patched => e.r = <<>>
       [] OTHER -> e.r = x
=============================================================================
