------------------------------ MODULE MCTables ------------------------------
(* Every listing of up to 7 lines with every page size and every set of     *)
(* lines after which a page may end, walked in every way; every pair of     *)
(* small tables.                                                            *)
EXTENDS Tables, TLC
VARIABLES st, shown
vars == <<st, shown>>
Listing == \E n \in 0..7, m \in 1..3, any \in BOOLEAN, s \in SUBSET (0..6) :
  st = [Start EXCEPT !.pages = <<First(0, n, m, IF any THEN <<-1>> ELSE LET RECURSIVE q(_)
                                              q(i) == IF i > 6 THEN <<>> ELSE IF i \in s THEN <<i>> \o q(i + 1) ELSE q(i + 1)
                                          IN q(0))>>]
Init == Listing /\ shown = <<>>
P == Len(st.pages)
More == /\ P < 9 /\ st' = Answer(st, [o |-> "more", a |-> <<P>>, r |-> 0]).st
        /\ shown' = shown \o [i \in 1..(st.pages[P].upto - st.pages[P].from) |-> st.pages[P].from + i - 1]
Next == More
Spec == Init /\ [][Next]_vars
\* Asking for more shows every line once and in order, and ends.
InOrder == \A i \in 1..Len(shown) : shown[i] = i - 1
Complete == P = 9 => Len(shown) = st.pages[1].n
Within == LET g == st.pages[P] IN /\ st.pages[P].from = Len(shown)
  /\ g.stops = <<-1>> => st.pages[P].upto - st.pages[P].from <= g.max + 1
  /\ (st.pages[P].from < g.n => st.pages[P].upto > st.pages[P].from)
  /\ (g.stops = <<-1>> /\ st.pages[P].upto - st.pages[P].from = g.max + 1 => st.pages[P].upto = g.n)
Again == \A p \in 2..P : st.pages[p].prev = p - 1 /\ Answer(st, [o |-> "prev", a |-> <<p>>, r |-> 0]).st.pages[P + 1] = st.pages[p - 1]

\* Differences: there is one, and its totals are the differences of the totals.
RowsOf == UNION {[1..k -> {Row(c, s, l, {}) : c \in {1, 2}, s \in {8, 24}, l \in {1, 2}}] : k \in 0..2}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET r == CHOOSE r \in S : \A q \in S : Abs(r.s) >= Abs(q.s) IN <<r>> \o Sorted(S \ {r})
DiffOf(a, b) == Sorted({r \in {Row(Sums(a, l)[1] - Sums(b, l)[1], Sums(a, l)[2] - Sums(b, l)[2], l, {}) : l \in Labels(a) \cup Labels(b)} : r.c # 0 \/ r.s # 0})
ASSUME \A a \in RowsOf, b \in RowsOf :
  LET d == DiffOf(a, b)
  IN /\ DiffRight(a, b, d)
     /\ Total(d, "c") = Total(a, "c") - Total(b, "c") /\ Total(d, "s") = Total(a, "s") - Total(b, "s")
     /\ (d = <<>>) = (\A l \in {1, 2} : Sums(a, l) = Sums(b, l))
\* The remainder is a row in its place.
Brief(t, n, by) ==
  LET R == [i \in 1..Len(t.rows) |-> <<t.rows[i].c, t.rows[i].s, t.rows[i].l>>]
  IN SubSeq(R, 1, IF n < Len(R) THEN n ELSE Len(R))
ASSUME \A a \in RowsOf : Len(a) = 2 /\ a[1].s >= a[2].s =>
  LET t == Table(a, "Set", Unknown, 0, 0)
      o == <<a[2].c, a[2].s, -1>>
  IN /\ OtherRight(t, 2, "Size", Brief(t, 2, "Size"))
     /\ OtherRight(t, 1, "Size", IF a[1].s >= a[2].s THEN <<Brief(t, 1, "Size")[1], o>> ELSE <<o, Brief(t, 1, "Size")[1]>>)
     /\ ~OtherRight(t, 1, "Size", <<o, Brief(t, 1, "Size")[1]>>)
=============================================================================
