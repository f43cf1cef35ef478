------------------------------- MODULE Tables -------------------------------
(* Tables of classes of objects, the statistics made from them, how these   *)
(* are combined, written to and read from files, and how listings are shown *)
(* page by page.                                                            *)
(*                                                                          *)
(* st.tabs   the tables made so far.  A table has rows, each with a count,  *)
(*           a size and a label, and for a partition the objects of each;   *)
(*           a total count and size; a form (Set, Id or Diff); what else is *)
(*           stated about it (kind header, kind name, time; -1: not known   *)
(*           yet); for a difference the totals it is a difference from.     *)
(* st.files  what has been written to each file: numbers of tables          *)
(* st.pages  the pages of listings asked for                                *)
(* Labels are numbers, in the order of their texts.                         *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
RECURSIVE Total(_, _)
Total(q, f) == IF q = <<>> THEN 0 ELSE Head(q)[f] + Total(Tail(q), f)
Cum(rows, i) == Total(SubSeq(rows, 1, i), "s")
Row(c, s, l, m) == [c |-> c, s |-> s, l |-> l, m |-> m]
Table(rows, form, like, bc, bs) ==
  [rows |-> rows, c |-> Total(rows, "c"), s |-> Total(rows, "s"), form |-> form, hdr |-> like.hdr, kn |-> like.kn,
   tm |-> like.tm, bc |-> bc, bs |-> bs]
Unknown == [hdr |-> -1, kn |-> -1, tm |-> -1]
Pick(q, start, n, step) == [k \in 1..n |-> q[start + (k - 1) * step + 1]]

Start == [tabs |-> <<>>, files |-> <<>>, pages |-> <<>>, max |-> 10]

----------------------------------------------------------------------------
(* The table of a partition: X holds what is in the set, <<object, size,    *)
(* class, key>>; rows what is reported, <<index, count, size, cumulative    *)
(* size, label, objects>>.                                                  *)
Classes(X) == {{x[1] : x \in {y \in SetOf(X) : y[3] = c}} : c \in {x[3] : x \in SetOf(X)}}
SizeOf(X, B) == LET RECURSIVE sum(_)
                    sum(q) == IF q = <<>> THEN 0 ELSE (IF Head(q)[1] \in B THEN Head(q)[2] ELSE 0) + sum(Tail(q))
                IN sum(X)
KeyOf(X, o) == (CHOOSE x \in SetOf(X) : x[1] = o)[4]
RowsRight(X, form, rows) ==
  /\ {SetOf(rows[i][6]) : i \in 1..Len(rows)} = Classes(X) /\ Len(rows) = Cardinality(Classes(X))
  /\ \A i \in 1..Len(rows) :
       LET r == rows[i]
       IN /\ r[1] = i - 1 /\ r[2] = Len(r[6]) /\ r[2] = Cardinality(SetOf(r[6])) /\ r[3] = SizeOf(X, SetOf(r[6]))
          /\ r[4] = r[3] + (IF i = 1 THEN 0 ELSE rows[i - 1][4])
          /\ i > 1 => LET p == rows[i - 1]
                      IN \/ p[3] > r[3]
                         \/ p[3] = r[3] /\ (IF form = "Set" THEN p[5] <= r[5]
                                            ELSE KeyOf(X, p[6][1]) <= KeyOf(X, r[6][1]))
Taken(rows) == [i \in 1..Len(rows) |-> Row(rows[i][2], rows[i][3], rows[i][5], SetOf(rows[i][6]))]

(* What a difference consists of.                                           *)
Sums(rows, l) == LET q == SelectSeq(rows, LAMBDA r : r.l = l) IN <<Total(q, "c"), Total(q, "s")>>
Labels(rows) == {rows[i].l : i \in 1..Len(rows)}
DiffRight(a, b, rows) ==
  /\ \A i \in 1..Len(rows) :
       /\ rows[i].l \in Labels(a) \cup Labels(b)
       /\ \A j \in 1..Len(rows) : i < j => rows[i].l # rows[j].l /\ Abs(rows[i].s) >= Abs(rows[j].s)
  /\ \A l \in Labels(a) \cup Labels(b) :
       LET d == <<Sums(a, l)[1] - Sums(b, l)[1], Sums(a, l)[2] - Sums(b, l)[2]>>
       IN IF l \in Labels(rows) THEN Sums(rows, l) = d ELSE d = <<0, 0>>

(* The first rows by size or count, and the rest as one row with label -1.  *)
Key(r, by) == IF by = "Count" THEN r[1] ELSE r[2]
OtherRight(t, n, by, r) ==
  LET R == [i \in 1..Len(t.rows) |-> <<t.rows[i].c, t.rows[i].s, t.rows[i].l>>]
      q == SelectSeq(r, LAMBDA x : x[3] # -1)
      k == IF n < Len(R) THEN n ELSE Len(R)
      times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
      sum(s, f) == LET RECURSIVE g(_)
                       g(i) == IF i = 0 THEN 0 ELSE s[i][f] + g(i - 1)
                   IN g(Len(s))
  IN /\ Len(q) = k
     /\ IF by = "Size" THEN q = SubSeq(R, 1, k)
        ELSE /\ \A i \in 1..Len(q) : times(q, q[i]) <= times(R, q[i])
             /\ \A i \in 2..Len(q) : q[i - 1][1] >= q[i][1]
             /\ \A i \in 1..Len(R) : times(q, R[i]) < times(R, R[i]) => (k > 0 => q[k][1] >= R[i][1])
     /\ Len(r) = Len(q) + (IF n < Len(R) THEN 1 ELSE 0)
     /\ n < Len(R) =>
          LET p == CHOOSE p \in 1..Len(r) : r[p][3] = -1
          IN /\ r[p][1] = t.c - sum(q, 1) /\ r[p][2] = t.s - sum(q, 2)
             /\ \A i \in 1..(p - 1) : Key(r[i], by) >= Key(r[p], by)
             /\ p < Len(r) => Key(r[p + 1], by) < Key(r[p], by)

----------------------------------------------------------------------------
(* Pages.  A page is the listing itself, the continuation of another page,  *)
(* or all of it.  stops: after which lines a page may end; <<-1>>: any.     *)
MayEnd(g, line) == g.stops = <<-1>> \/ line \in SetOf(g.stops)
RECURSIVE EndFrom(_, _, _)
EndFrom(g, from, at) ==   \* lines are numbered from 0; at: the next line
  IF at >= g.n THEN at
  ELSE IF at - from >= g.max /\ MayEnd(g, at - 1) THEN (IF at + 1 = g.n THEN at + 1 ELSE at)
  ELSE EndFrom(g, from, at + 1)
\* A page of a listing of n lines: the first, one after another, or all.
First(tab, n, max, stops) ==
  LET g == [tab |-> tab, kind |-> "top", prev |-> 0, n |-> n, max |-> max, stops |-> stops, from |-> 0, upto |-> 0]
  IN [g EXCEPT !.upto = EndFrom(g, 0, 0)]
After(g, p) == [g EXCEPT !.kind = "more", !.prev = p, !.from = g.upto, !.upto = EndFrom(g, g.upto, g.upto)]
Whole(g, p) == [g EXCEPT !.kind = "all", !.prev = p, !.from = 0, !.upto = g.n]

(* A percentage shown as p, of x in all, in units of 1/u percent.           *)
Near(p, x, all, u) == Abs(p) <= 1000000000 \div (Abs(all) + 1) /\ 2 * Abs(p * Abs(all) - 100 * u * x * (IF all < 0 THEN -1 ELSE 1)) <= Abs(all)
\* a percentage with three significant digits, m * 10 ^ e
RECURSIVE Ten(_)
Ten(e) == IF e = 0 THEN 1 ELSE 10 * Ten(e - 1)
Near3(m, e, x, all) ==
  IF e >= 0 THEN e <= 4 /\ Abs(m) * Ten(e) <= 1000000000 \div all /\ 2 * Abs(m * Ten(e) * all - 100 * x) <= Ten(e) * all
  ELSE IF e < -5 THEN Abs(x) * 100 <= all
  ELSE Abs(x) <= 1000000000 \div (100 * Ten(-e)) /\ 2 * Abs(m * all - 100 * x * Ten(-e)) <= all
LineRight(t, i, w) ==
  LET r == t.rows[i]
      cum == Cum(t.rows, i)
  IN CASE t.form = "Set" -> /\ w[1] = i - 1 /\ w[2] = r.c /\ w[4] = r.s /\ w[6] = cum /\ w[8] = r.l
                            /\ Near(w[3], r.c, t.c, 1) /\ Near(w[5], r.s, t.s, 1) /\ Near(w[7], cum, t.s, 1)
       [] t.form = "Id" -> /\ w[1] = i - 1 /\ w[2] = r.s /\ w[4] = cum /\ w[6] = r.l
                           /\ Near(w[3], r.s, t.s, 10) /\ Near(w[5], cum, t.s, 10)
       [] t.form = "Diff" -> /\ w[1] = i - 1 /\ w[2] = r.c /\ w[3] = r.s /\ w[4] = cum /\ w[7] = r.l
                             /\ IF t.bs = 0 THEN w[5] = 0 /\ w[6] = 99 
                                ELSE IF t.bs < 0 THEN Near3(w[5], w[6], -cum, -t.bs) ELSE Near3(w[5], w[6], cum, t.bs)
\* What is shown: the label (<<>> if none), whether there is a header, the
\* lines, and the number of lines stated to remain (-1 if not stated).
PageRight(st, p, r) ==
  LET g == st.pages[p]
      a == g.from
      b == g.upto
      n == g.n
  IN /\ Len(r.rows) = b - a
     /\ r.hdr = (IF b > a THEN 1 ELSE 0)
     /\ IF g.tab = 0
        THEN /\ \A i \in 1..Len(r.rows) : r.rows[i] = a + i - 1
             /\ r.label = (IF g.kind = "more" THEN <<>> ELSE <<1>>)
             /\ r.more = (IF b < n THEN <<a, b - 1, n>> ELSE <<>>)
             /\ r.empty = (IF b = a THEN 1 ELSE 0)
        ELSE LET t == st.tabs[g.tab]
             IN /\ \A i \in 1..Len(r.rows) : LineRight(t, a + i, r.rows[i])
                /\ r.label = (IF g.kind = "more" THEN <<>>
                              ELSE IF t.form = "Diff" THEN <<t.c + t.bc, t.s + t.bs, t.bc, t.bs, t.c, t.s>>
                              ELSE <<t.c, t.s>>)
                /\ r.more = (IF b < n THEN <<n - b>> ELSE <<>>)

----------------------------------------------------------------------------
Ans(st, ok) == [st |-> st, ok |-> ok]
Add(st, t) == [st EXCEPT !.tabs = Append(@, t)]
Known(t, r) == [t EXCEPT !.hdr = IF @ = -1 THEN r[3] ELSE @, !.kn = IF @ = -1 THEN r[4] ELSE @, !.tm = IF @ = -1 THEN r[6] ELSE @]
Told(t) == <<t.c, t.s, t.hdr, t.kn, t.form, t.tm>>
Cells(t, i) == <<t.rows[i].c, t.rows[i].s, t.rows[i].l, i - 1, Cum(t.rows, i)>>
SameRows(t, from, rows) == Len(rows) = Len(t.rows) - from /\ \A i \in 1..Len(rows) : rows[i] = Cells(t, from + i)
Loaded(t, x) == x[1] = Told(t) /\ SameRows(t, 0, x[2])
Answer(st, e) ==
  LET a == e.a
      r == e.r
      t == IF e.o \in {"row", "rows", "len", "head", "kinds", "other", "set", "slice", "index", "cut", "stat"} THEN st.tabs[a[1]] ELSE 0
  IN
  CASE e.o = "max"  -> Ans([st EXCEPT !.max = a[1]], TRUE)
    \* tables
    [] e.o = "part" -> Ans(Add(st, Table(Taken(r), a[2], Unknown, 0, 0)), RowsRight(a[1], a[2], r))
    [] e.o = "stat" -> Ans(Add(st, t), r = 0)
    [] e.o = "index" -> IF a[2] < -Len(t.rows) \/ a[2] >= Len(t.rows) THEN Ans(st, r = -1)
                        ELSE Ans(Add(st, Table(<<t.rows[(IF a[2] < 0 THEN a[2] + Len(t.rows) ELSE a[2]) + 1]>>, t.form, t, t.bc, t.bs)), r = 0)
    [] e.o = "cut"  -> \* rows from a start, how many, with a step
                       Ans(Add(st, Table(Pick(t.rows, a[2], a[3], a[4]), t.form, t, t.bc, t.bs)), r = 0)
    [] e.o = "diff" -> LET x == st.tabs[a[1]]
                           y == st.tabs[a[2]]
                           rows == [i \in 1..Len(r) |-> Row(r[i][1], r[i][2], r[i][3], {})]
                       IN Ans(Add(st, Table(rows, "Diff", [x EXCEPT !.tm = -1], y.c, y.s)), DiffRight(x.rows, y.rows, rows))
    \* what they say
    [] e.o = "len"  -> Ans(st, r = Len(t.rows))
    [] e.o = "head" -> Ans([st EXCEPT !.tabs[a[1]] = Known(t, r)], Told(Known(t, r)) = r)
    [] e.o = "row"  -> Ans(st, IF a[2] < -Len(t.rows) \/ a[2] >= Len(t.rows) THEN r = <<-1>>
                               ELSE r = Cells(t, (IF a[2] < 0 THEN a[2] + Len(t.rows) ELSE a[2]) + 1))
    [] e.o = "rows" -> Ans(st, SameRows(t, a[2], r))
    [] e.o = "kinds" -> Ans(st, Len(r) = Len(a[2]) /\ \A k \in 1..Len(r) :
                          LET hits == {i \in 1..Len(t.rows) : t.rows[i].l = a[2][k]}
                          IN IF hits = {} THEN r[k] = <<-1>> ELSE r[k] = Cells(t, CHOOSE i \in hits : \A j \in hits : i <= j))
    [] e.o = "other" -> Ans(st, OtherRight(t, a[2], a[3], r))
    \* the objects in a row, or in several
    [] e.o = "set"  -> Ans(st, IF a[2] < -Len(t.rows) \/ a[2] >= Len(t.rows) THEN r = <<-1>>
                               ELSE SetOf(r) = t.rows[(IF a[2] < 0 THEN a[2] + Len(t.rows) ELSE a[2]) + 1].m
                                    /\ Len(r) = Cardinality(SetOf(r)))
    [] e.o = "slice" -> Ans(st, Len(r) = Cardinality(SetOf(r)) /\
                          SetOf(r) = UNION {x.m : x \in SetOf(Pick(t.rows, a[2], a[3], a[4]))})
    [] e.o = "refused" -> Ans(st, r = -1)
    \* files: a table appended; those written read back; one that was cut off
    [] e.o = "dump" -> Ans([st EXCEPT !.files = Put(@, a[2], (IF a[2] \in DOMAIN @ /\ a[3] = "a" THEN @[a[2]] ELSE <<>>) \o <<a[1]>>)], r = 0)
    [] e.o = "load" -> Ans(Add(st, st.tabs[st.files[a[1]][a[2]]]), r = 0)
    [] e.o = "loadall" -> Ans(st, Len(r) = Len(st.files[a[1]]) /\ \A k \in 1..Len(r) : Loaded(st.tabs[st.files[a[1]][k]], r[k]))
    [] e.o = "broken" -> \* of file a[1], a[2] tables are whole
         Ans(st, LET f == st.files[a[1]]
                 IN /\ Len(r) >= a[2] /\ Len(r) <= a[2] + 1
                    /\ \A k \in 1..a[2] : Loaded(st.tabs[f[k]], r[k])
                    /\ Len(r) > a[2] => LET w == r[a[2] + 1][2]
                                            u == st.tabs[f[a[2] + 1]]
                                        IN Len(w) <= Len(u.rows) /\ \A i \in 1..Len(w) : w[i] = Cells(u, i))
    \* pages
    [] e.o = "lines" -> Ans([st EXCEPT !.pages = Append(@, First(0, a[1], a[2], a[3]))], TRUE)
    [] e.o = "top"  -> Ans([st EXCEPT !.pages = Append(@, First(a[1], Len(st.tabs[a[1]].rows), st.max, <<-1>>))], TRUE)
    [] e.o = "more" -> Ans([st EXCEPT !.pages = Append(@, After(st.pages[a[1]], a[1]))], TRUE)
    [] e.o = "all"  -> Ans([st EXCEPT !.pages = Append(@, Whole(st.pages[a[1]], a[1]))], TRUE)
    [] e.o = "prev" -> Ans([st EXCEPT !.pages = Append(@, st.pages[st.pages[a[1]].prev])], TRUE)
    [] e.o = "page" -> Ans(st, PageRight(st, a[1], r))
=============================================================================
