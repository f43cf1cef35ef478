------------------------------ MODULE Profile ------------------------------
(* Files of samples and their readers.  A file is written in chunks         *)
(* <<s, from, to, len>>: the bytes from..to of sample s, which has len      *)
(* bytes; s = 0 is something that is no sample.  A reader has seen a        *)
(* sequence of samples, and after every reading has seen exactly the        *)
(* samples that are wholly in the file.                                     *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == [here |-> FALSE, full |-> <<>>, cur |-> 0, pos |-> 0, bad |-> FALSE]
Empty == [Nothing EXCEPT !.here = TRUE]
Lazy == <<-1>>                      \* not read yet; will be when needed
Start == [files |-> [f \in 1..3 |-> Nothing], readers |-> <<>>, sizes |-> <<>>]

Append1(f, c) ==
  IF c[1] = 0 THEN [f EXCEPT !.bad = TRUE]
  ELSE IF (f.cur = 0 /\ c[2] = 0) \/ (f.cur = c[1] /\ f.pos = c[2])
       THEN IF c[3] = c[4] THEN [f EXCEPT !.full = Append(@, c[1]), !.cur = 0, !.pos = 0]
                           ELSE IF c[3] = 0 THEN f
                           ELSE [f EXCEPT !.cur = c[1], !.pos = c[3]]
       ELSE [f EXCEPT !.bad = TRUE]
RECURSIVE Fill(_, _, _)
Fill(f, cs, i) == IF i > Len(cs) THEN f ELSE Fill(Append1(f, cs[i]), cs, i + 1)

\* What a writer does: <<how, file, chunks>>
Write(files, w) ==
  [files EXCEPT ![w[2]] = CASE w[1] = "put" -> Fill(IF @.here THEN @ ELSE Empty, w[3], 1)
                            [] w[1] = "set" -> Fill(Empty, w[3], 1)
                            [] w[1] = "gone" -> Nothing]
\* The states a file goes through: the one before, and after each write.
RECURSIVE Course(_, _, _)
Course(files, ws, i) == <<files>> \o (IF i > Len(ws) THEN <<>> ELSE Course(Write(files, ws[i]), ws, i + 1))

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Biggest(st, seen) ==
  LET S == {st.sizes[seen[i]] : i \in 1..Len(seen)}
  IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : m >= n
No(st) == [ok |-> FALSE, st |-> st]
Yes(st, b) == [ok |-> b, st |-> st]

\* A reading of file f while ws is written: what may be seen
Seen(F, f) == {F[k][f].full : k \in {k \in 1..Len(F) : F[k][f].here /\ ~F[k][f].bad}}
          \cup {<<>> : k \in {k \in 1..Len(F) : F[k][f].here /\ F[k][f].bad}}
Fails(F, f) == \E k \in 1..Len(F) : ~F[k][f].here \/ F[k][f].bad

Answer(st, e) ==
  CASE e.o = "sample" -> Yes([st EXCEPT !.sizes = Append(@, e.a[1])], e.r = 0)
    [] e.o = "write" -> Yes([st EXCEPT !.files = Write(@, e.a)], TRUE)
    \* A reader made for a file reads it when it is needed.
    [] e.o = "new" -> Yes([st EXCEPT !.readers = Append(@, [f |-> e.a[1], seen |-> IF e.a[1] = 0 THEN <<>> ELSE Lazy])], e.r = 0)
    [] e.o = "open" ->
         LET F == Course(st.files, e.a[3], 1)
             s2 == [st EXCEPT !.files = F[Len(F)]]
             n == e.a[1]
         IN IF e.a[2] = 0 THEN Yes([s2 EXCEPT !.readers[n] = [f |-> 0, seen |-> <<>>]], e.r = <<>>)
            ELSE IF e.r = Lazy THEN Yes(s2, Fails(F, e.a[2]))
            ELSE Yes([s2 EXCEPT !.readers[n] = [f |-> e.a[2], seen |-> e.r]], e.r \in Seen(F, e.a[2]))
    [] e.o = "collect" ->
         LET F == Course(st.files, e.a[2], 1)
             s2 == [st EXCEPT !.files = F[Len(F)]]
             r == st.readers[e.a[1]]
             o == e.r[1]
             seen == e.r[3]
         IN IF r.f = 0 THEN Yes(s2, e.r = <<0, 0, <<>>>>)
            ELSE IF o = -1 THEN Yes(s2, Fails(F, r.f))
            ELSE Yes([s2 EXCEPT !.readers[e.a[1]].seen = seen],
                     /\ seen \in Seen(F, r.f)
                     /\ o >= 0 /\ e.r[2] >= 0
                     \* (a reader that was cleared may count, and read only when asked)
                     /\ IF r.seen = Lazy THEN \E x \in Seen(F, r.f) : o + e.r[2] = Len(x)
                                         ELSE o + e.r[2] = Len(seen)
                     \* The old ones are those that had been seen.
                     /\ r.seen # Lazy /\ o > 0 => o = Len(r.seen) /\ Prefix(r.seen, seen))
    [] e.o = "seen" ->
         LET r == st.readers[e.a[1]]
             F == <<st.files>>
         IN IF e.r = Lazy THEN Yes(st, r.seen = Lazy /\ Fails(F, r.f))
            ELSE Yes([st EXCEPT !.readers[e.a[1]].seen = e.r],
                     IF r.seen = Lazy THEN e.r \in Seen(F, r.f) ELSE e.r = r.seen)
    [] e.o = "clear" -> Yes([st EXCEPT !.readers[e.a[1]].seen = IF st.readers[e.a[1]].f = 0 THEN <<>> ELSE Lazy], e.r = 0)
    [] e.o = "len" -> Yes(st, e.r = Len(st.readers[e.a[1]].seen))
    [] e.o = "max" -> Yes(st, e.r = Biggest(st, st.readers[e.a[1]].seen))
    [] e.o = "item" -> Yes(st, LET s == st.readers[e.a[1]].seen
                                   i == e.a[2]
                                   j == IF i < 0 THEN i + Len(s) ELSE i
                               IN IF j >= 0 /\ j < Len(s) THEN e.r = s[j + 1] ELSE e.r = -1)
    [] OTHER -> No(st)
=============================================================================
