----------------------------- MODULE MCProfile -----------------------------
(* The protocol of a reader, step by step, against a writer that may write  *)
(* between any two steps: what has been seen after a quiet reading is what  *)
(* is in the file.  Samples have two pieces; 1 and 3 are of equal length.   *)
EXTENDS Profile, TLC
CONSTANTS MaxWrites, MaxLen, StatFirst
VARIABLES file, clock, left, pc, key, pos, sum, seen, got, quiet
vars == <<file, clock, left, pc, key, pos, sum, seen, got, quiet>>
\* The file: who (inode), when (time of last write), pieces <<s, p>>
Pieces(f) == f.data
Whole(d) == LET RECURSIVE w(_)
                w(i) == IF i + 1 > Len(d) THEN <<>> ELSE <<d[i][1]>> \o w(i + 2)
            IN w(1)
Chunks(d) == [i \in 1..Len(d) |-> <<d[i][1], d[i][2] - 1, d[i][2], 2>>]
Key(f) == <<f.who, f.when, Len(f.data)>>
Init == /\ file = [who |-> 1, when |-> 0, data |-> <<>>] /\ clock = 1 /\ left = MaxWrites
        /\ pc = "idle" /\ key = <<0, 0, 0>> /\ pos = 0 /\ sum = <<<<9, 9>>>> /\ seen = <<>> /\ got = <<>> /\ quiet = FALSE
Data == {d \in UNION {[1..n -> {1, 2} \X {1, 2}] : n \in 0..MaxLen} : \A i \in 1..Len(d) : d[i][2] = ((i - 1) % 2) + 1 /\ (i % 2 = 0 => d[i][1] = d[i - 1][1])}
Writer == /\ left > 0 /\ left' = left - 1 /\ clock' = clock + 1
          /\ \/ \E s \in 1..2 : /\ Len(file.data) < MaxLen
                                /\ LET d == file.data
                                       c == IF Len(d) % 2 = 1 THEN <<d[Len(d)][1], 2>> ELSE <<s, 1>>
                                   IN file' = [file EXCEPT !.data = Append(d, c), !.when = clock]
             \/ \E d \in Data : file' = [who |-> file.who, when |-> clock, data |-> d]
             \/ \E d \in Data : file' = [who |-> clock + 10, when |-> clock, data |-> d]
          /\ quiet' = FALSE
          /\ UNCHANGED <<pc, key, pos, sum, seen, got>>
\* The reader
Begin == /\ pc = "idle"
         /\ quiet' = TRUE
         /\ IF Key(file) = key THEN pc' = "idle" ELSE pc' = "open"
         /\ UNCHANGED <<file, clock, left, key, pos, sum, seen, got>>
\* The file that was opened keeps its contents if another takes its name,
\* but not if it is written in place; got[1] is the file as opened.
Now(f) == IF f.who = file.who THEN file ELSE f
Opened == /\ pc = "open" /\ got' = <<file>> /\ pc' = "two" /\ UNCHANGED <<file, clock, left, key, pos, sum, seen, quiet>>
Two == /\ pc = "two" /\ pc' = "three"
       /\ LET f == Now(got[1]) IN got' = IF StatFirst THEN <<f, Key(f), <<>>>> ELSE <<f, <<>>, f.data>>
       /\ UNCHANGED <<file, clock, left, key, pos, sum, seen, quiet>>
Three == /\ pc = "three" /\ pc' = "idle"
         /\ LET f == Now(got[1])
                d == IF StatFirst THEN f.data ELSE got[3]
                w == 2 * (Len(d) \div 2)           \* up to the last whole sample
                whole == SubSeq(d, 1, w)
            IN /\ key' = IF StatFirst THEN got[2] ELSE Key(f)
               /\ seen' = IF pos <= Len(whole) /\ SubSeq(whole, 1, pos) = sum
                          THEN seen \o Whole(SubSeq(whole, pos + 1, w)) ELSE Whole(whole)
               /\ pos' = w /\ sum' = whole
         /\ got' = <<>>
         /\ UNCHANGED <<file, clock, left, quiet>>
Next == Writer \/ Begin \/ Opened \/ Two \/ Three
Spec == Init /\ [][Next]_vars
\* After a reading during which nothing was written:
Exact == pc = "idle" /\ quiet => seen = Whole(file.data)
\* What has been seen was in the file, as the observable specification says.
Agrees == Whole(file.data) = Fill(Empty, Chunks(file.data), 1).full
Sane == pos = 2 * Len(seen) \/ sum = <<<<9, 9>>>>
=============================================================================
