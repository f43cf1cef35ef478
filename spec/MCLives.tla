------------------------------ MODULE MCLives ------------------------------
(* The program is run twice, side by side: in "seen" it is analysed now and  *)
(* then, the results kept for a while; in "left" it is left alone.  Whatever *)
(* happens, the program cannot tell the difference: its references are the   *)
(* same at any time, nothing it can reach dies, and as soon as no result is  *)
(* kept the same objects are dead.                                           *)
EXTENDS Lives, TLC
CONSTANTS MaxObjects, MaxRefs, MaxKept
VARIABLES seen, left
vars == <<seen, left>>
Refs(st) == LET F[i \in 0..Len(st.out)] == IF i = 0 THEN 0 ELSE F[i - 1] + Len(st.out[i]) IN F[Len(st.out)]
Init == seen = LStart /\ left = LStart
Both(F(_)) == seen' = F(seen) /\ left' = F(left)
\* every other object is watched
Made(st, refs) == LET n == Len(st.out) + 1
                      s == New(st, n, refs)
                  IN [s EXCEPT !.watched = IF n % 2 = 1 THEN @ \cup {n} ELSE @]
AddObject == /\ Len(seen.out) < MaxObjects
             /\ \E r \in {<<>>} \cup {<<x>> : x \in Alive(seen)} : LET F(st) == Made(st, r) IN Both(F)
AddLink == /\ Refs(seen) < MaxRefs
           /\ \E a \in Alive(seen), b \in Alive(seen) : LET F(st) == Link(st, a, b) IN Both(F)
CutLink == \E a \in Alive(seen) : \E b \in SetOf(seen.out[a]) : LET F(st) == Cut(st, a, b) IN Both(F)
LetGo == \E x \in seen.held : LET F(st) == Release(st, {x}) IN Both(F)
Collection == Both(Collect)
Keep == /\ seen.kept < MaxKept
        /\ seen' = [seen EXCEPT !.kept = @ + 1]
        /\ left' = left
(* the results may as well die with an object of the program, at any time    *)
Dies == /\ seen.kept > 0
        /\ \E x \in Objects(seen) \ Alive(seen) :
              \* nothing that is left refers to it
              /\ x \notin UNION {SetOf(seen.out[y]) : y \in Objects(seen) \ {x}}
              /\ seen' = Bury(seen, {x})
        /\ left' = left
Drop == /\ seen.kept > 0
        /\ seen' = Collect([seen EXCEPT !.kept = 0])
        /\ left' = Collect(left)
Next == AddObject \/ AddLink \/ CutLink \/ LetGo \/ Collection \/ Keep \/ Dies \/ Drop
Spec == Init /\ [][Next]_vars
(* Properties *)
SameProgram == seen.held = left.held /\ \A x \in Alive(left) : seen.out[x] = left.out[x]
SafeObjects == Alive(seen) \cap seen.torn = {} /\ Alive(left) \cap left.torn = {} /\ seen.held \cap seen.torn = {}
NoEarlierDeath == seen.torn \subseteq left.torn \cup (Objects(left) \ Alive(left))
SameWhenForgotten == seen.kept = 0 => seen = left
Announced == \A s \in {seen, left} : s.dead = s.torn \cap s.watched
(* What is at once buried is out of reach; a collection leaves just the rest *)
Swift == Cascade(left, {}) = {}
Whole == Objects(Collect(left)) = Alive(left)
Settled == [][seen.kept > 0 /\ seen'.kept = 0 => Objects(seen') = Alive(seen')]_vars
=============================================================================
