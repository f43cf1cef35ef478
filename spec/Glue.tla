------------------------------- MODULE Glue -------------------------------
(* The lazily linked modules of guppy.etc.Glue.                              *)
(*                                                                           *)
(* M is the sequence of the modules: 1 is the nameless root, 2 a package in  *)
(* it, the others are the modules of the package.  Names are numbers:        *)
(* 1..N ordinary names, N + m the name of module m, and then _parent, _root. *)
(* What module m declares about name n is M[m].defs[n]:                      *)
(*   own   value of an attribute of the clamp, or 0                          *)
(*   get   a handler: <<>> or <<value, kind, module, name>>; it first asks   *)
(*         for name of module, if that is not 0, then fails the first time   *)
(*         it is called (kind 1), gives what it asked for (kind 2), its own  *)
(*         module (kind 3) or a new object (kind 0)                          *)
(*   imp   the module it is imported from, or 0                              *)
(*   glob  value of an attribute of the Python module, or 0                  *)
(* and further                                                               *)
(*   clamp     1 if it has a clamp at all                                    *)
(*   broken    positive if its Python module fails the first time            *)
(*   setable, chgable    names                                               *)
(*   hand      handlers of assignments: per name 0, 1, or 2 for one that     *)
(*             refuses odd values                                            *)
(*   mods      modules imported whole                                        *)
(*   preload   names resolved when the module is first reached; if that      *)
(*             fails the module is not reached, and begins anew next time    *)
(*   path      modules that are asked for names not found                    *)
(*   wrap      1 if values found are wrapped, except for those of nowrap     *)
(* A value is a positive number; Mod(m) stands for module m.  No value: 0.   *)
EXTENDS Integers, Sequences, FiniteSets
Base == 1000000
Mod(m) == Base + m
Wrapped == 2000000
PerRoot == 10000
ParentOf(m) == IF m <= 2 THEN 1 ELSE 2
SetOf(s) == {s[i] : i \in DOMAIN s}

(* c = [M, N, r]; st = [res, failed, down, calls]: what is resolved, which   *)
(* handlers have failed, which Python modules have, and the calls of         *)
(* handlers so far.                                                          *)
Names(M, N) == 1..(N + Len(M) + 2)
Fresh(M, N, R) == [res |-> [r \in 1..R |-> [m \in 1..Len(M) |-> [n \in Names(M, N) |-> 0]]],
                   failed |-> [r \in 1..R |-> [m \in 1..Len(M) |-> [n \in Names(M, N) |-> 0]]],
                   down |-> [m \in 1..Len(M) |-> 0], calls |-> <<>>]
Is(v, m) == v = Mod(m)
Ans(st, v) == [st |-> st, v |-> v]
Called(st, r, m, n, v) == [st EXCEPT !.calls = Append(@, <<r, m, n, v>>)]
RECURSIVE Get(_, _, _, _), Find(_, _, _, _), Import(_, _, _), Along(_, _, _, _, _), Preload(_, _, _, _)
(* the value of name n of module m *)
Get(c, st, m, n) ==
  LET N == c.N
      L == Len(c.M)
  IN CASE n = N + L + 1 -> Ans(st, Mod(ParentOf(m)))
       [] n = N + L + 2 -> Ans(st, Mod(1))
       [] st.res[c.r][m][n] # 0 -> Ans(st, st.res[c.r][m][n])
       [] OTHER ->
          LET x == Find(c, st, m, n)
              v == IF x.v > 0 /\ c.M[m].wrap = 1 /\ n \notin SetOf(c.M[m].nowrap) THEN x.v + Wrapped ELSE x.v
          IN IF v > 0 THEN Ans([x.st EXCEPT !.res[c.r][m][n] = v], v) ELSE Ans(x.st, v)
(* module p of the package, by way of its name *)
Import(c, st, p) == LET a == Get(c, st, 1, c.N + 2)
                    IN IF p = 1 THEN Ans(st, Mod(1)) ELSE IF p = 2 \/ a.v < 0 THEN a ELSE Get(c, a.st, 2, c.N + p)
Preload(c, st, m, k) == IF k > Len(c.M[m].preload) THEN Ans(st, Mod(m))
                        ELSE LET x == Get(c, st, m, c.M[m].preload[k])
                             IN IF x.v < 0 THEN Ans([x.st EXCEPT !.res[c.r][m] = [i \in Names(c.M, c.N) |-> 0]], x.v)
                                ELSE Preload(c, x.st, m, k + 1)
Along(c, st, m, n, k) ==
  IF k > Len(c.M[m].path) THEN Ans(st, 0)
  ELSE LET a == Import(c, st, c.M[m].path[k])
           x == IF a.v < 0 THEN a ELSE Get(c, a.st, c.M[m].path[k], n)
       IN IF x.v > 0 THEN x ELSE IF x.v < 0 THEN x ELSE Along(c, x.st, m, n, k + 1)
Find(c, st, m, n) ==
  LET N == c.N
      L == Len(c.M)
  IN IF n > N
     THEN LET p == n - N
              x == IF c.M[m].clamp = 1 THEN Along(c, st, m, n, 1) ELSE Ans(st, 0)
          IN IF c.M[m].clamp = 1 /\ p \in SetOf(c.M[m].mods) THEN Import(c, st, p)
             ELSE IF x.v # 0 THEN x
             ELSE IF p > 1 /\ ParentOf(p) = m
                  THEN IF c.M[p].broken > 0 /\ x.st.down[p] = 0 THEN Ans([x.st EXCEPT !.down[p] = 1], -1)
                       ELSE Preload(c, x.st, p, 1)
             ELSE x
     ELSE IF m = 1 THEN Ans(st, 0)
     ELSE LET d == c.M[m].defs[n]
              clamp == c.M[m].clamp = 1
          IN CASE clamp /\ d.own # 0 -> Ans(st, d.own)
               [] clamp /\ d.own = 0 /\ d.get # <<>> ->
                    LET s0 == Called(st, c.r, m, n, 0)
                        a == IF d.get[3] = 0 \/ d.get[3] = m THEN Ans(s0, 0) ELSE Import(c, s0, d.get[3])
                        x == IF d.get[3] = 0 THEN Ans(s0, 1) ELSE IF a.v < 0 THEN a ELSE Get(c, a.st, d.get[3], d.get[4])
                    IN CASE x.v <= 0 -> x
                         [] x.v > 0 /\ d.get[2] = 1 /\ st.failed[c.r][m][n] = 0 ->
                              Ans([x.st EXCEPT !.failed[c.r][m][n] = 1], -1)
                         [] x.v > 0 /\ d.get[2] = 2 -> x
                         [] x.v > 0 /\ d.get[2] = 3 -> Ans(x.st, Mod(m))
                         [] OTHER -> Ans(x.st, d.get[1] + PerRoot * c.r)
               [] clamp /\ d.own = 0 /\ d.get = <<>> /\ d.imp # 0 ->
                    LET a == Import(c, st, d.imp)
                    IN IF a.v <= 0 THEN a ELSE Get(c, a.st, d.imp, n)
               [] OTHER ->
                    LET x == IF clamp THEN Along(c, st, m, n, 1) ELSE Ans(st, 0)
                    IN IF x.v # 0 THEN x ELSE Ans(x.st, d.glob)

(* Assignment: 1 if it takes place, -2 if refused, -3 if the handler fails.  *)
Set(c, st, m, n, v) ==
  LET old == st.res[c.r][m][n]
      x == c.M[m]
      changing == n \in SetOf(x.chgable)
      declared == changing \/ n \in SetOf(x.setable)
  IN CASE x.clamp = 0 \/ (~declared /\ old # v) \/ (old \notin {0, v} /\ ~changing) -> Ans(st, -2)
       [] x.clamp = 1 /\ declared /\ (old \in {0, v} \/ changing) ->
            LET h == IF n <= c.N THEN x.hand[n] ELSE 0
                s == IF h > 0 THEN Called(st, c.r, m, n, v) ELSE st
            IN IF h = 2 /\ v % 2 = 1 THEN Ans(s, -3) ELSE Ans([s EXCEPT !.res[c.r][m][n] = v], 1)
       [] OTHER -> Ans(st, 1)
=============================================================================
