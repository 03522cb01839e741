----------------------------- MODULE RandomTrace -----------------------------
(* Recorded draws of several generators (C22).                               *)
EXTENDS Random, TraceLib
VARIABLE gens      \* generator -> [raws, p: the next one]
tvars == <<gens, l>>
TInit == gens = <<>> /\ l = 1
G == gens[Ev.g]
At(p) == gens' = [gens EXCEPT ![Ev.g].p = p]
(* the distance of two words, when less than a limb *)
Close(a, b, d) == LET x == IF Less(a, b) THEN Sub(b, a) ELSE Sub(a, b) IN x[1] = 0 /\ x[2] = 0 /\ x[3] <= d
TNext ==
  \/ IsEvent("World") /\ gens' = <<>>
  \/ IsEvent("New") /\ Ev.g = Len(gens) + 1 /\ gens' = Append(gens, [raws |-> Ev.raws, p |-> 1])
  \/ IsEvent("Copy") /\ Ev.g = Len(gens) + 1 /\ gens' = Append(gens, gens[Ev.of])
  \/ IsEvent("Seed") /\ gens' = [gens EXCEPT ![Ev.g] = [raws |-> Ev.raws, p |-> 1]]
  \/ IsEvent("Int") /\ LET n == Width(Ev.lo, Ev.hi)
                           u == IF n = One THEN G.p - 1 ELSE Used(G.raws, G.p, n) IN   \* one value: no raw number
                       /\ (n = One \/ u > 0) /\ ~Less(Ev.x, Ev.lo) /\ ~Less(Ev.hi, Ev.x)
                       /\ Ev.x = (IF n = One THEN Ev.lo ELSE Value(Ev.lo, n, G.raws[u]))
                       /\ At(u + 1)
  \/ IsEvent("Real") /\ LET r == G.raws[G.p] IN
                        /\ Ev.in /\ (Ev.point \/ (Ev.q - r[1] <= 1 /\ r[1] - Ev.q <= 1))
                        /\ Ev.unit => Close(Ev.x, r, 2048)
                        /\ At(G.p + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
