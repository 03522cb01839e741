---------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS Archive, Prog, TraceLib
VARIABLES known,   \* data hash -> the content it was first seen with
          env
tvars == <<avars, known, env, l>>
NoEnv == [nreg |-> 1, ncst |-> 0, srcs |-> <<>>, ops |-> <<>>]
TInit == l = 1 /\ cap = 0 /\ prob = 100 /\ recs = <<>> /\ snaps = <<>> /\ known = <<>> /\ env = NoEnv

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
(* what the archive shows after every call; programs by address (their second component) *)
Look ==
  /\ Ev.n = Len(recs')
  /\ Ev.recs = [k \in 1..Len(recs') |-> <<recs'[k].p[2], recs'[k].h, recs'[k].r>>]
  /\ Ev.beyond                                           \* at(n) refuses the first invalid index
  /\ Ev.nsnaps = Cardinality(DOMAIN snaps')
  /\ { s.h : s \in Range(Ev.snaps) } = DOMAIN snaps'
  /\ Ev.nsnaps = Len(Ev.snaps)
  /\ \A s \in Range(Ev.snaps) :
       /\ s.data = snaps'[s.h]                           \* faithful, frozen
       /\ s.key = s.h                                    \* still hashes to its key
       /\ s.has
  /\ (cap' = cap /\ recs' # <<>> => Bounded') /\ SnapsExact'

(* one hash per content and one content per hash *)
HashOK(h, c) == /\ h \in DOMAIN known => known[h] = c
                /\ \A g \in DOMAIN known : known[g] = c => g = h
Know(h, c) == known' = [x \in (DOMAIN known) \cup {h} |-> IF x = h THEN c ELSE known[x]]

TNew == IsEvent("New") /\ ArchInit(Ev.cap, Ev.prob) /\ known' = <<>> /\ env' = NoEnv /\ Look
TEnv == /\ IsEvent("Env")
        /\ LET base == [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> <<>>]
           IN env' = [base EXCEPT !.ops = Filter(base, Ev.given)]
        /\ UNCHANGED <<avars, known>>
TAdd == /\ IsEvent("Add") /\ HashOK(Ev.h, Ev.data) /\ Know(Ev.h, Ev.data)
        /\ Add(<<Ev.p, Ev.a>>, Ev.h, Ev.data, Ev.r, Ev.forced) /\ Look /\ UNCHANGED env
TClear == IsEvent("Clear") /\ Clear /\ Look /\ UNCHANGED <<known, env>>
TStay == IsEvent("Stay") /\ UNCHANGED <<avars, known, env>> /\ Look   \* live data written, seed set
THas == IsEvent("Has") /\ UNCHANGED <<avars, known, env>> /\ Ev.has = (Ev.h \in DOMAIN snaps)
TRate == IsEvent("Rate") /\ UNCHANGED <<avars, known, env>>
         /\ Ev.kept * 100 >= Ev.tried * (prob - 30) /\ Ev.kept * 100 <= Ev.tried * (prob + 30)

Abs(x) == IF x < 0 THEN -x ELSE x
TUnique ==
  /\ IsEvent("Unique") /\ UNCHANGED <<avars, known, env>>
  /\ LET res == [h \in { Ev.q[k][1] : k \in 1..Len(Ev.q) } |->
                    LET k == CHOOSE k \in 1..Len(Ev.q) : Ev.q[k][1] = h IN Ev.q[k][2]]
         near(a, b) == Fin(a) /\ Fin(b) /\ Abs(a - b) <= Ev.tau
     IN Ev.unique = Unique(res, near)

(* programs made by a population step are novel on everything archived      *)
TPopulate ==
  /\ IsEvent("Populate") /\ UNCHANGED <<avars, known, env>> /\ Look
  /\ LET same(a, b) == Fin(a) /\ a = b IN
     \A p \in Range(Ev.progs) :
        recs # <<>> => Unique([h \in DOMAIN snaps |-> Result(env, p, snaps[h])], same)

TNext == TNew \/ TEnv \/ TAdd \/ TClear \/ TStay \/ THas \/ TRate \/ TUnique \/ TPopulate
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
