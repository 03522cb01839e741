---------------------------- MODULE MCTournament -----------------------------
(* The training loop with champions chosen and forgotten as the code does:    *)
(* after any history the opponents are live and satisfy what the trace        *)
(* specification demands.                                                     *)
EXTENDS Tournament
CONSTANTS MAXV, ROUNDS, AGENTS, ITERS, NEWROOTS, NDEL, KNUM, KDEN, SCORES
VARIABLES V, roots, actions, champs, last, before, ms, n, nv, ph
vars == <<V, roots, actions, champs, last, before, ms, n, nv, ph>>
P == [agents |-> AGENTS, iters |-> ITERS, perjob |-> 1, maxacts |-> 1, keepnum |-> KNUM, keepden |-> KDEN]
MInit == /\ V = 1..3 /\ roots = {1, 2, 3} /\ actions \in SUBSET {3} /\ champs = {} /\ last = <<>> /\ before = <<>> /\ ms = <<>>
         /\ n = 0 /\ nv = 4 /\ ph = "eval"
Score(sc, r) == <<sc[r], 1>>
(* one evaluation round: any champion teams, any scores                        *)
Round ==
  /\ ph = "eval" /\ n < ROUNDS
  /\ \E c0 \in (IF champs # {} THEN {champs} ELSE { S \in SUBSET roots : S # {} }) :
     \E teams \in [1..NbTeams(P) -> [1..(AGENTS - 1) -> c0]], sc \in [roots -> SCORES] :
       LET order == SetToSortSeq(roots, <)
           Put(t, r, i) == [k \in 1..AGENTS |-> IF k = i + 1 THEN r ELSE IF k <= i THEN t[k] ELSE t[k - 1]]
           idx == { <<a, b, i>> : a \in 1..Len(order), b \in 1..NbTeams(P), i \in 0..(AGENTS - 1) }
           ord == SetToSortSeq(idx, LAMBDA x, y : x[1] * 100 + x[2] * 10 + x[3] < y[1] * 100 + y[2] * 10 + y[3])
           m == [q \in 1..Len(ord) |->
                  [players |-> Put(teams[ord[q][2]], order[ord[q][1]], ord[q][3]), pos |-> ord[q][3],
                   sc |-> [k \in 1..AGENTS |-> <<sc[order[ord[q][1]]], 1>>]]]
           res == [r \in roots |-> ResultOf(m, r)]
       IN /\ ms' = m
          /\ last' = res /\ before' = last
          /\ \E c \in SUBSET roots : /\ Cardinality(c) = NbChampions(P, Cardinality(roots))
                                     /\ \A a \in c, b \in roots \ c : ~QLess(res[a], res[b])
                                     /\ champs' = c
          /\ ph' = "select" /\ n' = n + 1 /\ UNCHANGED <<V, roots, actions, nv>>
(* selection: worst team roots                                                 *)
Select ==
  /\ ph = "select" /\ ms' = <<>>
  /\ \E D \in SUBSET (roots \ actions) :
       /\ Cardinality(D) = (IF Cardinality(roots \ actions) < NDEL THEN Cardinality(roots \ actions) ELSE NDEL)
       /\ \A a \in D, b \in (roots \ actions) \ D : ~QLess(last[b], last[a])
       /\ V' = V \ D /\ roots' = roots \ D /\ champs' = champs \ D
  /\ ph' = "populate" /\ UNCHANGED <<actions, last, before, n, nv>>
(* new roots, one of which may point to an old root                            *)
Populate ==
  /\ ph = "populate" /\ nv + NEWROOTS - 1 <= MAXV
  /\ LET new == nv..(nv + NEWROOTS - 1) IN
     IF roots \ actions = {}
     THEN V' = new /\ roots' = new /\ actions' = {} /\ champs' = {} /\ last' = <<>>  \* restarted from scratch
     ELSE \E inner \in SUBSET roots :
            /\ Cardinality(inner) <= 1
            /\ V' = V \cup new /\ roots' = (roots \ inner) \cup new
            /\ UNCHANGED <<champs, actions, last>>
  /\ nv' = nv + NEWROOTS /\ ph' \in {"eval", "valid"} /\ UNCHANGED <<ms, before, n>>
Skip == ph = "valid" /\ ph' = "eval" /\ UNCHANGED <<V, roots, actions, champs, last, before, ms, n, nv>>
MNext == Round \/ Select \/ Populate \/ Skip
MSpec == MInit /\ [][MNext]_vars
Live == champs \subseteq V
(* what the code does is what the predicates of the property demand            *)
Holds == ms # <<>> => /\ Complete(P, ms, V, roots)
                      /\ OpponentsOK(P, before, V, roots, OppOf(ms))
                      /\ \A r \in DOMAIN last : last[r][2] = AGENTS * NbTeams(P)
==============================================================================
