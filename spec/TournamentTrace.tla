--------------------------- MODULE TournamentTrace ---------------------------
EXTENDS Tournament, TraceLib
VARIABLES P, V, roots, last, ms, rd, seeds
tvars == <<P, V, roots, last, ms, rd, seeds, l>>
TInit == l = 1 /\ P = <<>> /\ V = {} /\ roots = {} /\ last = <<>> /\ ms = <<>> /\ rd = <<>> /\ seeds = <<>>
TNew == IsEvent("New") /\ P' = Ev /\ V' = {} /\ roots' = {} /\ last' = <<>> /\ ms' = <<>> /\ rd' = <<>> /\ seeds' = <<>>
(* initialisation forgets the opponents of the past                             *)
TInitAgent == IsEvent("Init") /\ last' = <<>> /\ rd' = <<>> /\ ms' = <<>> /\ V' = {} /\ roots' = {} /\ UNCHANGED <<P, seeds>>
TRound == /\ IsEvent("Round") /\ rd = <<>> /\ rd' = Ev /\ V' = Range(Ev.verts) /\ roots' = Range(Ev.roots)
          /\ ms' = <<>> /\ last' = (IF Ev.fresh THEN <<>> ELSE last) /\ UNCHANGED <<P, seeds>>
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE WSum(_, _, _)
WSum(its, i, k) == IF k = 0 THEN <<0, 0>> ELSE LET q == WSum(its, i, k - 1) IN <<q[1] + its[k].sc[i] * its[k].w, q[2] + its[k].w>>
TMatch ==
  /\ IsEvent("Match") /\ rd # <<>> /\ Len(Ev.iters) = P.perjob
  /\ \A k \in 1..Len(Ev.iters) : LET i == Ev.iters[k] IN
       /\ i.iter = k - 1 /\ i.gen = rd.gen /\ i.mode = rd.mode /\ ~i.late
       (* agents act in turn with their own policy, at most maxacts turns        *)
       /\ Len(i.acts) = Min2(i.limit, P.maxacts * P.agents)
       /\ i.acts = i.exp
       /\ Len(i.sc) = P.agents
  /\ seeds' = [x \in DOMAIN seeds \cup { <<rd.gen, k>> : k \in 1..Len(Ev.iters) } |->
                 IF x \in DOMAIN seeds THEN seeds[x] ELSE Ev.iters[x[2]].seed]
  /\ \A k \in 1..Len(Ev.iters) : seeds'[<<rd.gen, k>>] = Ev.iters[k].seed
  /\ \A x, y \in DOMAIN seeds' : x # y /\ x[1] = y[1] => seeds'[x] # seeds'[y]
  (* result of the match: weighted means over its iterations                     *)
  /\ Len(Ev.sc) = P.agents
  /\ \A i \in 1..P.agents : Ev.sc[i] = WSum(Ev.iters, i, Len(Ev.iters))
  /\ Ev.n = Ev.sc[1][2]
  /\ Range(Ev.players) \subseteq V
  /\ ms' = Append(ms, [players |-> Ev.players, pos |-> Ev.pos, sc |-> Ev.sc])
  /\ UNCHANGED <<P, V, roots, last, rd>>
EvRes == [v \in { x[1] : x \in Range(Ev.results) } |-> (CHOOSE x \in Range(Ev.results) : x[1] = v)[2]]
TRoundEnd ==
  /\ IsEvent("RoundEnd") /\ rd # <<>>
  /\ (~rd.custom => Complete(P, ms, V, roots) /\ OpponentsOK(P, last, V, roots, OppOf(ms)))
  /\ DOMAIN EvRes = roots /\ Len(Ev.results) = Cardinality(roots)
  /\ \A r \in roots : EvRes[r] = ResultOf(ms, r)
  /\ last' = EvRes /\ rd' = <<>> /\ ms' = <<>> /\ UNCHANGED <<P, V, roots, seeds>>
TNext == TNew \/ TInitAgent \/ TRound \/ TMatch \/ TRoundEnd
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
