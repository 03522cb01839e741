------------------------------ MODULE AgentTrace ------------------------------
(* Recorded trainings of real agents: every observation must be the one its    *)
(* configuration already gave; every round of evaluations must be one that the *)
(* worker specification (ParEval) allows.                                      *)
EXTENDS Repro, TraceLib, FiniteSets
VARIABLES rd,     \* <<>> or the round under way
          now,    \* thread -> <<copy, idx, id>> of the job it is evaluating
          owner,  \* environment copy -> thread, in this round
          did     \* jobs done in this round: id -> idx
tvars == <<rvars, rd, now, owner, did, l>>
TInit == RInit /\ l = 1 /\ rd = <<>> /\ now = <<>> /\ owner = <<>> /\ did = <<>>
Quiet == UNCHANGED <<rd, now, owner, did>>
(* nothing is left from before an initialisation                               *)
Clean(o) == o.best = "none" /\ o.recs = 0 /\ o.emptyarch /\ o.score = "0" /\ ~o.thrown
TBegin == IsEvent("Begin") /\ Clean(Ev.obs) /\ Begin(Ev.run, Ev.key, Ev.obs) /\ Quiet
TObs == IsEvent("Obs") /\ rd = <<>> /\ Generation(Ev.run, Ev.obs) /\ Quiet
TRound == /\ IsEvent("Round") /\ rd = <<>> /\ rd' = Ev /\ now' = <<>> /\ owner' = <<>> /\ did' = <<>> /\ UNCHANGED rvars
(* a worker takes a job nobody took, with an environment nobody else uses       *)
TJB == /\ IsEvent("JB") /\ rd # <<>> /\ UNCHANGED <<rvars, rd>>
       /\ Ev.th \notin DOMAIN now /\ Ev.id \notin DOMAIN did
       /\ now' = [x \in DOMAIN now \cup {Ev.th} |-> IF x = Ev.th THEN <<Ev.copy, Ev.idx, Ev.id>> ELSE now[x]]
       /\ owner' = [x \in DOMAIN owner \cup {Ev.copy} |-> IF x = Ev.copy THEN Ev.th ELSE owner[x]]
       /\ (Ev.copy \in DOMAIN owner => owner[Ev.copy] = Ev.th)
       /\ did' = [x \in DOMAIN did \cup {Ev.id} |-> IF x = Ev.id THEN Ev.idx ELSE did[x]]
       /\ Cardinality(DOMAIN now') <= (IF rd.threads = 0 THEN 1 ELSE rd.threads)
TJE == /\ IsEvent("JE") /\ rd # <<>> /\ UNCHANGED <<rvars, rd, owner, did>>
       /\ Ev.th \in DOMAIN now /\ now[Ev.th][2] = Ev.idx /\ now[Ev.th][3] = Ev.id
       /\ now' = [x \in DOMAIN now \ {Ev.th} |-> now[x]]
(* every job was done                                                           *)
TRoundEnd == /\ IsEvent("RoundEnd") /\ rd # <<>> /\ UNCHANGED rvars /\ now = <<>>
             /\ (rd.jobs >= 0 => Cardinality(DOMAIN did) = rd.jobs)
             /\ Cardinality(DOMAIN owner) <= (IF rd.threads = 0 THEN 1 ELSE rd.threads)
             /\ rd' = <<>> /\ UNCHANGED <<now, owner, did>>
(* there is no step for a "Race" event: objects shared by workers are used      *)
(* under a lock or not at all                                                   *)
TNext == TBegin \/ TObs \/ TRound \/ TJB \/ TJE \/ TRoundEnd
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
