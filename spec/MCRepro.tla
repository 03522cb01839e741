------------------------------- MODULE MCRepro -------------------------------
(* The state of an agent: generator, graph, records, best policy, archive and  *)
(* remembered opponents.  Initialisation determines every part of it, training *)
(* reads only the agent's own state and the generation number: whatever the    *)
(* interleaving of trainings, re-initialisations and destructions of two       *)
(* agents, the observations are a function of (seed, generation).              *)
EXTENDS Repro, FiniteSets
CONSTANTS AGENTS, SEEDS, GENS, INITS
VARIABLES st,    \* agent -> its state (<<>> before the first initialisation)
          nruns, cur
vars == <<rvars, st, nruns, cur>>
Mix(a, b) == (a * 31 + b * 17 + 7) % 97
Fresh(seed) == [rng |-> Mix(seed, 1), graph |-> Mix(seed, 2), recs |-> 0, best |-> 0, arch |-> 0, champ |-> 0, gen |-> 0]
(* populate (graph, rng, archive), evaluate (scores, archive), select, record  *)
Step(s) ==
  LET g1 == Mix(Mix(s.graph, s.rng), s.arch)
      r1 == Mix(s.rng, 3)
      sc == Mix(Mix(g1, s.gen), s.champ)
      ar == Mix(s.arch, sc)
      rc == Mix(s.recs, sc)
      be == IF sc > s.best THEN sc ELSE s.best
  IN [rng |-> r1, graph |-> Mix(g1, rc), recs |-> rc, best |-> be, arch |-> ar, champ |-> Mix(s.champ, be), gen |-> s.gen + 1]
Obs(s) == <<s.graph, s.recs, s.best, s.arch>>
MInit == RInit /\ st = [a \in AGENTS |-> <<>>] /\ nruns = 0 /\ cur = [a \in AGENTS |-> 0]
InitAgent(a, seed) ==
  /\ nruns < INITS /\ nruns' = nruns + 1
  /\ st' = [st EXCEPT ![a] = Fresh(seed)] /\ cur' = [cur EXCEPT ![a] = nruns + 1]
  /\ runs' = [x \in DOMAIN runs \cup {nruns + 1} |-> IF x = nruns + 1 THEN [key |-> seed, pos |-> 1] ELSE runs[x]]
  /\ hist' = IF seed \in DOMAIN hist THEN hist ELSE [x \in DOMAIN hist \cup {seed} |-> IF x = seed THEN <<Obs(Fresh(seed))>> ELSE hist[x]]
Train(a) ==
  /\ st[a] # <<>> /\ st[a].gen < GENS
  /\ LET s == Step(st[a])
         r == cur[a]
         k == runs[r].key
     IN /\ st' = [st EXCEPT ![a] = s]
        /\ runs' = [runs EXCEPT ![r].pos = @ + 1]
        /\ hist' = IF Len(hist[k]) >= s.gen + 1 THEN hist ELSE [hist EXCEPT ![k] = Append(@, Obs(s))]
  /\ UNCHANGED <<nruns, cur>>
MNext == \E a \in AGENTS : Train(a) \/ \E s \in SEEDS : InitAgent(a, s)
MSpec == MInit /\ [][MNext]_vars
(* every agent is where the history of its key says                            *)
Functional == \A a \in AGENTS : st[a] # <<>> => hist[runs[cur[a]].key][runs[cur[a]].pos] = Obs(st[a])
(* each step is a step of Repro                                                *)
Refines == [][ \/ \E a \in AGENTS : st'[a] # st[a] /\
                   IF cur'[a] # cur[a] THEN Begin(cur'[a], runs'[cur'[a]].key, Obs(st'[a])) ELSE Generation(cur[a], Obs(st'[a]))
               \/ UNCHANGED st ]_vars
==============================================================================
