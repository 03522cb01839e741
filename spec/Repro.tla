-------------------------------- MODULE Repro --------------------------------
(***************************************************************************)
(* Trainings as functions of their configuration (properties C09, C10).     *)
(* A run is a training started by an initialisation; its key stands for the *)
(* seed, the parameters, the instructions and the environment - neither the *)
(* number of threads, nor the schedule, nor what the agent or others did    *)
(* before.  What is observed after k generations of a run is a function of  *)
(* the key and k.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES hist,  \* key -> observations met so far: hist[key][k+1] after k generations
          runs   \* run -> [key, pos]
rvars == <<hist, runs>>
RInit == hist = <<>> /\ runs = <<>>
(* the run makes its next observation                                        *)
Observe(r, key, pos, o) ==
  /\ runs' = [x \in DOMAIN runs \cup {r} |-> IF x = r THEN [key |-> key, pos |-> pos] ELSE runs[x]]
  /\ IF key \notin DOMAIN hist THEN pos = 1 /\ hist' = [x \in DOMAIN hist \cup {key} |-> IF x = key THEN <<o>> ELSE hist[x]]
     ELSE IF pos <= Len(hist[key]) THEN o = hist[key][pos] /\ UNCHANGED hist
     ELSE pos = Len(hist[key]) + 1 /\ hist' = [hist EXCEPT ![key] = Append(@, o)]
Begin(r, key, o) == r \notin DOMAIN runs /\ Observe(r, key, 1, o)
Generation(r, o) == r \in DOMAIN runs /\ Observe(r, runs[r].key, runs[r].pos + 1, o)
==============================================================================
