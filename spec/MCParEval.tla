------------------------------ MODULE MCParEval ------------------------------
(* Every interleaving of the workers gives what sequential evaluation gives,  *)
(* and the round always ends.                                                 *)
EXTENDS ParEval, Json
CONSTANTS NJ, NW, CAP, EMIT
VARIABLE sizes   \* number of recordings each job makes
Workers == 1..NW
Jobs == [k \in 1..NJ |-> k]
Res(j) == 10 + j
Recs(j) == [k \in 1..sizes[j] |-> <<j, k>>]
Old == [k \in 1..CAP |-> <<0, k>>]
MInit == sizes \in [1..NJ -> (IF EMIT THEN {0} ELSE {0, 1, CAP + 1})] /\ PInit(Jobs, Workers, Old)
Work(w) == (Take(w) \/ Evaluated(w, Res, Recs, CAP) \/ Store(w, Recs, CAP)) /\ UNCHANGED sizes
MMerge == Merge(Jobs, CAP) /\ wk # <<>> /\ UNCHANGED sizes
MNext == (\E w \in Workers : w \in DOMAIN wk /\ Work(w)) \/ MMerge
vars == <<pvars, sizes>>
MSpec == MInit /\ [][MNext]_vars /\ (\A w \in Workers : WF_vars(w \in DOMAIN wk /\ Work(w))) /\ WF_vars(MMerge)
Done == wk = <<>>
Equal == Done => /\ out = SeqOut(Jobs, Res)
                 /\ arch = SeqArch(Old, Jobs, Recs, CAP)
                 /\ Len(ends) = NJ
Once == \A a, b \in Workers : a # b /\ a \in DOMAIN wk /\ b \in DOMAIN wk /\ wk[a][1] = "eval" /\ wk[b][1] = "eval"
          => wk[a][2] # wk[b][2]
Ends == <>Done
(* spec -> implementation: the orders in which jobs may end                    *)
Emit == EMIT /\ Done => PrintT("@@" \o ToJson(ends))
==============================================================================
