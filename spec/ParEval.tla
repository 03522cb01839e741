------------------------------- MODULE ParEval -------------------------------
(***************************************************************************)
(* One round of evaluations by several workers (property C09): a shared     *)
(* queue of jobs, one environment copy and one temporary archive per worker *)
(* and job, results and archives stored under a lock, merge at the end.     *)
(* A job is a number; what its evaluation gives is a function of the job.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES queue,   \* jobs not taken yet
          wk,      \* worker -> <<"take">>, <<"eval", job>>, <<"store", job>>, <<"quit">>
          out,     \* job -> result
          tmp,     \* job -> recordings of its temporary archive
          arch,    \* the archive of the agent
          ends     \* order in which jobs ended
pvars == <<queue, wk, out, tmp, arch, ends>>

Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
(* Sequential evaluation of the jobs in order                               *)
SeqOut(jobs, Res(_)) == [j \in Range(jobs) |-> Res(j)]
SeqArch(a0, jobs, Recs(_), cap) == Newest(a0 \o FlattenSeq([k \in 1..Len(jobs) |-> Recs(jobs[k])]), cap)

PInit(jobs, workers, a0) ==
  /\ queue = jobs /\ wk = [w \in workers |-> <<"take">>] /\ out = <<>> /\ tmp = <<>> /\ arch = a0 /\ ends = <<>>
Take(w) == /\ wk[w] = <<"take">>
           /\ IF queue = <<>> THEN wk' = [wk EXCEPT ![w] = <<"quit">>] /\ UNCHANGED queue
              ELSE wk' = [wk EXCEPT ![w] = <<"eval", Head(queue)>>] /\ queue' = Tail(queue)
           /\ UNCHANGED <<out, tmp, arch, ends>>
Evaluated(w, Res(_), Recs(_), cap) ==
  /\ wk[w][1] = "eval"
  /\ LET j == wk[w][2] IN
       /\ ends' = Append(ends, j)
       /\ out' = [x \in DOMAIN out \cup {j} |-> IF x = j THEN Res(j) ELSE out[x]]
       /\ wk' = [wk EXCEPT ![w] = <<"store", j>>]
  /\ UNCHANGED <<queue, tmp, arch>>
Store(w, Recs(_), cap) ==
  /\ wk[w][1] = "store"
  /\ LET j == wk[w][2] IN tmp' = [x \in DOMAIN tmp \cup {j} |-> IF x = j THEN Newest(Recs(j), cap) ELSE tmp[x]]
  /\ wk' = [wk EXCEPT ![w] = <<"take">>]
  /\ UNCHANGED <<queue, out, arch, ends>>
(* merge: the newest `cap` recordings, scanning the archives backwards        *)
RECURSIVE Back(_, _, _)
Back(js, n, cap) == \* the archives needed, last first
  IF js = <<>> \/ n >= cap THEN <<>> ELSE <<js[Len(js)]>> \o Back(Front(js), n + Len(tmp[js[Len(js)]]), cap)
Merge(jobs, cap) ==
  /\ \A w \in DOMAIN wk : wk[w] = <<"quit">>
  /\ wk' = <<>>
  /\ LET order == SetToSortSeq(DOMAIN tmp, <)
         need == Reverse(Back(order, 0, cap))
         all == FlattenSeq([k \in 1..Len(need) |-> tmp[need[k]]])
     IN arch' = Newest(arch \o Newest(all, cap), cap)
  /\ UNCHANGED <<queue, out, tmp, ends>>
==============================================================================
