-------------------------- MODULE EnvironmentsTrace --------------------------
(* Recorded constructions of environments, edits of programs' lines and       *)
(* histories of engines (C23).                                                *)
EXTENDS Environments, TraceLib
VARIABLES env, progs, eng
tvars == <<env, progs, eng, l>>
GrantedNow == { k \in {"KF_C23_bits"} : k \in DOMAIN IOEnv }
TInit == env = <<>> /\ progs = <<>> /\ eng = <<>> /\ l = 1
(* the description given by the library; KF_C23_bits: the numbers of bits of   *)
(* the instruction and of the destination are exchanged                        *)
Told(d) == /\ Ev.kept = d.kept /\ Ev.ops = d.ops /\ Ev.nsrc = d.nsrc /\ Ev.largest = d.largest
           /\ Ev.sbits = d.sbits /\ Ev.abits = d.abits /\ Ev.obits = d.obits
           /\ Ev.total = d.ibits + d.dbits + d.obits
           /\ \/ Ev.ibits = d.ibits /\ Ev.dbits = d.dbits
              \/ "KF_C23_bits" \in GrantedNow /\ Ev.ibits = d.dbits /\ Ev.dbits = d.ibits
                 /\ PrintT(<<"KNOWN_FINDING", "KF_C23_bits">>)
           /\ Ev.order
NewEnv == LET d == Describe(Ev.instrs, Ev.regs, Ev.consts, Ev.srcs) IN
          /\ Ev.refused = Refused(d, Ev.regs)
          /\ IF Ev.refused THEN env' = <<>>
             ELSE Told(d) /\ env' = [kept |-> d.kept, ops |-> d.ops, nsrc |-> d.nsrc, largest |-> d.largest, regs |-> Ev.regs]
          /\ progs' = <<>> /\ eng' = <<>>
Is(p, ls) == progs' = [progs EXCEPT ![p] = ls] /\ Ev.lines = ls
P == progs[Ev.g]
TNext ==
  \/ IsEvent("Env") /\ NewEnv
  \/ IsEvent("Prog") /\ Ev.g = Len(progs) + 1 /\ progs' = Append(progs, <<>>) /\ Ev.lines = <<>> /\ UNCHANGED <<env, eng>>
  \/ IsEvent("Copy") /\ Ev.g = Len(progs) + 1 /\ progs' = Append(progs, progs[Ev.of]) /\ Ev.lines = progs[Ev.of] /\ UNCHANGED <<env, eng>>
  \/ IsEvent("Edit") /\ LET r == Edit(env, P, Ev) IN Ev.res = r.res /\ Is(Ev.g, r.lines) /\ UNCHANGED <<env, eng>>
  \/ IsEvent("Introns") /\ Len(Ev.lines) = Len(P) /\ (\A k \in DOMAIN P : Same(P[k], Ev.lines[k]))
                        /\ Is(Ev.g, Ev.lines) /\ UNCHANGED <<env, eng>>
  \/ IsEvent("Look") /\ Is(Ev.g, P) /\ UNCHANGED <<env, eng>>
  \/ IsEvent("Equal") /\ Ev.res = Same(progs[Ev.g][Ev.p + 1], progs[Ev.h][Ev.q + 1]) /\ UNCHANGED <<env, progs, eng>>
  \* engines: progs is the table of programs [ids, pos, c]
  \/ IsEvent("World") /\ env' = <<>> /\ progs' = Ev.progs /\ eng' = <<>>
  \/ IsEvent("Engine") /\ LET ok == CASE Ev.by = "env" -> TRUE
                                       [] OTHER -> Fits(progs[Ev.g].ids, Ev.srcs) IN
                          /\ Ev.res = (IF ok THEN "done" ELSE "refused")
                          /\ eng' = IF ok THEN <<[prog |-> IF Ev.by = "env" THEN 0 ELSE Ev.g, srcs |-> Ev.srcs]>> ELSE <<>>
                          /\ UNCHANGED <<env, progs>>
  \/ IsEvent("SetProg") /\ LET ok == Fits(progs[Ev.g].ids, eng[1].srcs) IN
                           /\ Ev.res = (IF ok THEN "done" ELSE "refused")
                           /\ eng' = IF ok THEN <<[eng[1] EXCEPT !.prog = Ev.g]>> ELSE eng
                           /\ UNCHANGED <<env, progs>>
  \/ IsEvent("SetSrcs") /\ LET ok == FitsFirst(progs[eng[1].prog].ids, Ev.srcs) IN
                           /\ Ev.res = (IF ok THEN "done" ELSE "refused")
                           /\ eng' = IF ok THEN <<[eng[1] EXCEPT !.srcs = Replace(@, Ev.srcs)]>> ELSE eng
                           /\ UNCHANGED <<env, progs>>
  \/ IsEvent("Run") /\ LET p == progs[eng[1].prog] IN
                       Ev.x = (IF p.pos = 0 THEN p.c ELSE eng[1].srcs[p.pos].v)
                    /\ UNCHANGED <<env, progs, eng>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
