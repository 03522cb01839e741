---------------------------- MODULE ProgMutTrace ----------------------------
EXTENDS ProgMut, TraceLib
VARIABLES env, prog
tvars == <<env, prog, l>>
NoProg == [lines |-> <<>>, cst |-> <<>>]
TInit == env = <<>> /\ prog = NoProg /\ l = 1
TEnv == /\ IsEvent("Env")
        /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
        /\ prog' = NoProg
Step(name, R(_)) == /\ IsEvent(name) /\ prog' = Ev.prog /\ UNCHANGED env
                    /\ ProgOK(env, prog') /\ R(Ev.prog)
TNext ==
  \/ TEnv
  \/ Step("Init",   LAMBDA q : RelInit(env, q, Ev.params))
  \/ Step("Delete", LAMBDA q : RelDelete(env, prog, q, Ev.ret))
  \/ Step("Insert", LAMBDA q : RelInsert(env, prog, q))
  \/ Step("Swap",   LAMBDA q : RelSwap(env, prog, q, Ev.ret))
  \/ Step("Alter",  LAMBDA q : RelAlter(env, prog, q, Ev.ret))
  \/ Step("Const",  LAMBDA q : Ev.ret /\ RelConst(env, prog, q, Ev.params.lo, Ev.params.hi))
  \/ Step("LineInit",  LAMBDA q : Len(q.lines) = Len(prog.lines) /\ SameCst(prog, q)
        /\ \A j \in 1..Len(q.lines) : j # Ev.k + 1 => Bare(q.lines[j]) = Bare(prog.lines[j]))
  \/ Step("LineAlter", LAMBDA q : Len(q.lines) = Len(prog.lines) /\ SameCst(prog, q)
        /\ \A j \in 1..Len(q.lines) : j # Ev.k + 1 => Bare(q.lines[j]) = Bare(prog.lines[j])
        /\ LineAltered(env, prog.lines[Ev.k + 1], q.lines[Ev.k + 1]))
  \/ Step("Cut", LAMBDA q : TRUE)
  \/ Step("Mutate", LAMBDA q : /\ RelMutate(env, prog, q, Ev.params, Ev.ret)
                               /\ Len(q.lines) >= 1 /\ Len(q.lines) <= Ev.params.max)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
