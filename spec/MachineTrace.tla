---------------------------- MODULE MachineTrace ----------------------------
EXTENDS Machine, TraceLib
tvars == <<mvars, l>>

(* the logged projection of every live program: sequence of [id, lines, cst] *)
Logged == [k \in { Ev.progs[j].id : j \in 1..Len(Ev.progs) } |->
             LET j == CHOOSE j \in 1..Len(Ev.progs) : Ev.progs[j].id = k
             IN [lines |-> Ev.progs[j].lines, cst |-> Ev.progs[j].cst]]
Same == progs' = Logged

TInit == /\ l = 1 /\ env = [nreg |-> 1, ncst |-> 0, srcs |-> <<>>, ops |-> <<>>]
         /\ progs = <<>> /\ fresh = {} /\ data = <<>> /\ out = 0

EnvOf == LET base == [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> <<>>]
         IN [base EXCEPT !.ops = Filter(base, Ev.given)]
MaxArity(e) == LET S == { Len(OpTypes[e.ops[k]]) : k \in 1..Len(e.ops) } IN CHOOSE m \in S : \A x \in S : x <= m

TEnv == /\ IsEvent("Env")
        /\ Ev.ops = EnvOf.ops                      \* what the environment kept
        /\ Ev.maxops = MaxArity(EnvOf)
        /\ Ev.nsrc = Len(AllSrcs(EnvOf))
        /\ Ev.largest = (LET S == {Ev.nreg, Ev.ncst} \cup { Ev.srcs[k].h * Ev.srcs[k].w : k \in 1..Len(Ev.srcs) }
                         IN CHOOSE m \in S : \A x \in S : x <= m)
        /\ SetEnv(EnvOf, <<>>)
TNew    == IsEvent("New")    /\ New(Ev.id) /\ Same
TInsert == IsEvent("Insert") /\ IF Ev.ok THEN InsertLine(Ev.id, Ev.at, Ev.line) /\ Same
                                ELSE InsertLineRefused(Ev.id, Ev.at) /\ Same
TRemove == IsEvent("Remove") /\ IF Ev.ok THEN RemoveLine(Ev.id, Ev.at) /\ Same
                                ELSE RemoveLineRefused(Ev.id, Ev.at) /\ Same
TSwap   == IsEvent("Swap")   /\ IF Ev.ok THEN SwapLines(Ev.id, Ev.a, Ev.b) /\ Same
                                ELSE SwapLinesRefused(Ev.id, Ev.a, Ev.b) /\ Same
TSet    == IsEvent("Set")    /\ SetLine(Ev.id, Ev.at, Ev.line) /\ Same
TConst  == IsEvent("Const")  /\ SetConst(Ev.id, Ev.k, Ev.v) /\ Same
TMark   == IsEvent("Mark")   /\ Mark(Ev.id) /\ Same /\ out' = Ev.n
TClear  == IsEvent("Clear")  /\ Clear(Ev.id) /\ Same
TCopy   == IsEvent("Copy")   /\ Copy(Ev.id, Ev.from) /\ Same
TDrop   == IsEvent("Drop")   /\ Drop(Ev.id) /\ Same
TData   == IsEvent("Data")   /\ SetData(Ev.data)
(* several programs executed one after the other on the current data        *)
TExec   == IsEvent("Exec")   /\ Exec(Ev.id) /\ out' = Ev.res
(* execution on freshly computed marks also equals running every line       *)
           /\ (Ev.id \in fresh => Ev.res = Result(env, progs[Ev.id], data))
TComp   == IsEvent("Compare") /\ Compare(Ev.a, Ev.b, Ev.same)

TNext == TEnv \/ TNew \/ TInsert \/ TRemove \/ TSwap \/ TSet \/ TConst \/ TMark \/ TClear
         \/ TCopy \/ TDrop \/ TData \/ TExec \/ TComp
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
