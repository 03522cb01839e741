------------------------------ MODULE StatsTrace ------------------------------
(* Recorded analyses of policies and executions (C18).                       *)
EXTENDS Stats, GraphView, TraceLib
VARIABLES env, g, progs, cost,  \* the graph analysed
          st,             \* the statistics of a PolicyStats
          inf,            \* path -> inferences that took it since the last reset
          hist,           \* engine -> inferences it keeps
          kept            \* inferences an ExecutionStats describes
tvars == <<env, g, progs, cost, st, inf, hist, kept, l>>
TInit == /\ env = <<>> /\ g = NoGraph /\ progs = <<>> /\ cost = <<>> /\ st = NoStats /\ inf = <<>> /\ hist = <<>> /\ kept = <<>> /\ l = 1
ProgsOf(x) == [p \in { x[k].id : k \in 1..Len(x) } |->
                 LET k == CHOOSE k \in 1..Len(x) : x[k].id = p IN [lines |-> x[k].lines, cst |-> x[k].cst]]
Hist(o) == IF o \in DOMAIN hist THEN hist[o] ELSE <<>>
(* a sequence of pairs lists the function f *)
Lists(s, f) == /\ { s[k][1] : k \in 1..Len(s) } = DOMAIN f /\ Len(s) = Cardinality(DOMAIN f)
               /\ \A k \in 1..Len(s) : s[k][2] = f[s[k][1]]
Lists3(s, f) == Lists([k \in 1..Len(s) |-> << <<s[k][1], s[k][2]>>, s[k][3]>>], f)
ListsF(s, f) == /\ { s[k][1] : k \in 1..Len(s) } = DOMAIN f /\ Len(s) = Cardinality(DOMAIN f)
                /\ \A k \in 1..Len(s) : Lists(s[k][2], f[s[k][1]])
Shows(x) ==
  /\ Lists(x.prog, st.prog) /\ Lists(x.team, st.team) /\ Lists(x.action, st.action) /\ Lists(x.actid, st.actid)
  /\ BagOf(x.lines) = st.lines /\ BagOf(x.introns) = st.introns /\ BagOf(x.outs) = st.outs
  /\ Lists(x.instr, st.instr) /\ Lists3(x.loc, st.loc) /\ Lists(x.levels, st.levels)
  /\ x.depth = st.depth /\ x.teams = st.teams
Mass(f) == FoldSet(LAMBDA k, a : a + k * f[k], 0, DOMAIN f)
Prints(x) ==
  /\ x.teams = st.teams /\ x.edges = Mass(st.outs) /\ x.actions = Cardinality(DOMAIN st.actid) /\ x.depth = st.depth
  /\ Lists(x.levels, st.levels) /\ x.useact = Total(st.actid) /\ Lists(x.actid, st.actid)
  /\ x.progs = Cardinality(DOMAIN st.prog) /\ x.lines = Mass(st.lines) /\ x.introns = Mass(st.introns)
  /\ x.useprog = Total(st.prog) /\ x.useinstr = Total(st.instr) /\ Lists(x.instr, st.instr)
  /\ { x.handlers[k].src : k \in 1..Len(x.handlers) } = { a[1] : a \in DOMAIN st.loc }
  /\ \A k \in 1..Len(x.handlers) :
       LET h == x.handlers[k]  D == { a \in DOMAIN st.loc : a[1] = h.src } IN
       /\ h.nloc = Cardinality(D) /\ h.acc = Sum(st.loc, D)
       /\ Lists(h.loc, [q \in { a[2] : a \in D } |-> st.loc[<<h.src, q>>]])
WorkIs(x, w) == x.teams = w.teams /\ x.progs = w.progs /\ x.lines = w.lines /\ Lists(x.instr, w.instr)
AvgIs(x) == x.n = Total(inf) /\ WorkIs(x, WorkOfBag(g, cost, inf))
Describes(x, name(_)) ==
  LET W == [k \in 1..Len(kept) |-> Work(g, cost, kept[k])]
      D == Distrib(kept, W) IN
  /\ Len(x.traces) = Len(kept)
  /\ \A k \in 1..Len(kept) : /\ [j \in 1..Len(x.traces[k].path) |-> name(x.traces[k].path[j])] = kept[k]
                             /\ WorkIs(x.traces[k], W[k])
  /\ Lists(x.teams, D.teams) /\ Lists(x.progs, D.progs) /\ Lists(x.lines, D.lines) /\ ListsF(x.instr, D.instr)
  /\ Lists([k \in 1..Len(x.used) |-> <<name(x.used[k][1]), x.used[k][2]>>], D.used)
G == UNCHANGED <<env, g, progs, cost>>
P == G /\ UNCHANGED <<inf, hist, kept>>
X == G /\ UNCHANGED st
TNext ==
  \/ /\ IsEvent("Env") /\ env' = [nreg |-> Ev.nreg, ncst |-> Ev.ncst, srcs |-> Ev.srcs, ops |-> Ev.ops]
     /\ g' = NoGraph /\ progs' = <<>> /\ cost' = <<>> /\ st' = NoStats /\ inf' = <<>> /\ hist' = <<>> /\ kept' = <<>>
  \/ /\ IsEvent("Graph") /\ ViewOK(Ev.graph) /\ g' = GraphOf(Ev.graph) /\ progs' = ProgsOf(Ev.progs) /\ cost' = Costs(progs')
     /\ UNCHANGED <<env, st, inf, hist, kept>>
  (* policies *)
  \/ IsEvent("Clear") /\ st' = NoStats /\ P
  \/ IsEvent("Line") /\ st' = WithLine(env, st, progs[Ev.p].lines[Ev.k]) /\ P
  \/ IsEvent("Prog") /\ st' = WithProg(env, progs, st, Ev.p) /\ P
  \/ IsEvent("Team") /\ st' = WithTeam(g, st, Ev.v) /\ P
  \/ IsEvent("Action") /\ st' = WithAction(g, st, Ev.v) /\ P
  \/ IsEvent("Policy") /\ st = NoStats /\ st' = PolicyStats(env, progs, g, Ev.root) /\ P
  \/ IsEvent("Stats") /\ Shows(Ev) /\ UNCHANGED st /\ P
  \/ IsEvent("Text") /\ Prints(Ev) /\ UNCHANGED st /\ P
  (* executions *)
  \/ /\ IsEvent("Run") /\ X /\ UNCHANGED kept
     /\ IF Ev.eng = 0 THEN UNCHANGED <<inf, hist>>
        ELSE inf' = Bump(inf, Ev.path, 1) /\ hist' = (Ev.eng :> Append(Hist(Ev.eng), Ev.path)) @@ hist
  \/ (* the same inference n times, not kept by the engine *)
     IsEvent("Many") /\ X /\ UNCHANGED kept /\ inf' = Bump(inf, Ev.path, Ev.n) /\ hist' = (Ev.eng :> <<>>) @@ hist
  \/ IsEvent("Reset") /\ X /\ inf' = <<>> /\ UNCHANGED <<hist, kept>>
  \/ IsEvent("ClearHist") /\ X /\ hist' = (Ev.eng :> <<>>) @@ hist /\ UNCHANGED <<inf, kept>>
  \/ IsEvent("Graphs") /\ AvgIs(Ev.avg) /\ X /\ UNCHANGED <<inf, hist, kept>>
  \/ IsEvent("OneTrace") /\ kept' = Append(kept, Ev.path) /\ X /\ UNCHANGED <<inf, hist>>
  \/ IsEvent("ClearStats") /\ kept' = <<>> /\ X /\ UNCHANGED <<inf, hist>>
  \/ IsEvent("Exec") /\ AvgIs(Ev.avg) /\ kept' = Hist(Ev.eng) /\ X /\ UNCHANGED <<inf, hist>>
  \/ IsEvent("Read") /\ Describes(Ev, LAMBDA v : v) /\ X /\ UNCHANGED <<inf, hist, kept>>
  \/ IsEvent("Json") /\ AvgIs(Ev.avg) /\ Describes(Ev, LAMBDA k : g.verts[k + 1]) /\ X /\ UNCHANGED <<inf, hist, kept>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
