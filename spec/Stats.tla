-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Statistics of a policy and of its executions (property C18).            *)
(* A statistic over keys is a function from the keys counted to numbers    *)
(* > 0; keys never counted are absent.                                     *)
(***************************************************************************)
EXTENDS Counters

Bump(f, k, n) == IF n = 0 THEN f
                 ELSE [x \in DOMAIN f \cup {k} |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x = k THEN n ELSE 0)]
(* how many elements of S have each value of f *)
Tally(S, f(_)) == [k \in { f(x) : x \in S } |-> Cardinality({ x \in S : f(x) = k })]
BagOf(s) == Tally(1..Len(s), LAMBDA k : s[k])
Merge(f, h) == [k \in DOMAIN f \cup DOMAIN h |-> (IF k \in DOMAIN f THEN f[k] ELSE 0) + (IF k \in DOMAIN h THEN h[k] ELSE 0)]

(* ------------------------- the structure of a policy --------------------- *)
NoStats == [prog |-> <<>>, team |-> <<>>, action |-> <<>>, actid |-> <<>>, lines |-> <<>>, introns |-> <<>>,
            outs |-> <<>>, instr |-> <<>>, loc |-> <<>>, levels |-> <<>>, depth |-> 0, teams |-> 0]
(* data locations one line reads: triples <<source, position, operand and element>> *)
LineLocs(env, l) ==
  UNION { LET s == AllSrcs(env)[l.o[k][1] + 1]
              t == OpTypes[OpOf(env, l)][k]
              p == Touched(s, t, l.o[k][2] % Space(s, t))
          IN { <<l.o[k][1], p[j], <<k, j>> >> : j \in 1..Len(p) } : k \in 1..NbOperands(env, l) }
(* ... and all effective lines of the programs P *)
EffLines(progs, P) ==
  UNION { { <<p, k>> : k \in { k \in 1..Len(progs[p].lines) : ~progs[p].lines[k].x } } : p \in P }
LocsOf(env, progs, P) ==
  UNION { { <<a[1], a[2], x, a[3]>> : a \in LineLocs(env, progs[x[1]].lines[x[2]]) } : x \in EffLines(progs, P) }
NbIntrons(p) == Cardinality({ k \in 1..Len(p.lines) : p.lines[k].x })

(* vertices by distance from r *)
RECURSIVE LevelsFrom(_, _, _)
LevelsFrom(g, S, seen) ==
  IF S = {} THEN <<>>
  ELSE LET n == { g.edges[e].dst : e \in { e \in E(g) : g.edges[e].src \in S } } \ (seen \cup S)
       IN <<S>> \o LevelsFrom(g, n, seen \cup S)
(* everything at once: the definition of the statistics of the policy at r *)
PolicyStats(env, progs, g, r) ==
  LET L == LevelsFrom(g, {r}, {})
      RV == UNION ToSet(L)
      RT == RV \cap Teams(g)
      RE == { e \in E(g) : g.edges[e].src \in RV }
      RP == { g.edges[e].prog : e \in RE }
      uses(v) == (IF v = r THEN 1 ELSE 0) + Cardinality(Ins(g, v) \cap RE)
      \* arrivals at distance d: the root, or the edges that leave distance d - 1
      arr(d) == IF d = 0 THEN 1 ELSE Cardinality({ e \in RE : g.edges[e].src \in L[d] })
      D == { d \in 0..Len(L) : arr(d) > 0 }
      RA == RV \cap Actions(g)
  IN [prog |-> Tally(RE, LAMBDA e : g.edges[e].prog),
      team |-> [t \in RT |-> uses(t)],
      action |-> [a \in RA |-> uses(a)],
      actid |-> [i \in { g.act[a] : a \in RA } |-> FoldSet(LAMBDA a, n : n + uses(a), 0, { a \in RA : g.act[a] = i })],
      lines |-> Tally(RP, LAMBDA p : Len(progs[p].lines)),
      introns |-> Tally(RP, LAMBDA p : NbIntrons(progs[p])),
      outs |-> Tally(RT, LAMBDA t : Len(g.outs[t])),
      instr |-> Tally(EffLines(progs, RP), LAMBDA x : progs[x[1]].lines[x[2]].i),
      loc |-> Tally(LocsOf(env, progs, RP), LAMBDA a : <<a[1], a[2]>>),
      levels |-> [d \in D |-> arr(d)],
      depth |-> CHOOSE d \in D : \A x \in D : x <= d,
      teams |-> Cardinality(RT)]
(* one element at a time *)
WithLine(env, st, l) ==
  [st EXCEPT !.instr = Bump(@, l.i, 1),
             !.loc = Merge(@, Tally(LineLocs(env, l), LAMBDA a : <<a[1], a[2]>>))]
WithProg(env, progs, st, p) ==
  IF p \in DOMAIN st.prog THEN [st EXCEPT !.prog = Bump(@, p, 1)]
  ELSE LET s == FoldLeft(LAMBDA a, l : IF l.x THEN a ELSE WithLine(env, a, l), st, progs[p].lines)
       IN [s EXCEPT !.prog = Bump(@, p, 1), !.lines = Bump(@, Len(progs[p].lines), 1),
                    !.introns = Bump(@, NbIntrons(progs[p]), 1)]
WithTeam(g, st, t) ==
  LET s == [st EXCEPT !.team = Bump(@, t, 1)]
  IN IF t \in DOMAIN st.team THEN s ELSE [s EXCEPT !.teams = @ + 1, !.outs = Bump(@, Len(g.outs[t]), 1)]
WithAction(g, st, a) == [st EXCEPT !.action = Bump(@, a, 1), !.actid = Bump(@, g.act[a], 1)]

(* ----------------------- the executions of a policy ---------------------- *)
(* what executing a program once costs: [lines, instr : instruction -> executions] *)
Costs(progs) == [p \in DOMAIN progs |-> [lines |-> Len(progs[p].lines), instr |-> BagOf([k \in 1..Len(progs[p].lines) |-> progs[p].lines[k].i])]]
NoWork == [teams |-> 0, progs |-> 0, lines |-> 0, instr |-> <<>>]
AddWork(a, b) == [teams |-> a.teams + b.teams, progs |-> a.progs + b.progs, lines |-> a.lines + b.lines,
                  instr |-> Merge(a.instr, b.instr)]
TimesWork(w, n) == [teams |-> n * w.teams, progs |-> n * w.progs, lines |-> n * w.lines,
                    instr |-> IF n = 0 THEN <<>> ELSE [i \in DOMAIN w.instr |-> n * w.instr[i]]]
EdgeWork(g, cost, e) == LET p == cost[g.edges[e].prog] IN [teams |-> 0, progs |-> 1, lines |-> p.lines, instr |-> p.instr]
(* the work of one inference: a team of an acyclic graph is evaluated once, with all its edges *)
Work(g, cost, path) ==
  FoldLeft(LAMBDA a, e : AddWork(a, EdgeWork(g, cost, e)), [NoWork EXCEPT !.teams = Len(path) - 1], Evaluated(g, path))
(* the work of several inferences *)
WorkOf(g, cost, paths) == FoldLeft(LAMBDA a, p : AddWork(a, Work(g, cost, p)), NoWork, paths)
(* ... when f tells how many took each path *)
WorkOfBag(g, cost, f) == FoldSet(LAMBDA p, a : AddWork(a, TimesWork(Work(g, cost, p), f[p])), NoWork, DOMAIN f)
(* the same, from the counters of the graph *)
CountedWork(g, cost, c) ==
  FoldSet(LAMBDA e, a : AddWork(a, TimesWork(EdgeWork(g, cost, e), c.e[e])), [NoWork EXCEPT !.teams = Sum(c.v, Teams(g))], E(g))
(* distributions over a sequence of inferences that did the work W *)
Distrib(paths, W) ==
  LET I == UNION { DOMAIN W[k].instr : k \in 1..Len(paths) }
      occ == UNION { { <<k, j>> : j \in 1..Len(paths[k]) } : k \in 1..Len(paths) }
  IN [teams |-> Tally(1..Len(W), LAMBDA k : W[k].teams),
      progs |-> Tally(1..Len(W), LAMBDA k : W[k].progs),
      lines |-> Tally(1..Len(W), LAMBDA k : W[k].lines),
      instr |-> [i \in I |-> Tally({ k \in 1..Len(W) : i \in DOMAIN W[k].instr }, LAMBDA k : W[k].instr[i])],
      used |-> Tally(occ, LAMBDA x : paths[x[1]][x[2]])]
=============================================================================
