---------------------------- MODULE ClassifTrace ----------------------------
(* Recorded guesses, evaluations and selections of classification agents.     *)
EXTENDS Classif, TraceLib
VARIABLES t,        \* confusion tables of the environments of a guess history
          P,        \* parameters: nact, ratio (eighths), iters, maxacts, maxeval, val
          V, teams, E,
          recs,     \* vertex -> recorded result
          best,     \* <<>> or <<vertex, general score, evaluations>>
          ph, ctx, done
gv == <<V, teams, E>>
vars == <<t, P, V, teams, E, recs, best, ph, ctx, done, l>>
Learner == INSTANCE Learn WITH recs <- [v \in DOMAIN recs |-> <<recs[v].g, 1>>],
                               best <- IF best = <<>> THEN <<>> ELSE <<best[1], <<best[2], 1>>>>
Tol == 4
Idle == [mode |-> 0, gen |-> 0, todo |-> {}, n |-> 0]
TInit == /\ l = 1 /\ t = <<>> /\ P = [nact |-> 0] /\ V = {} /\ teams = {} /\ E = {} /\ recs = <<>> /\ best = <<>>
         /\ ph = "idle" /\ ctx = Idle /\ done = <<>>
Keep == UNCHANGED <<P, V, teams, E, recs, best, ph, ctx, done>>
KeepT == UNCHANGED t

(* ---- histories of guesses --------------------------------------------- *)
TNewEnv == IsEvent("NewEnv") /\ t' = <<Zero(Ev.n)>> /\ Ev.score = 0 /\ Ev.table = t'[1] /\ Keep
Shown(i) == Ev.table = t'[i] /\ Near(Ev.score, Score(t'[i]), Tol)
TGuess == /\ IsEvent("Guess") /\ Keep
          /\ LET n == Len(t[Ev.i])
                 ok == Ev.guess \in 1..n IN
             Ev.ok = ok /\ t' = IF ok THEN [t EXCEPT ![Ev.i] = Guess(@, Ev.class, Ev.guess)] ELSE t
          /\ Shown(Ev.i)
TReset == IsEvent("Reset") /\ t' = [t EXCEPT ![Ev.i] = Zero(Len(@))] /\ Shown(Ev.i) /\ Keep
TCopy == IsEvent("Copy") /\ t' = Append(t, t[Ev.i]) /\ Shown(Len(t')) /\ Keep
TLook == IsEvent("Look") /\ UNCHANGED t /\ Shown(Ev.i) /\ Keep

(* ---- trainings ------------------------------------------------------------ *)
EvV == { x[1] : x \in Range(Ev.verts) }
EvT == { x[1] : x \in { y \in Range(Ev.verts) : y[2] = "T" } }
EvE == { <<x[1], x[2]>> : x \in Range(Ev.edges) }
FunOf(s) == [v \in { x[1] : x \in Range(s) } |-> (CHOOSE x \in Range(s) : x[1] = v)[2]]
RootsOf(v, e) == v \ { x[2] : x \in e }
Roots == RootsOf(V, E)
Look ==
  /\ EvV = V' /\ EvT = teams' /\ EvE = E' /\ Range(Ev.roots) = RootsOf(V', E')
  /\ FunOf(Ev.recs) = recs'
  /\ Ev.best = best' /\ Ev.stale = 0
  /\ DOMAIN recs' \subseteq V' /\ (best' # <<>> => best'[1] \in V')
Same == UNCHANGED <<t, P, V, teams, E, recs, best>>
TNew == IsEvent("New") /\ P' = Ev /\ V' = {} /\ teams' = {} /\ E' = {} /\ recs' = <<>> /\ best' = <<>>
        /\ ph' = "idle" /\ ctx' = Idle /\ done' = <<>> /\ KeepT
TInitAgent ==
  /\ IsEvent("Init") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ recs' = <<>> /\ best' = <<>> /\ UNCHANGED P
  /\ Look /\ ph' = "idle" /\ ctx' = Idle /\ done' = <<>> /\ KeepT

(* The result of an evaluation: per class, the mean over the iterations of    *)
(* the F1 of each iteration's guesses, accumulated with the past weighted by  *)
(* the samples of the class met; the general score is the mean over classes.  *)
Exhausted(v) == v \in DOMAIN recs /\ recs[v].tot >= P.maxeval
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
ResultOK(r, tabs, mode, v) ==
  LET n == P.nact
      k == Len(tabs)
      cnt == [c \in 1..n |-> SumSeq([i \in 1..k |-> Seen(tabs[i], c)])]
      f == [c \in 1..n |-> RoundDiv(SumSeq([i \in 1..k |-> F1(tabs[i], c)]), k)]
      past == mode = 0 /\ v \in DOMAIN recs
      m == [c \in 1..n |-> IF past THEN recs[v].n[c] ELSE 0]
      s == [c \in 1..n |-> IF ~past \/ m[c] = 0 THEN f[c]
                           ELSE RoundDiv(f[c] * cnt[c] + recs[v].s[c] * m[c], cnt[c] + m[c])] IN
  /\ Len(r.s) = n /\ Len(r.n) = n
  /\ \A c \in 1..n : r.n[c] = cnt[c] + m[c] /\ Near(r.s[c], s[c], Tol)
  /\ r.tot = SumSeq(r.n)
  /\ Near(r.g * n, SumSeq(r.s), Tol * n)
Pairs(g) == [i \in 1..Len(g) |-> <<g[i][1], g[i][2]>>]
TJob ==
  /\ IsEvent("Job") /\ ph \in {"eval", "valid", "one", "all"} /\ Same
  /\ Ev.mode = ctx.mode /\ Ev.gen = ctx.gen /\ Ev.root \in ctx.todo
  /\ IF Ev.mode = 0 /\ Exhausted(Ev.root)
     THEN Ev.iters = <<>> /\ Ev.res = recs[Ev.root]
     ELSE /\ Len(Ev.iters) = P.iters
          /\ \A k \in 1..Len(Ev.iters) : LET i == Ev.iters[k] IN
               /\ i.iter = k - 1 /\ i.gen = ctx.gen /\ i.mode = ctx.mode
               /\ Len(i.acts) = Min({i.limit, P.maxacts}) /\ ~i.late
               /\ i.acts = i.exp
               /\ [x \in 1..Len(i.guesses) |-> i.guesses[x][2] - 1] = i.acts
          /\ ResultOK(Ev.res, [k \in 1..Len(Ev.iters) |-> TableOf(P.nact, Pairs(Ev.iters[k].guesses))], Ev.mode, Ev.root)
  /\ done' = [v \in DOMAIN done \cup {Ev.root} |-> IF v = Ev.root THEN Ev.res ELSE done[v]]
  /\ ctx' = [ctx EXCEPT !.todo = @ \ {Ev.root}, !.n = @ + 1]
  /\ UNCHANGED ph
EvRes == FunOf(Ev.results)
ResultsOK ==
  /\ ctx.todo = {} /\ EvRes = done /\ Len(Ev.results) = Cardinality(DOMAIN done) /\ ctx.n = Len(Ev.results)
  /\ \A k \in 1..(Len(Ev.results) - 1) : Ev.results[k][2].g <= Ev.results[k + 1][2].g
Begin(mode, gen, todo) == ctx' = [mode |-> mode, gen |-> gen, todo |-> todo, n |-> 0] /\ done' = <<>>
TGen == IsEvent("Gen") /\ ph = "idle" /\ Same /\ ph' = "gen" /\ Begin(0, Ev.gen, {})
TPopulated ==
  /\ IsEvent("Populated") /\ ph = "gen" /\ KeepT /\ UNCHANGED P
  /\ V' = EvV /\ teams' = EvT /\ E' = EvE
  /\ Cardinality(RootsOf(V', E')) >= P.roots
  /\ IF Roots \cap teams = {} THEN recs' = <<>> /\ best' = <<>>
     ELSE V \subseteq V' /\ V \cap teams' = teams /\ UNCHANGED <<recs, best>>
  /\ Look /\ ph' = "eval" /\ Begin(0, ctx.gen, RootsOf(V', E'))
TEvaluated == IsEvent("Evaluated") /\ ph = "eval" /\ Same /\ Look /\ ResultsOK /\ ph' = "decimate" /\ UNCHANGED <<ctx, done>>

(* Selection of the survivors among the roots with results R                  *)
Selects(R, S) ==
  SelectOK(DOMAIN R, DOMAIN R \ teams, [v \in DOMAIN R |-> R[v].g], [v \in DOMAIN R |-> R[v].s], P.nact,
           (P.ratio * Cardinality(DOMAIN R)) \div 8, S)
Selection(R, X) ==
  /\ DOMAIN R = Roots /\ X \subseteq Roots /\ Selects(R, Roots \ X)
  /\ V' = V \ X /\ teams' = teams \ X /\ E' = { e \in E : e[1] \notin X }
  /\ recs' = [v \in (DOMAIN recs \ X) \cup (DOMAIN R \ X) |-> IF v \in DOMAIN R THEN R[v] ELSE recs[v]]
  /\ UNCHANGED P
BestOK(R, X) ==
  LET b == IF best' = <<>> THEN <<>> ELSE <<best'[1], <<best'[2], 1>>>> IN
  /\ Learner!NextBest([v \in DOMAIN R |-> <<R[v].g, 1>>], X, b)
  /\ best' # <<>> /\ best'[1] \in DOMAIN R => best'[2] = R[best'[1]].g /\ best'[3] = R[best'[1]].tot
TDecimated ==
  /\ IsEvent("Decimated") /\ ph = "decimate" /\ KeepT
  /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ best' = Ev.best
  /\ Selection(done, V \ EvV) /\ BestOK(done, V \ EvV) /\ Look
  /\ Ev.top = Max({ done[v].g : v \in DOMAIN done })
  /\ ph' = (IF P.val THEN "valid" ELSE "end") /\ Begin(1, ctx.gen, RootsOf(V', E'))
TValidated == IsEvent("Validated") /\ ph = "valid" /\ Same /\ Look /\ ResultsOK /\ ph' = "end" /\ UNCHANGED <<ctx, done>>
TGenEnd == IsEvent("GenEnd") /\ ph = "end" /\ Same /\ ph' = "idle" /\ UNCHANGED <<ctx, done>>
TOne == IsEvent("One") /\ ph = "idle" /\ Same /\ ph' = "one" /\ Begin(Ev.mode, Ev.gen, {Ev.v})
TOneEnd == /\ IsEvent("OneEnd") /\ ph = "one" /\ Same /\ Look /\ ph' = "idle" /\ ctx.todo = {} /\ UNCHANGED <<ctx, done>>

(* selection alone                                                            *)
TBuild == /\ IsEvent("Build") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ recs' = <<>> /\ best' = <<>> /\ UNCHANGED P
          /\ Look /\ UNCHANGED <<ph, ctx, done>> /\ KeepT
TSelect == /\ IsEvent("Select") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ best' = Ev.best
           /\ Selection(EvRes, V \ EvV) /\ BestOK(EvRes, V \ EvV) /\ Look
           /\ FunOf(Ev.left) = [v \in DOMAIN EvRes \cap EvV |-> EvRes[v]]
           /\ Len(Ev.left) = Cardinality(DOMAIN EvRes \cap EvV)
           /\ UNCHANGED <<ph, ctx, done>> /\ KeepT
(* results of another kind are refused                                        *)
TRefuse == IsEvent("Refuse") /\ Ev.refused /\ Same /\ Look /\ UNCHANGED <<ph, ctx, done>>

TNext == TNewEnv \/ TGuess \/ TReset \/ TCopy \/ TLook \/ TNew \/ TInitAgent \/ TJob \/ TGen \/ TPopulated
         \/ TEvaluated \/ TDecimated \/ TValidated \/ TGenEnd \/ TOne \/ TOneEnd \/ TBuild \/ TSelect \/ TRefuse
TSpec == TInit /\ [][TNext]_vars
=============================================================================
