----------------------------- MODULE LearnTrace -----------------------------
EXTENDS Learn, TraceLib
VARIABLES ph,       \* what is under way: "idle", "gen", "eval", "decimate", "all", "one"
          ctx,      \* [mode, gen, todo: vertices to evaluate]
          done,     \* vertex -> score of the evaluation under way
          seeds     \* <<gen, iteration>> -> environment seed
tvars == <<lvars, ph, ctx, done, seeds, l>>
Idle == [mode |-> 0, gen |-> 0, todo |-> {}, n |-> 0]
TInit == /\ l = 1 /\ P = [roots |-> 0] /\ V = {} /\ teams = {} /\ E = {} /\ recs = <<>> /\ best = <<>>
         /\ ph = "idle" /\ ctx = Idle /\ done = <<>> /\ seeds = <<>>

EvV == { x[1] : x \in Range(Ev.verts) }
EvT == { x[1] : x \in { y \in Range(Ev.verts) : y[2] = "T" } }
EvE == { <<x[1], x[2]>> : x \in Range(Ev.edges) }
EvRes == [v \in { x[1] : x \in Range(Ev.results) } |-> (CHOOSE x \in Range(Ev.results) : x[1] = v)[2]]
(* the complete projection agrees with the next state                        *)
Look ==
  /\ EvV = V' /\ EvT = teams' /\ EvE = E'
  /\ Range(Ev.roots) = Roots'
  /\ { x[1] : x \in Range(Ev.recs) } = DOMAIN recs'
  /\ \A x \in Range(Ev.recs) : recs'[x[1]] = x[2] /\ (x[3] = (x[2][2] >= P'.maxeval))
  /\ Ev.best = best'
  /\ Ev.stale = 0
  /\ RecsLive' /\ BestLive'
Same == UNCHANGED lvars

TNew == IsEvent("New") /\ P' = Ev /\ V' = {} /\ teams' = {} /\ E' = {} /\ recs' = <<>> /\ best' = <<>>
        /\ ph' = "idle" /\ ctx' = Idle /\ done' = <<>> /\ seeds' = <<>>
(* initialising (again) leaves nothing of the past                            *)
TInitAgent ==
  /\ IsEvent("Init") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ recs' = <<>> /\ best' = <<>> /\ UNCHANGED P
  /\ Ev.zero /\ Look /\ ph' = "idle" /\ ctx' = Idle /\ done' = <<>> /\ UNCHANGED seeds
TForget == IsEvent("Forget") /\ ph = "idle" /\ Forget /\ Look /\ UNCHANGED <<ph, ctx, done, seeds>>
TKeep == IsEvent("KeepBest") /\ ph = "idle" /\ KeepBest /\ Look /\ Roots' = {best[1]} /\ UNCHANGED <<ph, ctx, done, seeds>>

(* ---- evaluations ----------------------------------------------------------- *)
TJob ==
  /\ IsEvent("Job") /\ ph \in {"eval", "valid", "all", "one"} /\ Same
  /\ Ev.mode = ctx.mode /\ Ev.gen = ctx.gen /\ Ev.root \in ctx.todo
  /\ IF Ev.mode = TRAINING /\ Exhausted(Ev.root)
     THEN Ev.iters = <<>> /\ Ev.res = recs[Ev.root] /\ UNCHANGED seeds
     ELSE /\ Len(Ev.iters) = P.iters
          /\ \A k \in 1..Len(Ev.iters) : LET i == Ev.iters[k] IN
               /\ i.iter = k - 1 /\ i.gen = ctx.gen /\ i.mode = ctx.mode
               /\ Len(i.acts) = Played(i.limit) /\ ~i.late
               /\ i.acts = i.exp                        \* the policy decides every action
               /\ Len(i.scores) = 1
          (* one seed per generation and iteration, different between iterations of a generation *)
          /\ seeds' = [x \in DOMAIN seeds \cup { <<ctx.gen, k - 1>> : k \in 1..Len(Ev.iters) } |->
                         IF x \in DOMAIN seeds THEN seeds[x] ELSE Ev.iters[x[2] + 1].seed]
          /\ \A k \in 1..Len(Ev.iters) : seeds'[<<ctx.gen, k - 1>>] = Ev.iters[k].seed
          /\ \A x, y \in DOMAIN seeds' : x # y /\ (x[1] = y[1] \/ x[2] = y[2]) => seeds'[x] # seeds'[y]
          /\ Ev.res = Scored(Ev.root, Ev.mode, [k \in 1..Len(Ev.iters) |-> Ev.iters[k].scores[1]])
  /\ done' = [v \in DOMAIN done \cup {Ev.root} |-> IF v = Ev.root THEN Ev.res ELSE done[v]]
  /\ ctx' = [ctx EXCEPT !.todo = @ \ {Ev.root}, !.n = @ + 1]
  /\ UNCHANGED ph
(* the reported results: every root once, each with its score, in order        *)
ResultsOK ==
  /\ ctx.todo = {} /\ EvRes = done /\ Len(Ev.results) = Cardinality(DOMAIN done) /\ ctx.n = Len(Ev.results)
  /\ \A k \in 1..(Len(Ev.results) - 1) : Leq(Ev.results[k][2], Ev.results[k + 1][2])
Begin(mode, gen, todo) == ctx' = [mode |-> mode, gen |-> gen, todo |-> todo, n |-> 0] /\ done' = <<>>

(* ---- one generation ----------------------------------------------------------- *)
TGen == /\ IsEvent("Gen") /\ ph = "idle" /\ Same /\ ph' = "gen"
        /\ Begin(TRAINING, Ev.gen, {}) /\ UNCHANGED seeds
TPopulated == /\ IsEvent("Populated") /\ ph = "gen" /\ Populate(EvV, EvT, EvE) /\ Look
              /\ ph' = "eval" /\ Begin(TRAINING, ctx.gen, Roots') /\ UNCHANGED seeds
TEvaluated == /\ IsEvent("Evaluated") /\ ph = "eval" /\ Same /\ Look /\ ResultsOK
              /\ ph' = "decimate" /\ UNCHANGED <<ctx, done, seeds>>
TDecimated == /\ IsEvent("Decimated") /\ ph = "decimate"
              /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ best' = Ev.best
              /\ Decimate(done, V \ EvV) /\ Look
              /\ \E v \in Range(Ev.top) : \A w \in DOMAIN done : Leq(done[w], done[v])   \* best score of the generation
              /\ ph' = (IF P.val THEN "valid" ELSE "end")
              /\ Begin(1, ctx.gen, Roots') /\ UNCHANGED seeds
TValidated == /\ IsEvent("Validated") /\ ph = "valid" /\ Same /\ Look /\ ResultsOK
              /\ ph' = "end" /\ UNCHANGED <<ctx, done, seeds>>
TGenEnd == /\ IsEvent("GenEnd") /\ ph = "end" /\ Same /\ ph' = "idle" /\ UNCHANGED <<ctx, done, seeds>>

(* ---- evaluations outside training ------------------------------------------------ *)
TOne == IsEvent("One") /\ ph = "idle" /\ Same /\ ph' = "one" /\ Begin(Ev.mode, Ev.gen, {Ev.v}) /\ UNCHANGED seeds
TOneEnd == /\ IsEvent("OneEnd") /\ ph = "one" /\ Same /\ Look /\ ph' = "idle"
           /\ ctx.todo = {} /\ Cardinality(DOMAIN done) = 1 /\ \A v \in DOMAIN done : Ev.res = done[v]
           /\ UNCHANGED <<ctx, done, seeds>>
TAll == IsEvent("All") /\ ph = "idle" /\ Same /\ ph' = "all" /\ Begin(Ev.mode, Ev.gen, Roots) /\ UNCHANGED seeds
TAllEnd == /\ IsEvent("AllEnd") /\ ph = "all" /\ Same /\ Look /\ ph' = "idle" /\ ResultsOK
           /\ UNCHANGED <<ctx, done, seeds>>

(* ---- selection alone ------------------------------------------------------------------ *)
TBuild == /\ IsEvent("Build") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ recs' = <<>> /\ best' = <<>> /\ UNCHANGED P
          /\ Look /\ UNCHANGED <<ph, ctx, done, seeds>>
TUpdate == /\ IsEvent("Update") /\ UNCHANGED <<P, V, teams, E, ph, ctx, done, seeds>>
           /\ recs' = Updated(EvRes, {}) /\ best' = Ev.best /\ NextBest(EvRes, {}, best') /\ Look
TSelect == /\ IsEvent("Select") /\ V' = EvV /\ teams' = EvT /\ E' = EvE /\ best' = Ev.best
           /\ Decimate(EvRes, V \ EvV) /\ Look
           /\ \E v \in Range(Ev.top) : \A w \in DOMAIN EvRes : Leq(EvRes[w], EvRes[v])
           /\ { x[1] : x \in Range(Ev.left) } = DOMAIN EvRes \cap EvV
           /\ \A x \in Range(Ev.left) : x[2] = EvRes[x[1]]
           /\ UNCHANGED <<ph, ctx, done, seeds>>

(* ---- algebra of evaluation results ------------------------------------------------- *)
(* shown as [kind, n, s: scores (num, den), cn: evaluations per class, g: global * 5040]  *)
Div(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Wt(r, i) == IF r.kind = "C" THEN r.cn[i] ELSE r.n
Sum(r, i) == IF Wt(r, i) = 0 THEN 0 ELSE r.s[i][1]
Merged(a, b, r) ==
  /\ r.kind = a.kind /\ r.n = a.n + b.n /\ Len(r.s) = Len(a.s)
  /\ \A i \in 1..Len(r.s) : Wt(r, i) = Wt(a, i) + Wt(b, i) /\ Sum(r, i) = Sum(a, i) + Sum(b, i)
Defined(r) == r.g # 9999 /\ \A i \in 1..Len(r.s) : r.s[i][1] # 9999 /\ (Wt(r, i) = 0 => r.s[i][1] = 0)
GlobalOK(r) == LET g == FoldSeq(LAMBDA i, a : a + Div(5040 * Sum(r, i), (IF Wt(r, i) = 0 THEN 1 ELSE Wt(r, i))), 0,
                                [i \in 1..Len(r.s) |-> i]) IN
               LET x == g - r.g * Len(r.s) IN x \in (-2 * Len(r.s) - 2)..(2 * Len(r.s) + 2)
TRes == IsEvent("Res") /\ Same /\ done' = Ev.r /\ GlobalOK(Ev.r) /\ UNCHANGED <<ph, ctx, seeds>>
TMerge ==
  /\ IsEvent("Merge") /\ Same /\ UNCHANGED <<ph, ctx, seeds>>
  /\ LET same == done.kind = Ev.b.kind /\ Len(done.s) = Len(Ev.b.s) IN
     /\ Ev.ok = same
     /\ IF same THEN Merged(done, Ev.b, Ev.r) /\ Defined(Ev.r) /\ GlobalOK(Ev.r) ELSE Ev.r = done
  /\ done' = Ev.r

TNext == TNew \/ TInitAgent \/ TForget \/ TKeep \/ TJob \/ TGen \/ TPopulated \/ TEvaluated \/ TDecimated
         \/ TValidated \/ TGenEnd \/ TOne \/ TOneEnd \/ TAll \/ TAllEnd \/ TRes \/ TMerge
         \/ TBuild \/ TUpdate \/ TSelect
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
