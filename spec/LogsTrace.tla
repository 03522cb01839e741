------------------------------ MODULE LogsTrace ------------------------------
(* Recorded trainings: what each logger was told, what the loggers of the     *)
(* library printed (C21).  Recorders 1 and 2 surround them; others come later.*)
EXTENDS Logs, TraceLib, SequencesExt
VARIABLES P,      \* doValidation, number of generations, moments of construction
          n,      \* number of recorders
          run,    \* "idle", "one" (a single generation) or "train"
          gen,    \* the generation under way
          k, told,\* step (0: none) and how many recorders know it
          F,      \* step -> what recorder 1 was told (and the moments)
          last,   \* best root known to the policy logger
          stop, made
tvars == <<P, n, run, gen, k, told, F, last, stop, made, l>>
TInit == P = <<>> /\ n = 0 /\ run = "idle" /\ gen = -1 /\ k = 0 /\ told = 0 /\ F = <<>> /\ last = 0 /\ stop = FALSE /\ made = 0 /\ l = 1
Header(val) ==
  <<"Train">> \o (IF val THEN <<"Valid">> ELSE <<>>) \o <<"Gen", "NbVert", "Min", "Avg", "Max">>
  \o (IF val THEN <<"Min", "Avg", "Max">> ELSE <<>>) \o <<"T_mutat", "T_eval">> \o (IF val THEN <<"T_valid">> ELSE <<>>) \o <<"T_total">>
S == Steps(P.val)
Perm(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
(* what does not depend on the recorder *)
Facts == [what |-> Ev.what, roots |-> Ev.roots, nv |-> Ev.nv,
          gen |-> IF Ev.what = "new" THEN Ev.gen ELSE 0,
          ids |-> IF Ev.what \in {"eval", "valid"} THEN Ev.ids ELSE <<>>,
          res |-> IF Ev.what \in {"eval", "valid"} THEN Ev.res ELSE <<>>,
          best |-> IF Ev.what = "decim" THEN Ev.best ELSE 0,
          bs |-> IF Ev.what = "decim" THEN Ev.bs ELSE 0]
Step(f, i) ==
  /\ f.what = S[i]
  /\ i > 1 => LET g == F[i - 1] IN
       /\ f.what \in {"eval", "valid", "end"} => f.roots = g.roots /\ f.nv = g.nv
       /\ f.what \in {"eval", "valid"} => Perm(f.ids, f.roots) /\ Sorted(f.res)
       /\ f.what = "decim" => f.nv <= g.nv /\ (f.best # 0 => f.bs >= -1000000000)
Dur(x, a, b) == Duration(x, F[a].out, F[a].in2, F[b].out, F[b].in2, 100)
RowOk(r, f2, m) == \* m: moment at which recorder 2 was told of the end
  LET val == P.val c == IF val THEN 8 ELSE 5 e == Len(S) IN
  /\ Len(r) = (IF val THEN 12 ELSE 8)
  /\ r[1] = gen /\ r[2] = F[2].nv
  /\ Summary(r[3], r[4], r[5], F[3].res)
  /\ val => Summary(r[6], r[7], r[8], F[5].res) /\ Dur(r[11], 3, 5)
  /\ Dur(r[c + 1], 1, 2) /\ Dur(r[c + 2], 2, 3)
  /\ Duration(r[Len(r)], P.c1, P.c2, F[e].out, m, 100)
PolicyOk(p, f) ==
  IF Describes(last, f.best)
  THEN p.ok /\ p.gen = gen /\ Abs(p.score - f.bs) <= 6 /\ p.stats
  ELSE p.len = 0
Note(f) ==
  LET fresh == told = 0
      i == IF fresh THEN k + 1 ELSE k
      end == told + 1 = n IN
  /\ run # "idle" /\ i <= Len(S) /\ Ev.who = told + 1
  /\ IF fresh
     THEN /\ Step(f, i)
          /\ i = 1 => IF run = "one" THEN made = 0 /\ f.gen = gen ELSE ~stop /\ made < P.ngen /\ f.gen = made
          /\ F' = (IF i = 1 THEN <<>> ELSE F) \o <<f @@ [out |-> Ev.out, in2 |-> 0]>>
          /\ gen' = IF i = 1 THEN f.gen ELSE gen
     ELSE /\ \A x \in DOMAIN f : F[i][x] = f[x]
          /\ F' = IF Ev.who = 2 THEN [F EXCEPT ![i].in2 = Ev.in] ELSE F
          /\ gen' = gen
  /\ Ev.who = 2 /\ f.what = "end" => Ev.line /\ RowOk(Ev.row, f, Ev.in)
  /\ Ev.who = 2 /\ f.what = "decim" => PolicyOk(Ev.pol, f)
  /\ last' = IF Ev.who = 2 /\ f.what = "decim" THEN f.best ELSE last
  /\ stop' = (stop \/ Ev.raise)
  /\ told' = IF end THEN 0 ELSE told + 1
  /\ IF end /\ i = Len(S) THEN k' = 0 /\ made' = made + 1 ELSE k' = i /\ made' = made
Quiet == k = 0 /\ told = 0
BarOk(b, pb) ==
  IF ~pb THEN b.len = 0
  ELSE /\ b.n = made
       /\ made > 0 => Abs(b.pct * P.ngen - made * 10000) <= P.ngen
       /\ IF stop THEN b.end = "alted" /\ b.at = made ELSE b.end = "completed"
TNext ==
  \/ IsEvent("Start") /\ run = "idle" /\ Ev.head = Header(Ev.val)
     /\ P' = [val |-> Ev.val, ngen |-> Ev.ngen, c1 |-> Ev.c1, c2 |-> Ev.c2]
     /\ n' = 2 /\ run' = "idle" /\ gen' = -1 /\ k' = 0 /\ told' = 0 /\ F' = <<>> /\ last' = 0 /\ stop' = FALSE /\ made' = 0
  \/ IsEvent("Add") /\ run = "idle" /\ Ev.who = n + 1 /\ n' = n + 1
     /\ UNCHANGED <<P, run, gen, k, told, F, last, stop, made>>
  \/ IsEvent("One") /\ run = "idle" /\ run' = "one" /\ gen' = Ev.gen /\ made' = 0 /\ stop' = FALSE
     /\ UNCHANGED <<P, n, k, told, F, last>>
  \/ IsEvent("OneEnd") /\ run = "one" /\ Quiet /\ made = 1 /\ run' = "idle"
     /\ UNCHANGED <<P, n, gen, k, told, F, last, stop, made>>
  \/ IsEvent("Train") /\ run = "idle" /\ run' = "train" /\ made' = 0 /\ stop' = Ev.stop
     /\ UNCHANGED <<P, n, gen, k, told, F, last>>
  \/ IsEvent("TrainEnd") /\ run = "train" /\ Quiet /\ (stop \/ made = P.ngen) /\ Ev.made = made /\ BarOk(Ev.bar, Ev.pb) /\ run' = "idle"
     /\ UNCHANGED <<P, n, gen, k, told, F, last, stop, made>>
  \/ IsEvent("Note") /\ Note(Facts) /\ UNCHANGED <<P, n, run>>
  \/ IsEvent("Over") /\ run = "idle" /\ Ev.table = 0 /\ Ev.policy = 0
     /\ UNCHANGED <<P, n, run, gen, k, told, F, last, stop, made>>
  \/ IsEvent("Same") /\ Ev.same /\ UNCHANGED <<P, n, run, gen, k, told, F, last, stop, made>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
