------------------------------- MODULE MCLogs -------------------------------
(* A training told to a witness, to the table logger and to the policy logger *)
(* one notification at a time, while time passes, the best root changes and   *)
(* the user raises the stop flag or attaches a late logger at any time.       *)
EXTENDS Logs, TLC
CONSTANTS NGEN, MAXT, VAL, Order     \* Order: the loggers in the order they were attached
MCOrder == <<"witness", "table", "policy">>
MCOrder2 == <<"policy", "table", "witness">>
Res == { <<1>>, <<0, 2>> }
VARIABLES gen, k, todo,              \* generation, step (0: between two), loggers still to be told
          now, stop, raised, ret,
          best, nv, res,
          tb,                        \* the table logger: cp, mt, et, vt, row, rows
          ps,                        \* the policy logger: last, gen, log
          tl,                        \* what the witness was told
          told                       \* ghost: facts and times of each step
vars == <<gen, k, todo, now, stop, raised, ret, best, nv, res, tb, ps, tl, told>>
S == Steps(VAL)
Init == /\ gen = 0 /\ k = 0 /\ todo = <<>> /\ now = 0 /\ stop = FALSE /\ raised = NGEN /\ ret = -1
        /\ best = 0 /\ nv = 1 /\ res = <<1>>
        /\ tb = [cp |-> 0, mt |-> 0, et |-> 0, vt |-> 0, row |-> <<>>, rows |-> <<>>]
        /\ ps = [last |-> 0, gen |-> -1, log |-> <<>>] /\ tl = <<>> /\ told = <<>>
Tick == now < MAXT /\ ret = -1 /\ now' = now + 1
        /\ UNCHANGED <<gen, k, todo, stop, raised, ret, best, nv, res, tb, ps, tl, told>>
Raise == ~stop /\ ret = -1 /\ stop' = TRUE /\ raised' = (IF k = 0 THEN gen - 1 ELSE gen)
         /\ UNCHANGED <<gen, k, todo, now, ret, best, nv, res, tb, ps, tl, told>>
(* the training does the next step *)
Work == /\ todo = <<>> /\ ret = -1
        /\ IF k = 0 /\ (stop \/ gen >= NGEN)
           THEN ret' = gen /\ UNCHANGED <<gen, k, todo, now, stop, raised, best, nv, res, tb, ps, tl, told>>
           ELSE /\ k' = k + 1 /\ todo' = Order
                /\ \E n \in 1..2, r \in Res, b \in 0..2 :
                     /\ nv' = (IF S[k + 1] = "pop" THEN n ELSE nv) /\ (S[k + 1] # "pop" => n = 1)
                     /\ res' = (IF S[k + 1] \in {"eval", "valid"} THEN r ELSE res) /\ (S[k + 1] \notin {"eval", "valid"} => r = <<1>>)
                     /\ best' = (IF S[k + 1] = "decim" THEN b ELSE best) /\ (S[k + 1] # "decim" => b = 0)
                     /\ told' = Append(told, [g |-> gen, s |-> S[k + 1], nv |-> nv', res |-> res', best |-> best', first |-> now, last |-> now])
                /\ UNCHANGED <<gen, now, stop, raised, ret, tb, ps, tl>>
Table(s) ==
  LET t == tb d == now - tb.cp IN
  IF s = "new" THEN [t EXCEPT !.row = <<gen>>, !.cp = now]
  ELSE IF s = "pop" THEN [t EXCEPT !.row = Append(@, nv), !.mt = d, !.cp = now]
  ELSE IF s = "eval" THEN [t EXCEPT !.row = @ \o <<MinOf(res), SumS(res), MaxOf(res)>>, !.et = d, !.cp = now]
  ELSE IF s = "valid" THEN [t EXCEPT !.row = @ \o <<MinOf(res), SumS(res), MaxOf(res)>>, !.vt = d]
  ELSE IF s = "end" THEN [t EXCEPT !.rows = Append(@, t.row \o <<t.mt, t.et>> \o (IF VAL THEN <<t.vt>> ELSE <<>>) \o <<now>>), !.row = <<>>]
  ELSE t
Policy(s) ==
  IF s = "new" THEN [ps EXCEPT !.gen = gen]
  ELSE IF s = "decim" /\ best # ps.last
       THEN [ps EXCEPT !.last = best, !.log = IF best = 0 THEN @ ELSE Append(@, <<ps.gen, best>>)]
  ELSE ps
Tell == /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ LET s == S[k] IN
           /\ tb' = IF Head(todo) = "table" THEN Table(s) ELSE tb
           /\ ps' = IF Head(todo) = "policy" THEN Policy(s) ELSE ps
           /\ tl' = IF Head(todo) = "witness" THEN Append(tl, <<gen, s>>) ELSE tl
           /\ told' = [told EXCEPT ![Len(told)].last = now]
           /\ IF Tail(todo) = <<>> /\ s = "end" THEN k' = 0 /\ gen' = gen + 1 ELSE UNCHANGED <<k, gen>>
        /\ UNCHANGED <<now, stop, raised, ret, best, nv, res>>
Next == Tick \/ Raise \/ Work \/ Tell \/ (ret # -1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* the witness is told the steps in order, and nothing else *)
WitnessRight == \A i \in 1..Len(tl) : tl[i] = <<(i - 1) \div Len(S), S[1 + ((i - 1) % Len(S))]>>
ReturnRight == ret # -1 => ret = Made(NGEN, raised) /\ Len(tl) = ret * Len(S) /\ Len(tb.rows) = ret
At(g, s) == CHOOSE i \in 1..Len(told) : told[i].g = g /\ told[i].s = s
Dur(x, a, b) == Duration(x, told[a].first, told[a].last, told[b].first, told[b].last, 1)
RowRight(g, r) ==
  LET n == At(g, "new") p == At(g, "pop") e == At(g, "eval") z == At(g, "end")
      m == IF VAL THEN 8 ELSE 5 IN
  /\ Len(r) = (IF VAL THEN 12 ELSE 8)
  /\ r[1] = g /\ r[2] = told[p].nv
  /\ r[3] = MinOf(told[e].res) /\ r[4] = SumS(told[e].res) /\ r[5] = MaxOf(told[e].res)
  /\ VAL => LET v == At(g, "valid") IN
            /\ r[6] = MinOf(told[v].res) /\ r[7] = SumS(told[v].res) /\ r[8] = MaxOf(told[v].res)
            /\ Dur(r[11], e, v)
  /\ Dur(r[m + 1], n, p) /\ Dur(r[m + 2], p, e)
  /\ told[z].first <= r[Len(r)] /\ r[Len(r)] <= told[z].last
RowsRight == \A g \in 1..Len(tb.rows) : RowRight(g - 1, tb.rows[g])
Decims == { i \in 1..Len(told) : told[i].s = "decim" /\ <<told[i].g, "decim">> \in { tl[j] : j \in 1..Len(tl) } }
Before(i) == LET P == { j \in Decims : j < i } IN
             IF P = {} THEN 0 ELSE told[CHOOSE j \in P : \A x \in P : x <= j].best
PolicyRight == (todo = <<>>) =>
  /\ \A i \in Decims : Describes(Before(i), told[i].best) <=> <<told[i].g, told[i].best>> \in { ps.log[j] : j \in 1..Len(ps.log) }
  /\ Len(ps.log) = Cardinality({ i \in Decims : Describes(Before(i), told[i].best) })
=============================================================================
