------------------------------- MODULE ProgMut -------------------------------
(***************************************************************************)
(* Program mutation (property C05): the relation between a program before  *)
(* and after each mutator call.  Draws are nondeterministic.               *)
(* A program is [lines, cst] (Prog.tla); `x` marks are part of the lines.  *)
(***************************************************************************)
EXTENDS Prog

Bare(l)  == [i |-> l.i, d |-> l.d, o |-> l.o]
Bares(s) == [k \in 1..Len(s) |-> Bare(s[k])]

MaxOps(env) == LET m == { Len(OpTypes[env.ops[k]]) : k \in 1..Len(env.ops) }
               IN CHOOSE x \in m : \A y \in m : y <= x
ProgOK(env, p) ==
  /\ \A k \in 1..Len(p.lines) : LineOK(env, MaxOps(env), p.lines[k])
  /\ Len(p.cst) = env.ncst
MarksOK(env, p) == p.lines = Marked(env, p.lines)
CstIn(p, lo, hi) == \A k \in 1..Len(p.cst) : p.cst[k] >= lo /\ p.cst[k] <= hi

(* ------------------------------ one line -------------------------------- *)
(* the operand k of l suits instruction l.i *)
OperandOK(env, l, k) ==
  k > NbOperands(env, l) \/ Space(AllSrcs(env)[l.o[k][1] + 1], OpTypes[OpOf(env, l)][k]) > 0
AltInstruction(env, a, b) ==
  /\ b.i # a.i /\ b.d = a.d
  /\ \A k \in 1..Len(a.o) :
       LET m == [a EXCEPT !.i = b.i] IN
       IF OperandOK(env, m, k) THEN b.o[k] = a.o[k]
       ELSE b.o[k][2] = a.o[k][2] /\ b.o[k][1] # a.o[k][1] /\ OperandOK(env, b, k)
AltDestination(env, a, b) == b.d # a.d /\ b.i = a.i /\ b.o = a.o
AltSource(env, a, b) ==
  /\ b.i = a.i /\ b.d = a.d
  /\ \E k \in 1..Len(a.o) : /\ \A j \in 1..Len(a.o) : j # k => b.o[j] = a.o[j]
                            /\ b.o[k][2] = a.o[k][2] /\ b.o[k][1] # a.o[k][1]
                            /\ OperandOK(env, b, k)
AltLocation(env, a, b) ==
  /\ b.i = a.i /\ b.d = a.d
  /\ \E k \in 1..Len(a.o) : /\ \A j \in 1..Len(a.o) : j # k => b.o[j] = a.o[j]
                            /\ b.o[k][1] = a.o[k][1] /\ b.o[k][2] # a.o[k][2]
(* no other source provides the operand, or the line has nothing to draw:  *)
(* the alteration leaves the line as it is                                 *)
Stuck(env, a) ==
  \/ env.nreg = 1
  \/ \E k \in 1..NbOperands(env, a) :
       \A s \in 1..Len(AllSrcs(env)) :
          s = a.o[k][1] + 1 \/ Space(AllSrcs(env)[s], OpTypes[OpOf(env, a)][k]) = 0
LineAltered(env, a, b) ==
  \/ AltInstruction(env, a, b) \/ AltDestination(env, a, b)
  \/ AltSource(env, a, b) \/ AltLocation(env, a, b)
  \/ Bare(a) = Bare(b) /\ Stuck(env, a)

(* ------------------------------ programs -------------------------------- *)
SameCst(p, q) == p.cst = q.cst
Same(p, q) == Bares(p.lines) = Bares(q.lines) /\ SameCst(p, q)
RelDelete(env, p, q, ret) ==
  /\ ret = (Len(p.lines) > 1)
  /\ IF ret THEN /\ Len(q.lines) = Len(p.lines) - 1 /\ SameCst(p, q)
                 /\ \E k \in 1..Len(p.lines) : Bares(q.lines) = RemoveAt(Bares(p.lines), k)
     ELSE p = q
RelInsert(env, p, q) ==
  /\ Len(q.lines) = Len(p.lines) + 1 /\ SameCst(p, q)
  /\ \E k \in 1..Len(q.lines) : RemoveAt(Bares(q.lines), k) = Bares(p.lines)
RelSwap(env, p, q, ret) ==
  /\ ret = (Len(p.lines) >= 2)
  /\ IF ret THEN /\ Len(q.lines) = Len(p.lines) /\ SameCst(p, q)
                 /\ \E i, j \in 1..Len(p.lines) :
                      i < j /\ Bares(q.lines) = [Bares(p.lines) EXCEPT ![i] = Bare(p.lines[j]), ![j] = Bare(p.lines[i])]
     ELSE p = q
RelAlter(env, p, q, ret) ==
  /\ ret = (Len(p.lines) >= 1)
  /\ IF ret THEN /\ Len(q.lines) = Len(p.lines) /\ SameCst(p, q)
                 /\ \E i \in 1..Len(p.lines) :
                      /\ \A j \in 1..Len(p.lines) : j # i => Bare(p.lines[j]) = Bare(q.lines[j])
                      /\ LineAltered(env, p.lines[i], q.lines[i])
     ELSE p = q
RelConst(env, p, q, lo, hi) ==
  /\ Bares(p.lines) = Bares(q.lines) /\ Len(p.cst) = Len(q.cst)
  /\ \E k \in 1..Len(p.cst) : /\ q.cst[k] >= lo /\ q.cst[k] <= hi
                              /\ \A j \in 1..Len(p.cst) : j # k => p.cst[j] = q.cst[j]

(* mutateProgram: par = [max, p, lo, hi], p in 0 (never), 50, 100 (always) for
   delete, add, alter, swap, constant *)
May(par, k)  == par.p[k] # 0
Must(par, k) == par.p[k] = 100
Lens(par, n) ==   \* possible lengths after the delete and add steps
  LET d == (IF n > 1 /\ May(par, 1) THEN {n - 1} ELSE {}) \cup
           (IF n > 1 /\ Must(par, 1) THEN {} ELSE {n})
  IN UNION { (IF m < par.max /\ May(par, 2) THEN {m + 1} ELSE {}) \cup
             (IF m < par.max /\ Must(par, 2) THEN {} ELSE {m}) : m \in d }
RelMutate(env, p, q, par, ret) ==
  /\ IF ret THEN MarksOK(env, q) ELSE p = q
  /\ Len(q.lines) \in Lens(par, Len(p.lines))
  /\ (Must(par, 3) \/ Must(par, 4) \/ (Must(par, 5) /\ env.ncst > 0)
        \/ (Must(par, 1) /\ Len(p.lines) > 1) \/ (Must(par, 2) /\ Len(p.lines) < par.max)) => ret
  /\ LET on == { k \in 1..5 : May(par, k) } IN
     /\ on = {} => ~ret
     /\ (on = {1} /\ ret) => RelDelete(env, p, q, TRUE)
     /\ (on = {2} /\ ret) => RelInsert(env, p, q)
     /\ (on = {3} /\ ret) => RelAlter(env, p, q, TRUE)
     /\ (on = {4} /\ ret) => IF Len(p.lines) >= 2 THEN RelSwap(env, p, q, TRUE) ELSE Same(p, q)
     /\ (on = {5}) => ret = (env.ncst > 0) \/ par.p[5] # 100
     /\ (on = {5} /\ ret) => RelConst(env, p, q, par.lo, par.hi)
     /\ 5 \notin on => SameCst(p, q)
     /\ 5 \in on /\ ~SameCst(p, q) => RelConst(env, [p EXCEPT !.lines = q.lines], q, par.lo, par.hi)
     /\ on \cap {1, 2} = {} =>    \* at most: one line altered, then two swapped
          Cardinality({ k \in 1..Len(p.lines) : Bare(p.lines[k]) # Bare(q.lines[k]) }) <=
             (IF 3 \in on THEN 1 ELSE 0) + (IF 4 \in on THEN 2 ELSE 0)
RelInit(env, q, par) ==
  /\ Len(q.lines) \in 1..par.max
  /\ CstIn(q, par.lo, par.hi) /\ MarksOK(env, q)
=============================================================================
