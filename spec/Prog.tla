-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* The register machine: environments, programs, their execution, their    *)
(* introns, and behavioural identity.  Pure definitions, shared by every   *)
(* other module; Machine.tla gives them state and transitions.             *)
(*                                                                         *)
(* A number is an integer in -100..100 or one of PINF, NINF, QNAN.         *)
(* A data source is [dim, h, w, el]; its content a sequence of numbers in  *)
(* row order.  A type is named "d", "i", "c" (scalars), "d2" (1D array),   *)
(* "d23" (2D array).  An environment is                                    *)
(*   [nreg, ncst, srcs, ops]  (ops: the usable operations, in index order).*)
(* A line is [i, d, o, x]: instruction index, destination register,        *)
(* operands <<source, location>>, intron mark.  All indices of the data    *)
(* start at 0 as in the library; TLA+ sequences start at 1.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Shape

PINF == 1000
NINF == -1000
QNAN == 9999

Fin(x) == x >= -100 /\ x <= 100
Norm(x) == ((x + 100) % 201) - 100

(* Operand types of each operation. *)
OpTypes ==
  << <<"d","d">>, <<"d","d">>, <<"d","d">>, <<"d","c">>, <<"d","i">>,
     <<"d","d">>, <<"d2">>, <<"d3","d">>, <<"d22">>, <<"i2">>,
     <<"d","d">>, <<"d">>, <<"c","c">>, <<"d23">>, <<"d","d","d">> >>

(* el: element kind; a, b: extents (0 = none). *)
TypeOf(t) ==
  CASE t = "d"   -> [el |-> "d", a |-> 0, b |-> 0]
    [] t = "i"   -> [el |-> "i", a |-> 0, b |-> 0]
    [] t = "c"   -> [el |-> "c", a |-> 0, b |-> 0]
    [] t = "d2"  -> [el |-> "d", a |-> 0, b |-> 2]
    [] t = "d3"  -> [el |-> "d", a |-> 0, b |-> 3]
    [] t = "d4"  -> [el |-> "d", a |-> 0, b |-> 4]
    [] t = "i2"  -> [el |-> "i", a |-> 0, b |-> 2]
    [] t = "i3"  -> [el |-> "i", a |-> 0, b |-> 3]
    [] t = "c2"  -> [el |-> "c", a |-> 0, b |-> 2]
    [] t = "d22" -> [el |-> "d", a |-> 2, b |-> 2]
    [] t = "d23" -> [el |-> "d", a |-> 2, b |-> 3]
    [] t = "d32" -> [el |-> "d", a |-> 3, b |-> 2]
    [] t = "i22" -> [el |-> "i", a |-> 2, b |-> 2]

Space(s, t) == SpaceT(s, TypeOf(t))
Touched(s, t, addr) == TouchedT(s, TypeOf(t), addr)
Read(s, vals, t, addr) == ReadT(s, vals, TypeOf(t), addr)

(* The sources a program sees: registers, then constants if any, then data. *)
RegSrc(env) == [dim |-> 1, h |-> 1, w |-> env.nreg, el |-> "d"]
CstSrc(env) == [dim |-> 1, h |-> 1, w |-> env.ncst, el |-> "c"]
AllSrcs(env) == (IF env.ncst > 0 THEN <<RegSrc(env), CstSrc(env)>> ELSE <<RegSrc(env)>>) \o env.srcs
FirstData(env) == IF env.ncst > 0 THEN 2 ELSE 1

(* Operations of `given` all of whose operand types some source provides,   *)
(* order kept: what an environment retains of an instruction set.           *)
Usable(env0, op) ==
  \A k \in 1..Len(OpTypes[op]) :
     \E s \in 1..Len(AllSrcs(env0)) : Space(AllSrcs(env0)[s], OpTypes[op][k]) > 0
Filter(env0, given) == SelectSeq(given, LAMBDA op : Usable(env0, op))

OpOf(env, line) == env.ops[line.i + 1]
NbOperands(env, line) == Len(OpTypes[OpOf(env, line)])

(* a line is well-formed in env *)
LineOK(env, maxops, l) ==
  /\ l.i >= 0 /\ l.i < Len(env.ops)
  /\ l.d >= 0 /\ l.d < env.nreg
  /\ Len(l.o) = maxops
  /\ \A k \in 1..NbOperands(env, l) :
       /\ l.o[k][1] >= 0 /\ l.o[k][1] < Len(AllSrcs(env))
       /\ l.o[k][2] >= 0
       /\ Space(AllSrcs(env)[l.o[k][1] + 1], OpTypes[OpOf(env, l)][k]) > 0

(* ---------------------------------------------------------------------- *)
Apply(op, a) ==
  LET flat == FlattenSeq(a)
      x == a[1][1]
      y == a[2][1]
      z == a[3][1]
      v == a[1]
  IN
  IF op = 6 /\ \A k \in 1..2 : Fin(a[k][1]) THEN Norm(IF x < y THEN -x ELSE x)
  ELSE IF op = 6 THEN QNAN
  ELSE IF op = 11 THEN
         IF y = 0 THEN QNAN ELSE IF Fin(x) /\ Fin(y) THEN Norm(x + 2 * y) ELSE QNAN
  ELSE IF op = 12 THEN
         IF x = QNAN THEN QNAN ELSE IF x > 60 THEN PINF ELSE IF x < -60 THEN NINF ELSE Norm(x)
  ELSE IF \E k \in 1..Len(flat) : ~Fin(flat[k]) THEN QNAN
  ELSE CASE op = 1  -> Norm(x + y)
         [] op = 2  -> Norm(x - y)
         [] op = 3  -> Norm(x * y)
         [] op = 4  -> Norm(x * y)
         [] op = 5  -> Norm(x + 2 * y)
         [] op = 7  -> Norm(2 * v[1] - v[2])
         [] op = 8  -> Norm(v[1] + 2 * v[2] + 3 * v[3] - y)
         [] op = 9  -> Norm(v[1] + 2 * v[2] + 3 * v[3] + 5 * v[4])
         [] op = 10 -> Norm(3 * v[1] + v[2])
         [] op = 13 -> Norm(x - 2 * y)
         [] op = 14 -> Norm(v[1] - v[2] + 2 * v[3] - 2 * v[4] + 3 * v[5] - 3 * v[6])
         [] op = 15 -> Norm(x * y + z)

(* ---------------------------------------------------------------------- *)
(* Execution.  data: contents of env.srcs; cst: the program's constants.   *)
ZeroRegs(env) == [r \in 1..env.nreg |-> 0]

Operand(env, regs, cst, data, l, k) ==
  LET si == l.o[k][1]
      t  == OpTypes[OpOf(env, l)][k]
      s  == AllSrcs(env)[si + 1]
      c  == IF si = 0 THEN regs
            ELSE IF env.ncst > 0 /\ si = 1 THEN cst
            ELSE data[si + 1 - FirstData(env)]
  IN Read(s, c, t, l.o[k][2] % Space(s, t))

StepLine(env, regs, cst, data, l) ==
  [regs EXCEPT ![l.d + 1] =
      Apply(OpOf(env, l), [k \in 1..NbOperands(env, l) |-> Operand(env, regs, cst, data, l, k)])]

RunLines(env, lines, cst, data) ==
  FoldLeft(LAMBDA regs, l : StepLine(env, regs, cst, data, l), ZeroRegs(env), lines)

Result(env, prog, data) == RunLines(env, prog.lines, prog.cst, data)[1]

Effective(lines) == SelectSeq(lines, LAMBDA l : ~l.x)
ResultMarked(env, prog, data) == RunLines(env, Effective(prog.lines), prog.cst, data)[1]

(* ---------------------------------------------------------------------- *)
(* Introns: backward liveness from the first register.                     *)
UsedRegs(env, l) ==
  UNION { LET t == OpTypes[OpOf(env, l)][k]
              s == RegSrc(env)
          IN IF l.o[k][1] = 0
             THEN { Touched(s, t, l.o[k][2] % Space(s, t))[j] :
                      j \in 1..Len(Touched(s, t, l.o[k][2] % Space(s, t))) }
             ELSE {} : k \in 1..NbOperands(env, l) }

Liveness(env, lines) ==   \* sequence of marks, TRUE = intron
  LET n == Len(lines)
      step(acc, l) ==     \* acc = <<live registers, marks so far (suffix)>>
        IF l.d \in acc[1]
        THEN << (acc[1] \ {l.d}) \cup UsedRegs(env, l), <<FALSE>> \o acc[2] >>
        ELSE << acc[1], <<TRUE>> \o acc[2] >>
  IN FoldLeft(step, << {0}, <<>> >>, Reverse(lines))[2]

Marked(env, lines) ==
  LET m == Liveness(env, lines) IN [k \in 1..Len(lines) |-> [lines[k] EXCEPT !.x = m[k]]]

(* ---------------------------------------------------------------------- *)
(* Behavioural identity: same effective lines, operands compared where they *)
(* are read (location modulo the address space), constants by value.        *)
Canon(env, prog, l) ==
  [i |-> l.i, d |-> l.d,
   o |-> [k \in 1..NbOperands(env, l) |->
            LET si == l.o[k][1]
                s == AllSrcs(env)[si + 1]
                t == OpTypes[OpOf(env, l)][k]
                a == l.o[k][2] % Space(s, t)
            IN IF env.ncst > 0 /\ si = 1
               THEN <<si, -1, Read(s, prog.cst, t, a)>>
               ELSE <<si, a, <<>> >>]]
Canonical(env, prog) ==
  LET e == Effective(prog.lines) IN [k \in 1..Len(e) |-> Canon(env, prog, e[k])]

(* Literal identity: what a program must be recognised by (its copy). *)
SameText(p, q) ==
  /\ p.cst = q.cst
  /\ Len(Effective(p.lines)) = Len(Effective(q.lines))
  /\ \A k \in 1..Len(Effective(p.lines)) :
       LET a == Effective(p.lines)[k]  b == Effective(q.lines)[k]
       IN a.i = b.i /\ a.d = b.d /\ a.o = b.o
=============================================================================
