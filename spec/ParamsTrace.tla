----------------------------- MODULE ParamsTrace -----------------------------
(* Recorded uses of parameter files (C20).  Values are texts in a normal     *)
(* form: integers in decimal, booleans, reals with 17 digits.                *)
EXTENDS Params, TraceLib, TLC
VARIABLES p, f
tvars == <<p, f, l>>
KindOk(c) == DOMAIN c = AllNames
Put(fn, k, v) == [x \in DOMAIN fn \union {k} |-> IF x = k THEN v ELSE fn[x]]
\* <<group, name, value>> triples
Content(ms) == [q \in {<<ms[i][1], ms[i][2]>> : i \in 1..Len(ms)} |->
                  (CHOOSE i \in 1..Len(ms) : <<ms[i][1], ms[i][2]>> = q) ]
Valued(ms) == LET c == Content(ms) IN [q \in DOMAIN c |-> ms[c[q]][3]]
TInit == p = <<>> /\ f = <<>> /\ l = 1
Same == p' = p
TNext ==
  \/ IsEvent("New") /\ KindOk(Ev.params) /\ p' = Put(p, Ev.obj, Ev.params) /\ UNCHANGED f
  \/ IsEvent("Assign") /\ KindOk(Ev.params) /\ p' = Put(p, Ev.obj, Ev.params) /\ UNCHANGED f
  \/ (* six: the reals of the structure at the precision of files *)
     IsEvent("Write") /\ Same /\ Ev.params = p[Ev.obj]
     /\ LET kept(n, v) == IF n \in RealNames THEN Ev.six[n] ELSE v
            w == Written(p[Ev.obj], Group, kept)
        IN /\ Valued(Ev.content) = w /\ Len(Ev.content) = Cardinality(DOMAIN w)
           /\ f' = Put(f, Ev.file, [kind |-> "json", c |-> w])
  \/ IsEvent("Make") /\ Same
     /\ f' = Put(f, Ev.file, [kind |-> Ev.kind, c |-> IF Ev.kind = "json" THEN Valued(Ev.content) ELSE <<>>])
  \/ IsEvent("Remove") /\ Same /\ f' = Put(f, Ev.file, [kind |-> "missing", c |-> <<>>])
  \/ (* through the file, or from its content read before *)
     IsEvent("Load")
     /\ LET x == f[Ev.file] IN
        /\ Ev.threw = (x.kind = "missing")
        /\ Ev.untouched
        /\ Ev.params = Override(p[Ev.obj], x.c, Group)
     /\ p' = Put(p, Ev.obj, Ev.params) /\ UNCHANGED f
  \/ IsEvent("Name")
     /\ Ev.params = (IF Ev.name \in AllNames THEN [p[Ev.obj] EXCEPT ![Ev.name] = Ev.value] ELSE p[Ev.obj])
     /\ p' = Put(p, Ev.obj, Ev.params) /\ UNCHANGED f
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
