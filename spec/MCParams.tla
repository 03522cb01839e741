----------------------------- MODULE MCParams -----------------------------
(* All sequences of assignments, writes, hand edits and loads of two         *)
(* structures and two files, the loading being done one member at a time, in *)
(* any order, by name (as the reader's table of names does).                 *)
EXTENDS Params
CONSTANTS Vals, Depth, Objs, Files, Size
Known == {"a", "b", "c"}            \* one parameter per group; "b" is a real
GroupOf == [n \in Known |-> CASE n = "a" -> "top" [] n = "b" -> "mutation.tpg" [] OTHER -> "mutation.prog"]
\* places of a file: those of the parameters, an unknown name in each group,
\* a known name in sub-trees that the format does not define
Places == {<<GroupOf[n], n>> : n \in Known} \union {<<"top", "zz">>, <<"mutation.tpg", "zz">>, <<"mutation.other", "b">>, <<"other", "a">>}
Kept(n, v) == IF n = "b" THEN v - (v % 2) ELSE v    \* precision lost on reals
Contents == UNION {[S -> Vals] : S \in {T \in SUBSET Places : Cardinality(T) <= Size}}
VARIABLES p, f, ld, done, wr, n
vars == <<p, f, ld, done, wr, n>>
Idle == [o |-> 0, todo |-> {}, c |-> <<>>, old |-> <<>>]
Init == /\ p = [o \in Objs |-> [m \in Known |-> 0]]
        /\ f = [x \in Files |-> [kind |-> "missing", c |-> <<>>]]
        /\ ld = Idle /\ done = [o |-> 0] /\ wr = [x \in Files |-> <<>>] /\ n = 0
Step == n < Depth /\ ld.o = 0 /\ n' = n + 1
Set == \E o \in Objs, m \in Known, v \in Vals : Step /\ p' = [p EXCEPT ![o][m] = v] /\ done' = [o |-> 0] /\ UNCHANGED <<f, ld, wr>>
Write == \E o \in Objs, x \in Files : Step
         /\ f' = [f EXCEPT ![x] = [kind |-> "json", c |-> Written(p[o], GroupOf, Kept)]]
         /\ wr' = [wr EXCEPT ![x] = p[o]] /\ done' = [o |-> 0] /\ UNCHANGED <<p, ld>>
Edit == \E x \in Files : Step
        /\ \/ \E c \in Contents : f' = [f EXCEPT ![x] = [kind |-> "json", c |-> c]]
           \/ f' = [f EXCEPT ![x] = [kind |-> "ill", c |-> <<>>]]
        /\ wr' = [wr EXCEPT ![x] = <<>>] /\ done' = [o |-> 0] /\ UNCHANGED <<p, ld>>
\* reading: a missing file refuses, an ill-formed one names nothing
Load == \E o \in Objs, x \in Files : Step
        /\ ld' = [o |-> o, x |-> x, todo |-> DOMAIN f[x].c, c |-> f[x].c, old |-> p[o]]
        /\ done' = [o |-> 0] /\ UNCHANGED <<p, f, wr>>
\* the sub-trees that are walked, and the table of names
Walked(g) == g \in {"top", "mutation.tpg", "mutation.prog"}
One == /\ ld.o /= 0 /\ ld.todo /= {}
       /\ \E q \in ld.todo :
            /\ ld' = [ld EXCEPT !.todo = @ \ {q}]
            /\ p' = IF Walked(q[1]) /\ q[2] \in Known THEN [p EXCEPT ![ld.o][q[2]] = ld.c[q]] ELSE p
       /\ UNCHANGED <<f, done, wr, n>>
End == ld.o /= 0 /\ ld.todo = {} /\ done' = ld /\ ld' = Idle /\ UNCHANGED <<p, f, wr, n>>
Next == Set \/ Write \/ Edit \/ Load \/ One \/ End
Spec == Init /\ [][Next]_vars
\* a load overrides exactly what the file names
Loaded == done.o /= 0 => p[done.o] = Override(done.old, done.c, GroupOf)
\* whatever was written and not edited since comes back, wherever it is read
RoundTrip == done.o /= 0 /\ wr[done.x] /= <<>> => p[done.o] = [m \in Known |-> Kept(m, wr[done.x][m])]
Harmless == done.o /= 0 /\ f[done.x].kind /= "json" => p[done.o] = done.old
=============================================================================
