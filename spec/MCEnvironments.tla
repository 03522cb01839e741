---------------------------- MODULE MCEnvironments ----------------------------
(* One step at a time: the filter of the environment, operand by operand and   *)
(* source by source; edits of the lines of a program; an engine checking       *)
(* programs and sources one by one before replacing anything.                  *)
EXTENDS Environments, TLC
CONSTANTS NINSTR, NSRC, NLINES, NENG
T(b, d) == [b |-> b, d |-> d]
D == T("double", <<>>) I == T("int", <<>>) C == T("Constant", <<>>)
InstrPool == {<<D, D>>, <<D, I>>, <<T("double", <<2>>)>>, <<T("int", <<1, 2>>)>>, <<C>>}
SrcPool == {T("double", <<1>>), T("double", <<2, 1>>), T("int", <<3>>), T("int", <<1, 2>>)}
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
VARIABLES mode, w, st
vars == <<mode, w, st>>
(* programs of the engines: identities of their sources; sources: identity and object *)
Ids == Seqs(1..2, NENG) \ {<<>>}
Objects == [id : 1..2, v : 1..2]
E0 == [kept |-> <<1, 2>>, ops |-> 1, nsrc |-> 2, largest |-> 2, regs |-> 2]
Init ==
  \/ /\ mode = "env"
     /\ w \in [instrs : Seqs(InstrPool, NINSTR), srcs : Seqs(SrcPool, NSRC), regs : 0..2, consts : 0..1]
     /\ st = [k |-> 1, o |-> 1, s |-> 1, found |-> FALSE, kept |-> <<>>, over |-> FALSE]
  \/ /\ mode = "edit" /\ w = <<>> /\ st = <<>>
  \/ /\ mode = "engine" /\ w \in Ids \X Ids
     /\ \E srcs \in Seqs(Objects, NENG) : Fits(w[1], srcs)
          /\ st = [prog |-> 1, srcs |-> srcs, new |-> <<>>, k |-> 0, what |-> "rest", kind |-> "", pre |-> <<1, srcs>>]
(* --- environment *)
AllW == All(w.regs, w.consts, w.srcs)
Step(s) == st' = s /\ UNCHANGED <<mode, w>>
EnvNext ==
  /\ mode = "env" /\ ~st.over
  /\ IF st.k > Len(w.instrs) THEN Step([st EXCEPT !.over = TRUE])
     ELSE LET i == w.instrs[st.k] IN
          IF st.o > Len(i) THEN Step([st EXCEPT !.k = @ + 1, !.o = 1, !.s = 1, !.found = FALSE, !.kept = Append(@, st.k)])
          ELSE IF st.s > Len(AllW)
          THEN IF st.found THEN Step([st EXCEPT !.o = @ + 1, !.s = 1, !.found = FALSE])
               ELSE Step([st EXCEPT !.k = @ + 1, !.o = 1, !.s = 1])
          ELSE Step([st EXCEPT !.s = @ + 1, !.found = @ \/ Offers(AllW[st.s], i[st.o]) > 0])
Desc == Describe(w.instrs, w.regs, w.consts, w.srcs)
EnvRight == mode = "env" /\ st.over =>
  /\ st.kept = Desc.kept
  /\ ~Refused(Desc, w.regs) =>
       \* every operand of every instruction can be drawn, and a line fits in its bits
       /\ \A k \in DOMAIN st.kept : \A o \in DOMAIN w.instrs[st.kept[k]] :
            \E s \in DOMAIN AllW : Offers(AllW[s], w.instrs[st.kept[k]][o]) \in 1..Desc.largest
       /\ 2 ^ Desc.ibits >= Len(Desc.kept) /\ 2 ^ Desc.dbits >= w.regs
       /\ 2 ^ Desc.sbits >= Desc.nsrc /\ 2 ^ Desc.abits >= Desc.largest
       /\ 2 ^ (Desc.ibits - 1) < Len(Desc.kept)
(* --- edits *)
Evs == [op : {"Add", "Remove"}, p : 0..(NLINES + 1)] \cup [op : {"Swap"}, p : 0..NLINES, q : 0..NLINES]
       \cup [op : {"Instr"}, p : 0..NLINES, v : {1, 2}, check : BOOLEAN] \cup [op : {"Dest"}, p : 0..NLINES, v : {2}, check : BOOLEAN]
       \cup [op : {"Oper"}, p : 0..NLINES, k : 0..1, v : 1..2, w : {1}, check : BOOLEAN] \cup {[op |-> "Clear", p |-> 0]}
EditNext ==
  /\ mode = "edit"
  /\ \/ \E ev \in Evs : LET r == Edit(E0, st, ev) IN Len(r.lines) <= NLINES /\ Step(r.lines)
     \/ \E k \in DOMAIN st : Step([st EXCEPT ![k].t = ~@])
Checked(x) == x.i \in {0, 1} /\ x.d \in {0, 1} /\ x.o[1][1] \in {0, 1} /\ x.o[1][2] \in {0, 1}
EditRight == mode = "edit" => \A e \in Evs :
  LET a == st r == Edit(E0, a, e) b == r.lines IN
  IF r.res = "refused" THEN a = b
  ELSE CASE e.op = "Add" -> Len(b) = Len(a) + 1 /\ Remove(b, e.p) = a /\ Checked(b[e.p + 1]) /\ ~b[e.p + 1].t
         [] e.op = "Remove" -> Len(b) = Len(a) - 1 /\ Insert(b, e.p, a[e.p + 1]) = a
         [] e.op = "Swap" -> Swap(b, e.p, e.q) = a /\ b[e.q + 1] = a[e.p + 1]
         [] e.op = "Clear" -> (\A k \in DOMAIN b : ~b[k].t) /\ Len(b) = Cardinality({ k \in DOMAIN a : ~a[k].t })
         [] OTHER -> /\ Len(a) = Len(b) /\ Cardinality({ k \in DOMAIN a : a[k] # b[k] }) <= 1
                     /\ (e.check /\ Checked(a[e.p + 1]) => Checked(b[e.p + 1]))
(* --- engines *)
EngNext ==
  /\ mode = "engine"
  /\ CASE st.what = "rest" ->
            \/ \E q \in 1..2 : Step([st EXCEPT !.what = "prog", !.kind = "prog", !.new = <<q>>, !.k = 1, !.pre = <<st.prog, st.srcs>>])
            \/ \E s \in Seqs(Objects, NENG + 1) : Step([st EXCEPT !.what = "srcs", !.kind = "srcs", !.new = s, !.k = 1, !.pre = <<st.prog, st.srcs>>])
       [] st.what = "prog" ->
            LET ids == w[st.new[1]] IN
            IF Len(ids) # Len(st.srcs) THEN Step([st EXCEPT !.what = "rest"])
            ELSE IF st.k > Len(ids) THEN Step([st EXCEPT !.what = "rest", !.prog = st.new[1]])
            ELSE IF ids[st.k] # st.srcs[st.k].id THEN Step([st EXCEPT !.what = "rest"])
            ELSE Step([st EXCEPT !.k = @ + 1])
       [] OTHER ->
            IF st.k > Len(st.new) THEN Step([st EXCEPT !.what = "rest", !.srcs = Replace(@, st.new)])
            ELSE IF st.k > Len(w[st.prog]) \/ (st.k <= Len(w[st.prog]) /\ w[st.prog][st.k] # st.new[st.k].id)
            THEN Step([st EXCEPT !.what = "rest"])
            ELSE Step([st EXCEPT !.k = @ + 1])
EngRight == mode = "engine" => Fits(w[st.prog], st.srcs)
EngSame == mode = "engine" /\ st.what = "rest" /\ st.new # <<>> =>
  \/ <<st.prog, st.srcs>> = st.pre
  \/ st.kind = "prog" /\ st.prog = st.new[1] /\ st.srcs = st.pre[2] /\ Fits(w[st.new[1]], st.pre[2])
  \/ st.kind = "srcs" /\ st.prog = st.pre[1] /\ FitsFirst(w[st.prog], st.new) /\ st.srcs = Replace(st.pre[2], st.new)
Next == EnvNext \/ EditNext \/ EngNext
Spec == Init /\ [][Next]_vars
ASSUME Bits(1) = 0 /\ Bits(2) = 1 /\ Bits(3) = 2 /\ Bits(4) = 2 /\ Bits(5) = 3
=============================================================================
