---------------------------- MODULE Environments ----------------------------
(***************************************************************************)
(* Environments, the lines of programs and engines (property C23).         *)
(* A type is [b |-> base, d |-> dimensions]: <<>> a scalar, <<k>> an array  *)
(* of k elements, <<a, b>> a block of a rows and b columns.  A source is    *)
(* [b, d]: one- (<<n>>) or two-dimensional (<<height, width>>).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* addresses a source offers for a type, 0 when it does not handle it *)
Sat(x) == IF x < 0 THEN 0 ELSE x
Offers(s, t) ==
  IF s.b # t.b THEN 0
  ELSE IF Len(s.d) = 1
  THEN CASE Len(t.d) = 0 -> s.d[1]
         [] Len(t.d) = 1 -> Sat(s.d[1] - t.d[1] + 1)
         [] OTHER -> 0
  ELSE CASE Len(t.d) = 0 -> s.d[1] * s.d[2]
         [] Len(t.d) = 1 -> s.d[1] * Sat(s.d[2] - t.d[1] + 1)
         [] OTHER -> Sat(s.d[1] - t.d[1] + 1) * Sat(s.d[2] - t.d[2] + 1)
Elements(s) == IF Len(s.d) = 1 THEN s.d[1] ELSE s.d[1] * s.d[2]
(* all the sources of an environment, registers and constants first *)
Registers(n) == [b |-> "double", d |-> <<n>>]
Constants(n) == [b |-> "Constant", d |-> <<n>>]
All(regs, consts, srcs) == <<Registers(regs)>> \o (IF consts > 0 THEN <<Constants(consts)>> ELSE <<>>) \o srcs
Usable(i, all) == \A k \in DOMAIN i : \E s \in DOMAIN all : Offers(all[s], i[k]) > 0
RECURSIVE KeptFrom(_, _, _)
KeptFrom(instrs, all, k) == IF k > Len(instrs) THEN <<>>
                            ELSE (IF Usable(instrs[k], all) THEN <<k>> ELSE <<>>) \o KeptFrom(instrs, all, k + 1)
Kept(instrs, all) == KeptFrom(instrs, all, 1)
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* bits needed to tell n values apart *)
Bits(n) == CHOOSE b \in 0..30 : 2 ^ b >= n /\ (b = 0 \/ 2 ^ (b - 1) < n)
Describe(instrs, regs, consts, srcs) ==
  LET all == All(regs, consts, srcs)
      kept == Kept(instrs, all)
      ops == Max({ Len(instrs[kept[k]]) : k \in DOMAIN kept })
      largest == Max({ Elements(all[k]) : k \in DOMAIN all })
      s == Bits(Len(all)) a == Bits(largest)
  IN [ kept |-> kept, ops |-> ops, nsrc |-> Len(all), largest |-> largest,
       ibits |-> Bits(IF Len(kept) = 0 THEN 1 ELSE Len(kept)), dbits |-> Bits(IF regs = 0 THEN 1 ELSE regs),
       sbits |-> s, abits |-> a, obits |-> ops * (s + a) ]
Refused(d, regs) == regs = 0 \/ Len(d.kept) <= 1 \/ d.ops = 0 \/ d.nsrc <= 1 \/ d.largest = 0

(* lines of a program: [i, d, o |-> <<source, location>> ..., t |-> intron] *)
NewLine(e) == [i |-> 0, d |-> 0, o |-> [k \in 1..e.ops |-> <<0, 0>>], t |-> FALSE]
Insert(ls, p, x) == SubSeq(ls, 1, p) \o <<x>> \o SubSeq(ls, p + 1, Len(ls))
Remove(ls, p) == SubSeq(ls, 1, p) \o SubSeq(ls, p + 2, Len(ls))
Swap(ls, p, q) == [k \in DOMAIN ls |-> IF k = p + 1 THEN ls[q + 1] ELSE IF k = q + 1 THEN ls[p + 1] ELSE ls[k]]
Same(x, y) == x.i = y.i /\ x.d = y.d /\ x.o = y.o
(* [ok, res, lines]: what an edit does; positions from 0 *)
Edit(e, ls, ev) ==
  LET no == [res |-> "refused", lines |-> ls]
      has == ev.p < Len(ls)
      set(x) == [res |-> "done", lines |-> [ls EXCEPT ![ev.p + 1] = x]]
  IN CASE ev.op = "Add" -> IF ev.p <= Len(ls) THEN [res |-> "done", lines |-> Insert(ls, ev.p, NewLine(e))] ELSE no
       [] ev.op = "Remove" -> IF has THEN [res |-> "done", lines |-> Remove(ls, ev.p)] ELSE no
       [] ev.op = "Swap" -> IF has /\ ev.q < Len(ls) THEN [res |-> "done", lines |-> Swap(ls, ev.p, ev.q)] ELSE no
       [] ev.op = "Instr" -> IF ~has \/ (ev.check /\ ev.v >= Len(e.kept)) THEN no
                             ELSE set([ls[ev.p + 1] EXCEPT !.i = ev.v])
       [] ev.op = "Dest" -> IF ~has \/ (ev.check /\ ev.v >= e.regs) THEN no
                            ELSE set([ls[ev.p + 1] EXCEPT !.d = ev.v])
       [] ev.op = "Oper" -> IF ~has \/ ev.k >= e.ops \/ (ev.check /\ (ev.v >= e.nsrc \/ ev.w >= e.largest)) THEN no
                            ELSE set([ls[ev.p + 1] EXCEPT !.o[ev.k + 1] = <<ev.v, ev.w>>])
       [] ev.op = "Clear" -> [res |-> "done", lines |-> SelectSeq(ls, LAMBDA x : ~x.t)]

(* engines: [prog, srcs]; a program knows the identities of its sources *)
Fits(ids, srcs) == Len(ids) = Len(srcs) /\ \A k \in DOMAIN ids : ids[k] = srcs[k].id
FitsFirst(ids, srcs) == Len(srcs) <= Len(ids) /\ \A k \in DOMAIN srcs : ids[k] = srcs[k].id
Replace(srcs, new) == [k \in DOMAIN srcs |-> IF k <= Len(new) THEN new[k] ELSE srcs[k]]
=============================================================================
