------------------------------ MODULE MCMachine ------------------------------
(* Exhaustive: every program of at most MaxLen lines over a tiny environment. *)
EXTENDS Machine, Json, IOUtils
CONSTANTS MaxLen, Ids, EMIT

E0 == [nreg |-> 3, ncst |-> 1, srcs |-> <<[dim |-> 1, h |-> 1, w |-> 2, el |-> "d"]>>, ops |-> <<2, 7, 4>>]
D0 == { << <<0, 0>> >>, << <<5, -7>> >>, << <<1, 30>> >> }
DefData == << <<5, -7>> >>

Opd == { <<0, 0>>, <<0, 1>>, <<0, 2>>, <<2, 0>> }
Lines ==
   { [i |-> 0, d |-> d, o |-> <<a, b>>, x |-> FALSE] : d \in 0..2, a \in { <<0, 0>>, <<0, 1>> }, b \in Opd }
   \cup { [i |-> 1, d |-> d, o |-> <<a, <<0, 0>> >>, x |-> FALSE] : d \in 0..2, a \in { <<0, 0>>, <<0, 1>>, <<2, 0>> } }
   \cup { [i |-> 2, d |-> d, o |-> <<a, <<1, 0>> >>, x |-> FALSE] : d \in 0..1, a \in { <<0, 1>> } }

MCInit == /\ env = E0 /\ data = DefData /\ out = 0 /\ fresh = Ids
          /\ progs = [k \in Ids |-> [lines |-> <<>>, cst |-> <<3>>]]

(* grow a program and re-mark it in one step: the states are the programs *)
Grow(id, l) ==
  /\ Len(progs[id].lines) < MaxLen
  /\ progs' = [progs EXCEPT ![id].lines = Marked(env, Append(@, l))]
  /\ UNCHANGED <<env, fresh, data, out>>
MCNext == \E id \in Ids, l \in Lines : Grow(id, l)
MCSpec == MCInit /\ [][MCNext]_mvars

InvMarks == MarksTransparent(D0) /\ MarksExact
InvClear == \A id \in DOMAIN progs :
   LET c == [progs[id] EXCEPT !.lines = Effective(@)]
   IN \A d \in D0 : ResultMarked(env, c, d) = Result(env, progs[id], d)
InvIdent == IdentitySound(D0)
(* spec -> implementation: every program with the results it must give *)
Emit == EMIT =>
  \A id \in DOMAIN progs :
    PrintT("@@" \o ToJson([lines |-> progs[id].lines, cst |-> progs[id].cst,
              res |-> [k \in 1..3 |-> Result(env, progs[id], CASE k = 1 -> << <<0, 0>> >> [] k = 2 -> << <<5, -7>> >> [] k = 3 -> << <<1, 30>> >>)]]))
=============================================================================
