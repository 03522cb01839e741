------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* State and transitions of the program store (property C04): programs are *)
(* built line by line, edited, marked, cleared, copied, compared, executed.*)
(***************************************************************************)
EXTENDS Prog

VARIABLES env,    \* the environment (fixed once chosen)
          progs,  \* id -> [lines, cst]
          fresh,  \* ids whose marks were computed since their last edit
          data,   \* current content of the data sources
          out     \* what the last call returned
mvars == <<env, progs, fresh, data, out>>

Blank(e) == [lines |-> <<>>, cst |-> [k \in 1..e.ncst |-> 0]]

SetEnv(e, d) == /\ env' = e /\ progs' = <<>> /\ fresh' = {} /\ data' = d /\ out' = 0

Put(id, p) == progs' = [k \in (DOMAIN progs) \cup {id} |-> IF k = id THEN p ELSE progs[k]]
Edited(id, p) == Put(id, p) /\ fresh' = fresh \ {id} /\ UNCHANGED <<env, data, out>>

New(id) == id \notin DOMAIN progs /\ Edited(id, Blank(env))

InsertLine(id, at, l) ==      \* at: index of the new line, from 0
  /\ id \in DOMAIN progs /\ at >= 0 /\ at <= Len(progs[id].lines)
  /\ Edited(id, [progs[id] EXCEPT !.lines = InsertAt(@, at + 1, [l EXCEPT !.x = FALSE])])

InsertLineRefused(id, at) ==  \* beyond the end
  /\ id \in DOMAIN progs /\ at > Len(progs[id].lines)
  /\ UNCHANGED mvars

RemoveLine(id, at) ==
  /\ id \in DOMAIN progs /\ at \in 0..(Len(progs[id].lines) - 1)
  /\ Edited(id, [progs[id] EXCEPT !.lines = RemoveAt(@, at + 1)])
RemoveLineRefused(id, at) ==
  /\ id \in DOMAIN progs /\ at >= Len(progs[id].lines) /\ UNCHANGED mvars

SwapLines(id, a, b) ==        \* marks travel with the lines
  /\ id \in DOMAIN progs
  /\ {a, b} \subseteq 0..(Len(progs[id].lines) - 1)
  /\ Edited(id, [progs[id] EXCEPT !.lines = [@ EXCEPT ![a+1] = progs[id].lines[b+1],
                                                       ![b+1] = progs[id].lines[a+1]]])
SwapLinesRefused(id, a, b) ==
  /\ id \in DOMAIN progs /\ ~({a, b} \subseteq 0..(Len(progs[id].lines) - 1)) /\ UNCHANGED mvars

SetLine(id, at, l) ==         \* the mark of the line is kept (stale)
  /\ id \in DOMAIN progs /\ at \in 0..(Len(progs[id].lines) - 1)
  /\ Edited(id, [progs[id] EXCEPT !.lines[at + 1] = [l EXCEPT !.x = progs[id].lines[at+1].x]])

SetConst(id, k, v) ==
  /\ id \in DOMAIN progs /\ k \in 0..(env.ncst - 1)
  /\ Put(id, [progs[id] EXCEPT !.cst[k + 1] = v])   \* marks do not depend on constants
  /\ UNCHANGED <<env, data, out, fresh>>

Mark(id) ==                   \* returns the number of introns
  /\ id \in DOMAIN progs
  /\ LET ls == Marked(env, progs[id].lines) IN
       /\ Put(id, [progs[id] EXCEPT !.lines = ls])
       /\ out' = Len(SelectSeq(ls, LAMBDA l : l.x))
  /\ fresh' = fresh \cup {id}
  /\ UNCHANGED <<env, data>>

Clear(id) ==
  /\ id \in DOMAIN progs
  /\ Put(id, [progs[id] EXCEPT !.lines = Effective(@)])
  /\ UNCHANGED <<env, data, out, fresh>>

Copy(id, from) ==
  /\ from \in DOMAIN progs /\ id \notin DOMAIN progs
  /\ Put(id, progs[from])
  /\ fresh' = IF from \in fresh THEN fresh \cup {id} ELSE fresh
  /\ UNCHANGED <<env, data, out>>

Drop(id) ==
  /\ id \in DOMAIN progs
  /\ progs' = [k \in (DOMAIN progs) \ {id} |-> progs[k]]
  /\ fresh' = fresh \ {id}
  /\ UNCHANGED <<env, data, out>>

SetData(d) == data' = d /\ UNCHANGED <<env, progs, fresh, out>>

Exec(id) ==                   \* marked lines are skipped
  /\ id \in DOMAIN progs
  /\ out' = ResultMarked(env, progs[id], data)
  /\ UNCHANGED <<env, progs, fresh, data>>

Compare(a, b, same) ==        \* same: the verdict
  /\ {a, b} \subseteq DOMAIN progs
  /\ same => Canonical(env, progs[a]) = Canonical(env, progs[b])
  /\ SameText(progs[a], progs[b]) => same
  /\ out' = (IF same THEN 1 ELSE 0)
  /\ UNCHANGED <<env, progs, fresh, data>>

(* ------------------------------ properties ------------------------------ *)
(* Freshly computed marks never influence a result, on any of the data D.   *)
MarksTransparent(D) ==
  \A id \in fresh : \A d \in D : ResultMarked(env, progs[id], d) = Result(env, progs[id], d)
MarksExact == \A id \in fresh : Marked(env, progs[id].lines) = progs[id].lines
(* Identity verdicts are sound. *)
IdentitySound(D) ==
  \A a, b \in DOMAIN progs :
     Canonical(env, progs[a]) = Canonical(env, progs[b])
       => \A d \in D : ResultMarked(env, progs[a], d) = ResultMarked(env, progs[b], d)
=============================================================================
