------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* The archive of past executions (properties C06, C07).  A recording is    *)
(* [p, h, r]: program, data hash, result.  Snapshots: hash -> content.      *)
(* Programs are identities: two different programs are never confused.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES cap,    \* capacity
          prob,   \* archiving probability, in percent
          recs,   \* recordings, oldest first
          snaps   \* data hash -> content of the snapshot
avars == <<cap, prob, recs, snaps>>

Newest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Keep(rs, sn) == [h \in { rs[k].h : k \in 1..Len(rs) } |-> sn[h]]

ArchInit(c, p) == cap' = c /\ prob' = p /\ recs' = <<>> /\ snaps' = <<>>
Record(p, h, content, r) ==
  LET rs == Newest(Append(recs, [p |-> p, h |-> h, r |-> r]), cap)
      sn == IF h \in DOMAIN snaps THEN snaps
            ELSE [x \in (DOMAIN snaps) \cup {h} |-> IF x = h THEN content ELSE snaps[x]]
  IN recs' = rs /\ snaps' = Keep(rs, sn) /\ UNCHANGED <<cap, prob>>
Add(p, h, content, r, forced) ==
  \/ (forced \/ prob > 0) /\ Record(p, h, content, r)
  \/ ~forced /\ prob < 100 /\ UNCHANGED avars
Clear == recs' = <<>> /\ snaps' = <<>> /\ UNCHANGED <<cap, prob>>

(* ---- novelty ---------------------------------------------------------- *)
(* results: data hash -> value; Near(a,b): within the tolerance.            *)
Programs == { recs[k].p : k \in 1..Len(recs) }
Equivalent(p, results, Near(_, _)) ==
  LET common == { k \in 1..Len(recs) : recs[k].p = p /\ recs[k].h \in DOMAIN results } IN
  common # {} /\ \A k \in common : Near(results[recs[k].h], recs[k].r)
Unique(results, Near(_, _)) == ~\E p \in Programs : Equivalent(p, results, Near)

(* ---- invariants ------------------------------------------------------- *)
Bounded == Len(recs) <= cap
SnapsExact == DOMAIN snaps = { recs[k].h : k \in 1..Len(recs) }
=============================================================================
