------------------------------ MODULE MCArchive ------------------------------
(* The structures the library keeps (per-program lists, reference scan on    *)
(* eviction, scan with early exit for novelty) refine Archive.tla.  Live     *)
(* data: one cell; the hash of a content is that content.                    *)
EXTENDS Archive
CONSTANTS CAP, NPROG, NVAL, LEN
VARIABLES per,    \* program -> its recordings, oldest first
          live, hist
vars == <<avars, per, live, hist>>
Progs == 1..NPROG
Vals == 1..NVAL
Init == /\ cap \in 0..CAP /\ prob = 100 /\ recs = <<>> /\ snaps = <<>>
        /\ per = [p \in Progs |-> <<>>] /\ live = 1 /\ hist = <<>>
(* the library's algorithm, on its own structures                            *)
AlgAdd(p, r) ==
  LET rec == [p |-> p, h |-> live, r |-> r]
      s1 == IF live \in DOMAIN snaps THEN snaps ELSE snaps @@ (live :> live)
      r1 == Append(recs, rec)
      p1 == [per EXCEPT ![p] = Append(@, rec)]
  IN IF Len(r1) > cap
     THEN LET old == Head(r1)  r2 == Tail(r1)
              used == \E k \in 1..Len(r2) : r2[k].h = old.h
          IN /\ recs' = r2
             /\ snaps' = IF used THEN s1 ELSE [h \in (DOMAIN s1) \ {old.h} |-> s1[h]]
             /\ per' = [p1 EXCEPT ![old.p] = Tail(@)]
     ELSE recs' = r1 /\ snaps' = s1 /\ per' = p1
Next ==
  \/ \E p \in Progs, r \in 0..1 :
       /\ Len(hist) < LEN
       /\ AlgAdd(p, r) /\ hist' = Append(hist, [p |-> p, h |-> live, r |-> r]) /\ UNCHANGED <<cap, prob, live>>
  \/ \E v \in Vals : live' = v /\ v # live /\ UNCHANGED <<avars, per, hist>>
  \/ /\ hist # <<>> /\ Clear /\ per' = [p \in Progs |-> <<>>] /\ hist' = <<>> /\ UNCHANGED live
Spec == Init /\ [][Next]_vars
Refines == [][ \/ \E p \in Progs, r \in 0..1 : Record(p, live, live, r)
               \/ Clear \/ UNCHANGED avars ]_vars
Fifo == recs = Newest(hist, cap)
Snapshots == \A h \in DOMAIN snaps : snaps[h] = h
PerProgram == \A p \in Progs : per[p] = SelectSeq(recs, LAMBDA x : x.p = p)
(* early-exit scan over per-program lists                                    *)
Scan(res, Near(_, _)) ==
  LET one(q) == FoldLeft(LAMBDA acc, x : IF acc = 2 \/ x.h \notin DOMAIN res THEN acc
                                         ELSE IF Near(res[x.h], x.r) THEN 1 ELSE 2, 0, q)
  IN ~\E p \in Progs : one(per[p]) = 1
Eq(a, b) == a = b
Novelty == \A S \in SUBSET Vals : \A res \in [S -> 0..1] : Scan(res, Eq) = Unique(res, Eq)
=============================================================================
