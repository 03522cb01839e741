------------------------------- MODULE MCData -------------------------------
EXTENDS Data
CONSTANTS NH
Bufs == {1, 2}
Shapes == { [dim |-> 1, h |-> 1, w |-> 2, el |-> "d"], [dim |-> 2, h |-> 2, w |-> 1, el |-> "d"],
            [dim |-> 0, h |-> 1, w |-> 1, el |-> "d"], [dim |-> 1, h |-> 1, w |-> 1, el |-> "d"] }
Fresh == { x \in 1..NH : x \notin DOMAIN hs }
NextId == { CHOOSE x \in Fresh : \A y \in Fresh : x <= y : d \in (IF Fresh = {} THEN {} ELSE {1}) }
MInit == bufs = (1 :> <<0, 0>>) @@ (2 :> <<0>>) /\ hs = <<>>
Next ==
  \/ \E x \in NextId, sh \in Shapes, own \in BOOLEAN, p \in {0, 1, 2} :
        /\ (own => p = 0 /\ sh.dim # 0) /\ (~own /\ p # 0 => Len(bufs[p]) = Size(sh))
        /\ \A y \in DOMAIN hs : hs[y].id # x
        /\ New(x, sh, own, p, x)
  \/ \E x \in DOMAIN hs :
        \/ hs[x].own /\ \E i \in 0..(Len(hs[x].val) - 1), v \in 0..1 : Write(x, i, v)
        \/ Invalidate(x) \/ Reset(x) \/ AskHash(x)
        \/ \E p \in {0, 1, 2}, ok \in BOOLEAN : SetPtr(x, p, ok)
        \/ \E y \in DOMAIN hs, ok \in BOOLEAN : Assign(x, y, ok)
        \/ \E n \in NextId : Clone(x, n)
  \/ \E b \in Bufs : \E i \in 0..(Len(bufs[b]) - 1), v \in 0..1 : ExtWrite(b, i, v)
Spec == MInit /\ [][Next]_dvars
(* a clone answers like its original at cloning time, and nothing done to   *)
(* another handler or buffer changes an owner                               *)
Isolation ==
  [][\A x \in DOMAIN hs \cap DOMAIN hs' :
       (hs[x].own /\ hs'[x].val # hs[x].val) =>
          /\ bufs' = bufs
          /\ \A y \in DOMAIN hs : y # x => hs'[y] = hs[y]]_dvars
ClonesFaithful ==
  [][\A n \in (DOMAIN hs') \ (DOMAIN hs) : hs'[n].own /\ hs'[n].val # Zeros(Len(hs'[n].val)) =>
        \E x \in DOMAIN hs : hs[x].id = hs'[n].id /\ Content(x) = hs'[n].val]_dvars
=============================================================================
