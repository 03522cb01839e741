-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Data sources (property C08).  A handler either owns its content or views *)
(* an external buffer (0 = none attached).  Its identity is given once and  *)
(* kept by copies.  The cache of the hash is part of the design: `cache` is *)
(* what the hash was last computed from, `dirty` whether it must be         *)
(* recomputed.  A view cannot notice writes made directly to its buffer     *)
(* until it is told (invalidate) - except single-value views, which always  *)
(* recompute.                                                               *)
(***************************************************************************)
EXTENDS Shape, FiniteSets, TLC

VARIABLES bufs,   \* buffer id -> content
          hs      \* handler id -> [sh, own, ptr, val, id, cache, dirty, stale]
dvars == <<bufs, hs>>

None == [none |-> TRUE]
Size(sh) == sh.h * sh.w
Zeros(n) == [k \in 1..n |-> 0]
Unset(x) == ~hs[x].own /\ hs[x].ptr = 0
ContentOf(bb, h) == IF h.own THEN h.val ELSE IF h.ptr = 0 THEN <<>> ELSE bb[h.ptr]
Content(x) == ContentOf(bufs, hs[x])

DInit == bufs = <<>> /\ hs = <<>>
Set(f, k, v) == [i \in (DOMAIN f) \cup {k} |-> IF i = k THEN v ELSE f[i]]

NewBuf(b, v) == b \notin DOMAIN bufs /\ bufs' = Set(bufs, b, v) /\ UNCHANGED hs
New(x, sh, own, p, ident) ==
  /\ x \notin DOMAIN hs
  /\ \A y \in DOMAIN hs : hs[y].id # ident          \* identities are never reused
  /\ ~own /\ p # 0 => Len(bufs[p]) = Size(sh)
  /\ hs' = Set(hs, x, [sh |-> sh, own |-> own, ptr |-> p, val |-> IF own THEN Zeros(Size(sh)) ELSE <<>>,
                       id |-> ident, cache |-> None, dirty |-> TRUE, stale |-> FALSE])
  /\ UNCHANGED bufs
Write(x, i, v) ==                                     \* through the handler
  /\ hs[x].own
  /\ hs' = [hs EXCEPT ![x].val[i + 1] = v, ![x].dirty = TRUE]
  /\ UNCHANGED bufs
ExtWrite(b, i, v) ==                                  \* straight to the buffer
  /\ bufs' = [bufs EXCEPT ![b][i + 1] = v]
  /\ hs' = [x \in DOMAIN hs |->
              IF ~hs[x].own /\ hs[x].ptr = b /\ hs[x].sh.dim # 0 THEN [hs[x] EXCEPT !.stale = TRUE] ELSE hs[x]]
Invalidate(x) == hs' = [hs EXCEPT ![x].dirty = TRUE, ![x].stale = FALSE] /\ UNCHANGED bufs
SetPtr(x, p, ok) ==
  /\ ~hs[x].own
  /\ ok <=> (p = 0 \/ Len(bufs[p]) = Size(hs[x].sh))
  /\ hs' = IF ok THEN [hs EXCEPT ![x].ptr = p, ![x].dirty = TRUE, ![x].stale = FALSE] ELSE hs
  /\ UNCHANGED bufs
Reset(x) ==                                           \* views do not own their data
  /\ hs' = IF hs[x].own THEN [hs EXCEPT ![x].val = Zeros(Size(hs[x].sh)), ![x].dirty = TRUE] ELSE hs
  /\ UNCHANGED bufs
Assign(x, y, ok) ==                                   \* content only: identity kept
  /\ hs[x].own /\ hs[y].own
  /\ ok <=> Size(hs[x].sh) = Size(hs[y].sh)
  /\ hs' = IF ok /\ x # y THEN [hs EXCEPT ![x].val = hs[y].val, ![x].dirty = TRUE] ELSE hs
  /\ UNCHANGED bufs
(* a frozen copy owns its content; an unset view gives a zero content       *)
Clone(x, n) ==
  /\ n \notin DOMAIN hs
  /\ LET c == IF Unset(x) THEN Zeros(Size(hs[x].sh)) ELSE Content(x)
         sh == IF hs[x].sh.dim = 0 THEN [hs[x].sh EXCEPT !.dim = 1] ELSE hs[x].sh
     IN hs' = Set(hs, n, [sh |-> sh, own |-> TRUE, ptr |-> 0, val |-> c, id |-> hs[x].id,
                          cache |-> None, dirty |-> TRUE, stale |-> FALSE])
  /\ UNCHANGED bufs
Drop(x) == hs' = [y \in (DOMAIN hs) \ {x} |-> hs[y]] /\ UNCHANGED bufs

(* What asking for the hash does, and what it stands for. *)
Key(x) == <<hs[x].id, Content(x)>>
HashOf(x) == IF hs[x].dirty \/ hs[x].sh.dim = 0 THEN Key(x) ELSE hs[x].cache
AskHash(x) ==
  /\ hs' = IF Unset(x) THEN hs ELSE [hs EXCEPT ![x].cache = HashOf(x), ![x].dirty = FALSE]
  /\ UNCHANGED bufs

(* The property: a hash, whenever asked, stands for the current content.    *)
HashCurrent == \A x \in DOMAIN hs : (~Unset(x) /\ ~hs[x].stale) => HashOf(x) = Key(x)
=============================================================================
