----------------------------- MODULE DataTrace ------------------------------
EXTENDS Data, TraceLib, SequencesExt
VARIABLE keys          \* hash -> the set of <<identity, content>> seen with it
tvars == <<dvars, keys, l>>
TInit == DInit /\ keys = <<>> /\ l = 1

(* Every live handler is observed after every call: identity, content (one   *)
(* scalar read per element) and hash.                                        *)
Obs == Ev.obs
ObsOf(x) == CHOOSE o \in Range(Obs) : o.x = x
Seen(o) == <<hs'[o.x].id, ContentOf(bufs', hs'[o.x])>>
Settled(o) == ~(~hs'[o.x].own /\ hs'[o.x].ptr = 0) /\ ~hs'[o.x].stale
Look ==
  /\ { o.x : o \in Range(Obs) } = DOMAIN hs'
  /\ \A o \in Range(Obs) :
       LET h == hs'[o.x] IN
       /\ o.id = h.id
       /\ IF ~h.own /\ h.ptr = 0
          THEN o.refused /\ o.hash = 0
          ELSE ~o.refused /\ o.vals = ContentOf(bufs', h)
       /\ o.native = h.sh.el
       /\ o.dims = (IF h.sh.dim = 2 THEN <<h.sh.h, h.sh.w>> ELSE <<h.sh.w>>)
  (* equal identity and content: equal hash; other content: another hash    *)
  /\ \A o \in Range(Obs) : Settled(o) =>
       /\ o.hash \in DOMAIN keys => \A k \in keys[o.hash] : k[1] = Seen(o)[1] => k[2] = Seen(o)[2]
       /\ \A g \in DOMAIN keys : Seen(o) \in keys[g] => g = o.hash
  /\ \A o, q \in Range(Obs) : (Settled(o) /\ Settled(q)) =>
       /\ (Seen(o) = Seen(q)) => o.hash = q.hash
       /\ (Seen(o)[1] = Seen(q)[1] /\ o.hash = q.hash) => Seen(o) = Seen(q)
  /\ keys' = FoldSet(LAMBDA o, m :
               IF ~Settled(o) THEN m
               ELSE Set(m, o.hash, (IF o.hash \in DOMAIN m THEN m[o.hash] ELSE {}) \cup {Seen(o)}),
             keys, Range(Obs))

(* A view on one handler through one type at one raw location.              *)
TView ==
  /\ IsEvent("View") /\ UNCHANGED <<dvars, keys>>
  /\ LET h == hs[Ev.x]  y == Ev.y  n == SpaceT(h.sh, y) IN
     /\ Ev.space = n /\ Ev.can = (n > 0)
     /\ Ev.largest = Size(h.sh)
     /\ n > 0 =>
          LET a == Ev.raw % n IN
          /\ Ev.addr = a
          /\ Ev.used = TouchedT(h.sh, y, a)
          /\ IF Unset(Ev.x) THEN Ev.refused
             ELSE ~Ev.refused /\ Ev.vals = ReadT(h.sh, Content(Ev.x), y, a)
     /\ Ev.beyond = <<>>                     \* nothing is used past the last address

TNext ==
  \/ IsEvent("Reset0")  /\ bufs' = <<>> /\ hs' = <<>> /\ keys' = <<>>
  \/ IsEvent("NewBuf")  /\ NewBuf(Ev.b, Ev.v) /\ UNCHANGED keys
  \/ IsEvent("New")     /\ New(Ev.x, Ev.sh, Ev.own, Ev.p, Ev.id) /\ Look
  \/ IsEvent("Write")   /\ Write(Ev.x, Ev.i, Ev.v) /\ Look
  \/ IsEvent("Ext")     /\ ExtWrite(Ev.b, Ev.i, Ev.v) /\ Look
  \/ IsEvent("Inval")   /\ Invalidate(Ev.x) /\ Look
  \/ IsEvent("SetPtr")  /\ SetPtr(Ev.x, Ev.p, Ev.ok) /\ Look
  \/ IsEvent("Reset")   /\ Reset(Ev.x) /\ Look
  \/ IsEvent("Assign")  /\ Assign(Ev.x, Ev.y, Ev.ok) /\ Look
  \/ IsEvent("Clone")   /\ Clone(Ev.x, Ev.n) /\ Look
  \/ IsEvent("Drop")    /\ Drop(Ev.x) /\ Look
  \/ TView
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
