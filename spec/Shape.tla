-------------------------------- MODULE Shape --------------------------------
(* Views on data: a source [dim, h, w, el] (dim 0: a single value) seen      *)
(* through a type [el, a, b] (a, b extents, 0 = none).  Values in row order. *)
EXTENDS Integers, Sequences

(* Number of addresses at which source s provides type y. *)
SpaceT(s, y) ==
  IF y.el # s.el THEN 0
  ELSE IF y.b = 0 THEN s.h * s.w
  ELSE IF s.dim = 0 THEN 0
  ELSE IF s.dim = 1 THEN IF y.a = 0 /\ y.b <= s.w THEN s.w - y.b + 1 ELSE 0
  ELSE LET th == IF y.a = 0 THEN 1 ELSE y.a IN
       IF th <= s.h /\ y.b <= s.w THEN (s.h - th + 1) * (s.w - y.b + 1) ELSE 0

(* Positions (from 0) of the elements read at address addr, in order. *)
TouchedT(s, y, addr) ==
  IF y.b = 0 THEN <<addr>>
  ELSE IF s.dim = 1 THEN [k \in 1..y.b |-> addr + k - 1]
  ELSE LET th == IF y.a = 0 THEN 1 ELSE y.a
           span == s.w - y.b + 1
           r0 == addr \div span
           c0 == addr % span
       IN [k \in 1..(th * y.b) |->
             (r0 + ((k-1) \div y.b)) * s.w + c0 + ((k-1) % y.b)]

ReadT(s, vals, y, addr) ==
  LET p == TouchedT(s, y, addr) IN [k \in 1..Len(p) |-> vals[p[k] + 1]]
=============================================================================
