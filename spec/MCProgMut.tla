------------------------------ MODULE MCProgMut ------------------------------
(* The mutation algorithm (draws nondeterministic) on a tiny environment:    *)
(* every program reachable from any initial program by any mutation sequence.*)
EXTENDS ProgMut
VARIABLES p, last
vars == <<p, last>>
(* one double source of 1 element and one int source of 2 elements *)
Env == [nreg |-> 2, ncst |-> 1, ops |-> <<2, 4, 5>>,
        srcs |-> << [dim |-> 1, h |-> 1, w |-> 1, el |-> "d"], [dim |-> 1, h |-> 1, w |-> 2, el |-> "i"] >>]
NSrc == Len(AllSrcs(Env))
MaxLen == 2
Locs == 0..1
Line(i, d, s1, l1, s2, l2) == [i |-> i, d |-> d, o |-> << <<s1, l1>>, <<s2, l2>> >>, x |-> FALSE]
(* what the random initialisation of a line can draw *)
Drawn == { x \in { Line(i, d, s1, 0, s2, l2) : i \in 0..2, d \in 0..1, s1 \in 0..(NSrc-1), s2 \in 0..(NSrc-1), l2 \in Locs } :
            \A k \in 1..2 : OperandOK(Env, x, k) }
(* the alteration algorithm: choose a field, redraw it, repair the operands *)
RedrawSrc(a, k) ==   \* another source able to provide the operand, if any
  LET c == { s \in 0..(NSrc-1) : s # a.o[k][1] /\ OperandOK(Env, [a EXCEPT !.o[k] = <<s, a.o[k][2]>>], k) }
  IN IF c = {} THEN {a} ELSE { [a EXCEPT !.o[k] = <<s, a.o[k][2]>>] : s \in c }
Repair(a, k) == IF OperandOK(Env, a, k) THEN {a} ELSE RedrawSrc(a, k)
AlterAlg(a) ==
  UNION { UNION { Repair(b, 2) : b \in Repair([a EXCEPT !.i = i], 1) } : i \in (0..2) \ {a.i} }
  \cup { [a EXCEPT !.d = d] : d \in (0..1) \ {a.d} }
  \cup RedrawSrc(a, 1) \cup RedrawSrc(a, 2)
  \cup UNION { { [a EXCEPT !.o[k] = <<a.o[k][1], l>>] : l \in Locs \ {a.o[k][2]} } : k \in 1..2 }
Mk(ls) == [p EXCEPT !.lines = Marked(Env, ls)]
Init == /\ \E x \in Drawn, c \in 0..1 : p = [lines |-> Marked(Env, <<x>>), cst |-> <<c>>]
        /\ last = "init"
Del == Len(p.lines) > 1 /\ \E k \in 1..Len(p.lines) : p' = Mk(RemoveAt(p.lines, k)) /\ last' = "del"
Ins == Len(p.lines) < MaxLen /\ \E k \in 1..(Len(p.lines) + 1), x \in Drawn :
          p' = Mk(InsertAt(p.lines, k, x)) /\ last' = "ins"
Swp == Len(p.lines) = 2 /\ p' = Mk(<<p.lines[2], p.lines[1]>>) /\ last' = "swp"
Alt == \E k \in 1..Len(p.lines) : \E b \in AlterAlg(p.lines[k]) : p' = Mk([p.lines EXCEPT ![k] = b]) /\ last' = "alt"
Cst == \E c \in 0..1 : p' = [p EXCEPT !.cst[1] = c] /\ last' = "cst"
Next == Del \/ Ins \/ Swp \/ Alt \/ Cst
Spec == Init /\ [][Next]_vars
Valid == ProgOK(Env, p) /\ Len(p.lines) \in 1..MaxLen /\ CstIn(p, 0, 1) /\ MarksOK(Env, p)
(* each step of the algorithm is a step of the relation the traces are held to *)
Refines == [][ /\ last' = "del" => RelDelete(Env, p, p', TRUE)
               /\ last' = "ins" => RelInsert(Env, p, p')
               /\ last' = "swp" => RelSwap(Env, p, p', TRUE)
               /\ last' = "alt" => RelAlter(Env, p, p', TRUE)
               /\ last' = "cst" => RelConst(Env, p, p', 0, 1) ]_vars
=============================================================================
