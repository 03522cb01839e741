------------------------------- MODULE MCStats -------------------------------
(* The stage by stage walk of a policy, one vertex at a time, against the    *)
(* definition of its statistics, on every small graph, cyclic ones included. *)
EXTENDS Stats
CONSTANTS NT, NA, MaxOut, NP
VARIABLES g, st, cur, nxt, depth, root
vars == <<g, st, cur, nxt, depth, root>>
Env == [nreg |-> 2, ncst |-> 0, srcs |-> <<[dim |-> 1, h |-> 1, w |-> 3, el |-> "d"]>>, ops |-> <<1, 7>>]
Ln(i, d, o, x) == [i |-> i, d |-> d, o |-> o, x |-> x]
ProgSet == << [lines |-> <<Ln(0, 1, << <<1, 4>>, <<0, 1>> >>, FALSE), Ln(0, 1, << <<1, 0>>, <<1, 0>> >>, TRUE),
                           Ln(1, 0, << <<1, 1>>, <<0, 0>> >>, FALSE)>>, cst |-> <<>>],
              [lines |-> <<Ln(1, 0, << <<0, 0>>, <<0, 0>> >>, FALSE)>>, cst |-> <<>>],
              [lines |-> <<>>, cst |-> <<>>] >>
Prg == [p \in 1..NP |-> ProgSet[p]]
Dst == 1..(NT + NA)
Lists == UNION { [1..n -> Dst \X (1..NP)] : n \in 0..MaxOut }
(* lists : team -> its edges *)
Mk(lists) ==
  LET eid(t, k) == (t - 1) * MaxOut + k
      S == UNION { { eid(t, k) : k \in 1..Len(lists[t]) } : t \in 1..NT }
      tm(e) == ((e - 1) \div MaxOut) + 1
      ps(e) == ((e - 1) % MaxOut) + 1
  IN [verts |-> [k \in Dst |-> k], kind |-> [v \in Dst |-> IF v <= NT THEN "T" ELSE "A"],
      act |-> [v \in Dst |-> IF v <= NT THEN -1 ELSE (v - NT) \div 2],
      outs |-> [v \in Dst |-> IF v <= NT THEN [k \in 1..Len(lists[v]) |-> eid(v, k)] ELSE <<>>],
      edges |-> [e \in S |-> [src |-> tm(e), dst |-> lists[tm(e)][ps(e)][1], prog |-> lists[tm(e)][ps(e)][2]]]]
(* teams are interchangeable: their lists are taken in order of length *)
Init == /\ \E l1 \in Lists : \E l \in [2..NT -> Lists] :
             g = Mk([t \in 1..NT |-> IF t = 1 THEN l1 ELSE l[t]])
        /\ root \in {1, NT + 1}
        /\ st = NoStats /\ cur = <<root>> /\ nxt = <<>> /\ depth = 0
Stage == /\ cur # <<>> /\ depth \notin DOMAIN st.levels /\ st' = [st EXCEPT !.levels = Bump(@, depth, Len(cur))]
         /\ UNCHANGED <<g, cur, nxt, depth, root>>
Vertex == /\ cur # <<>> /\ depth \in DOMAIN st.levels
          /\ LET v == cur[1]
                 rest == Tail(cur)
                 new == g.kind[v] = "T" /\ v \notin DOMAIN st.team
                 s1 == IF g.kind[v] = "T" THEN WithTeam(g, st, v) ELSE WithAction(g, st, v)
                 s2 == IF new THEN FoldLeft(LAMBDA a, e : WithProg(Env, Prg, a, g.edges[e].prog), s1, g.outs[v]) ELSE s1
                 n2 == IF new THEN nxt \o [k \in 1..Len(g.outs[v]) |-> g.edges[g.outs[v][k]].dst] ELSE nxt
             IN /\ st' = (IF rest = <<>> THEN [s2 EXCEPT !.depth = depth] ELSE s2)
                /\ IF rest = <<>> THEN cur' = n2 /\ nxt' = <<>> /\ depth' = depth + 1
                   ELSE cur' = rest /\ nxt' = n2 /\ UNCHANGED depth
          /\ UNCHANGED <<g, root>>
Next == Stage \/ Vertex
Spec == Init /\ [][Next]_vars
Done == cur = <<>>
Right == Done => st = PolicyStats(Env, Prg, g, root)
(* at any time, no element is counted more often than in the end *)
Sub(f, h) == \A k \in DOMAIN f : k \in DOMAIN h /\ f[k] <= h[k]
Grows == [][ \A f \in {"prog", "team", "action", "instr", "loc", "lines"} : Sub(st[f], st'[f]) ]_vars
=============================================================================
