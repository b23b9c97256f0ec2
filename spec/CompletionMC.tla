---------------------------- MODULE CompletionMC ----------------------------
(* Knuth-Bendix completion as a non-deterministic process: at each step any *)
(* of the (nearly) shortest pending equations may be taken next.  Whatever the schedule, every rule   *)
(* is sound and decreasing, and when nothing is pending the rules are       *)
(* confluent and are THE reduced complete rule set (so all schedules, the   *)
(* library's included, end with the same normal forms).                     *)
EXTENDS Completion

Rl(l, k, r) == [l |-> l, r |-> [s |-> k, w |-> r]]
Systems == <<
    [star |-> <<0, 1>>, rules |-> <<Rl(<<1, 0>>, 2, <<0, 1>>), Rl(<<0, 0>>, 0, <<>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<0, 1>>, 0, <<0>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<0, 1, 0>>, 0, <<1>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<0, 0>>, 0, <<1>>)>>],
    [star |-> <<1, 0>>, rules |-> <<Rl(<<0, 1>>, 0, <<>>), Rl(<<0, 0, 0>>, 0, <<>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<0, 1>>, 1, <<0, 1>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<1, 1>>, 0, <<0>>), Rl(<<1, 1>>, 2, <<0>>)>>],
    [star |-> <<1, 0>>, rules |-> <<Rl(<<0, 0>>, 4, <<>>), Rl(<<1, 0>>, 2, <<0, 1>>)>>],
    [star |-> <<0, 1>>, rules |-> <<Rl(<<0, 0>>, 0, <<>>), Rl(<<1, 1>>, 0, <<>>), Rl(<<1, 0, 1>>, 0, <<0, 1, 0>>)>>],
    [star |-> <<0, 1, 2>>, rules |-> <<Rl(<<2, 2>>, 2, <<0>>), Rl(<<2, 2>>, 1, <<1>>)>>] >>

\* an equation may overtake others that are at most Slack operators shorter
CONSTANT Slack
VARIABLES k, final, rules, todo
vars == <<k, final, rules, todo>>
Star == Systems[k].star
Final == final

Init == /\ k \in 1..Len(Systems) /\ rules = {}
        /\ final = KBRun(<<>>, EquationsOf(Systems[k].star, Systems[k].rules), 400)
        /\ todo = Range1(EquationsOf(Systems[k].star, Systems[k].rules))
AsSeq(S) == SetToSeq(S)
Norm1(rs, S) == LET N == {<<Rewrite(rs, e[1]), Rewrite(rs, e[2])>> : e \in S}
                IN {LET o == Orient(e[1], e[2]) IN
                      IF o.k = "rule" THEN <<[s |-> 0, w |-> o.rule.l], o.rule.r>> ELSE e : e \in {x \in N : x[1] # x[2]}}
Step(e) ==
    LET rs == AsSeq(rules)
        o == Orient(Rewrite(rs, e[1]), Rewrite(rs, e[2]))
    IN IF o.k # "rule" THEN /\ todo' = todo \ {e} /\ UNCHANGED <<k, final, rules>>
       ELSE LET r == o.rule
                drop == {x \in rules : Occurs(r.l, x.l)}
                keep == {[l |-> x.l, r |-> IF IsZero(x.r) THEN Zero ELSE Rewrite(<<r>>, x.r)] : x \in rules \ drop}
                new == keep \cup {r}
                cps == UNION {Pairs(x, r) \cup Pairs(r, x) : x \in new}
                old == {<<[s |-> 0, w |-> x.l], x.r>> : x \in drop}
            IN /\ rules' = new /\ todo' = Norm1(AsSeq(new), (todo \ {e}) \cup old \cup cps) /\ UNCHANGED <<k, final>>
Size(e) == Len(e[1].w)
Next == \E e \in todo : (\A f \in todo : Size(e) <= Size(f) + Slack) /\ Step(e)
Spec == Init /\ [][Next]_vars

Decreasing == ProperRules(AsSeq(rules))
Sound == \A r \in rules : Rewrite(Final.rules, [s |-> 0, w |-> r.l]) = Rewrite(Final.rules, r.r)
Interreduce(R) == R
Done == todo = {} =>
    /\ Confluent(AsSeq(rules))
    /\ {r.l : r \in rules} = {r.l : r \in Range1(Final.rules)}
    /\ \A r \in rules : Rewrite(AsSeq(rules), r.r) = Rewrite(Final.rules, r.r)
    /\ \A r \in rules : Rewrite(AsSeq(rules), [s |-> 0, w |-> StarOf(Star, r.l)]) = Rewrite(AsSeq(rules), StarEl(Star, r.r))
=============================================================================
