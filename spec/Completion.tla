---------------------------- MODULE Completion ----------------------------
(***************************************************************************)
(* Knuth-Bendix completion of monomial rules l -> i^k r over operator      *)
(* words, in shortlex order.  The algebra has an involution (star), so the *)
(* congruence is generated by the rules and by their conjugates.           *)
(* KBComplete is a function (fixed strategy); the completion as a          *)
(* non-deterministic process is in CompletionMC.                           *)
(***************************************************************************)
EXTENDS Words

(* Order an equation between elements a = b (a, b reduced).  The result is *)
(* a rule, "trivial", or "collapse" (1 = 0 or 1 = i^k).                    *)
Bigger(a, b) == IF IsZero(b) THEN TRUE ELSE IF IsZero(a) THEN FALSE ELSE ShortlexLess(b.w, a.w)
Orient(a, b) ==
    IF a = b THEN [k |-> "trivial"]
    ELSE IF ~IsZero(a) /\ ~IsZero(b) /\ a.w = b.w
         THEN IF a.w = <<>> THEN [k |-> "collapse"]
              ELSE [k |-> "rule", rule |-> [l |-> a.w, r |-> Zero]]     \* w = i^k w  (k # 0)
    ELSE LET big == IF Bigger(a, b) THEN a ELSE b
             sml == IF Bigger(a, b) THEN b ELSE a
         IN IF big.w = <<>> THEN [k |-> "collapse"]
            ELSE [k |-> "rule", rule |-> [l |-> big.w, r |-> Scale(sml, 4 - big.s)]]

(* Critical pairs of two rules: proper overlaps of a suffix of p.l with a  *)
(* prefix of q.l.  (Containments are removed by inter-reduction.)          *)
Overlap(p, q, k) == /\ k <= Len(p.l) /\ k <= Len(q.l)
                    /\ \A j \in 1..k : p.l[Len(p.l) - k + j] = q.l[j]
                    /\ ~(k = Len(p.l) /\ k = Len(q.l))
PairAt(p, q, k) ==
    LET tail == SubSeq(q.l, k + 1, Len(q.l))
        head == SubSeq(p.l, 1, Len(p.l) - k)
    IN <<IF IsZero(p.r) THEN Zero ELSE [s |-> p.r.s, w |-> p.r.w \o tail],
         IF IsZero(q.r) THEN Zero ELSE [s |-> q.r.s, w |-> head \o q.r.w]>>
Pairs(p, q) == {PairAt(p, q, k) : k \in {x \in 1..Len(p.l) : Overlap(p, q, x)}}

AllPairs(rules) == UNION {Pairs(rules[i], rules[j]) : i \in 1..Len(rules), j \in 1..Len(rules)}
(* containment pairs: rule i applies properly inside the left side of rule j *)
InnerPairs(rules) ==
    {<<RewriteAt([s |-> 0, w |-> rules[t[2]].l], t[3], rules[t[1]]), rules[t[2]].r>> :
        t \in {u \in (1..Len(rules)) \X (1..Len(rules)) \X (1..12) :
                  /\ u[1] # u[2] /\ MatchesAt(rules[u[1]].l, rules[u[2]].l, u[3])}}

(* Every critical pair closes: with termination (shortlex) this is         *)
(* confluence, i.e. unique normal forms.                                   *)
Joins(rules, pr) == Rewrite(rules, pr[1]) = Rewrite(rules, pr[2])
UnresolvedPairs(rules) == {pr \in AllPairs(rules) \cup InnerPairs(rules) : ~Joins(rules, pr)}
Confluent(rules) == UnresolvedPairs(rules) = {}

StarOf(star, w) == [i \in 1..Len(w) |-> star[w[Len(w) + 1 - i] + 1]]
StarEl(star, a) == IF IsZero(a) THEN Zero ELSE [s |-> (4 - a.s) % 4, w |-> StarOf(star, a.w)]

ProperRules(rules) == \A i \in 1..Len(rules) :
    \/ IsZero(rules[i].r)
    \/ ShortlexLess(rules[i].r.w, rules[i].l)

(* ------------------------------------------------------------------------ *)
(* The completion as a function.  st: rules (inter-reduced), todo (sequence *)
(* of equations), collapsed, fuel.                                          *)
RECURSIVE KBRun(_, _, _)
KBRun(rules, todo, fuel) ==
    IF todo = <<>> THEN [rules |-> rules, ok |-> TRUE, collapsed |-> FALSE]
    ELSE IF fuel = 0 THEN [rules |-> rules, ok |-> FALSE, collapsed |-> FALSE]
    ELSE LET e == todo[1]
             a == Rewrite(rules, e[1])
             b == Rewrite(rules, e[2])
             o == Orient(a, b)
         IN IF o.k = "trivial" THEN KBRun(rules, Tail(todo), fuel - 1)
            ELSE IF o.k = "collapse" THEN [rules |-> rules, ok |-> TRUE, collapsed |-> TRUE]
            ELSE LET r == o.rule
                     keep == SelectSeq(rules, LAMBDA x : ~Occurs(r.l, x.l))
                     drop == SelectSeq(rules, LAMBDA x : Occurs(r.l, x.l))
                     new == Append([i \in 1..Len(keep) |->
                                      [l |-> keep[i].l, r |-> IF IsZero(keep[i].r) THEN Zero
                                                              ELSE Rewrite(<<r>>, keep[i].r)]], r)
                     eqs == [i \in 1..Len(drop) |-> <<[s |-> 0, w |-> drop[i].l], drop[i].r>>]
                     cps == FoldLeft(LAMBDA acc, x : acc \o SetToSeq(Pairs(x, r) \cup Pairs(r, x)), <<>>, new)
                 IN KBRun(new, Tail(todo) \o eqs \o cps, fuel - 1)

EquationsOf(star, rules) ==
    [i \in 1..(2 * Len(rules)) |->
        IF i <= Len(rules) THEN <<[s |-> 0, w |-> rules[i].l], rules[i].r>>
        ELSE <<[s |-> 0, w |-> StarOf(star, rules[i - Len(rules)].l)], StarEl(star, rules[i - Len(rules)].r)>>]

(* commutation / normality rules the context adds on request               *)
CommRules(n) == SetToSeq({[l |-> <<b, a>>, r |-> [s |-> 0, w |-> <<a, b>>]] :
                    <<a, b>> \in {p \in (0..(n-1)) \X (0..(n-1)) : p[1] < p[2]}})
NormalRules(n, star) == SetToSeq({[l |-> <<b, a>>, r |-> [s |-> 0, w |-> <<a, b>>]] :
                    <<a, b>> \in {p \in (0..(n-1)) \X (0..(n-1)) : p[1] < p[2] /\ star[p[1] + 1] = p[2]}})

KBComplete(n, star, rules, comm, normal, fuel) ==
    KBRun(<<>>, EquationsOf(star, rules \o (IF comm THEN CommRules(n) ELSE <<>>)
                                        \o (IF normal THEN NormalRules(n, star) ELSE <<>>)), fuel)
=============================================================================
