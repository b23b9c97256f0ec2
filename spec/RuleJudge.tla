------------------------------ MODULE RuleJudge ------------------------------
(* What a recorded rulebook, reduction, substitution or exported basis must be, given the span it stands for. *)
EXTENDS Rules

Rule(x) == [l |-> x.l, part |-> x.part, r |-> Terms(x.r)]
RulesIn(e) == Force([k \in 1..Len(e.rules) |-> Rule(e.rules[k].r)])
(* b: [E: span of what was completed, raw: polynomials waiting, rules, used, safe, exp, live, odd, id] *)
Blocked(b) == b.used /\ ~b.exp
Full(S, b) == InsertAll(b.E, RowsOf(S, b.raw))

(* what a book says about itself *)
Status(S, e, rules, b) ==
    IF \E k \in 1..Len(e.rules) : ~Sound(e.rules[k].r.r) THEN "coefficient of a rule"
    ELSE IF \E k \in 1..Len(e.rules) : e.rules[k].k # e.rules[k].r.l THEN "symbol under which a rule is found"
    ELSE IF Cardinality(LHS(rules)) # Len(rules) THEN "two rules for one symbol"
    ELSE IF e.n # Len(rules) \/ e.empty # (Len(rules) = 0) THEN "number of rules"
    ELSE IF e.pend # Len(b.raw) \/ e.pending # (Len(b.raw) # 0) THEN "number of rules waiting"
    ELSE IF e.mono # Monomials(rules) THEN "whether the rules are monomial"
    ELSE IF e.herm # AllKeepHermitian(S, rules) THEN "whether the rules keep Hermitian matrices Hermitian"
    ELSE IF e.used # b.used THEN "whether the rulebook is in use"
    ELSE ""
Unchanged(e, b) == RulesIn(e) = b.rules
(* completed rules that should solve the span E *)
Solved(S, rules, E) ==
    IF \E k \in 1..Len(rules) : rules[k].l <= 1 THEN "rule for the identity or zero"
    ELSE IF \E k \in 1..Len(rules) : ~WellFormed(S.tab, S.order, rules[k].r) THEN "form of a rule"
    ELSE IF \E k \in 1..Len(rules) : ~Oriented(S, rules[k]) THEN "rule replaces a symbol by later symbols"
    ELSE IF ~Interreduced(S, rules) THEN "rule is not reduced by the other rules"
    ELSE IF ~AllKeepHermitian(S, rules) THEN "rule that does not respect conjugation"
    ELSE LET rows == RowsOf(S, [k \in 1..Len(rules) |-> Equation(rules[k])]) IN
         IF \E k \in 1..Len(rows) : ~In(E, rows[k]) THEN "rule that does not follow from the given polynomials"
         ELSE IF Len(InsertAll(<<>>, rows)) # Len(E) THEN "the rules do not imply all given polynomials"
         ELSE ""
Why(seq) == LET f == {k \in 1..Len(seq) : seq[k] # ""} IN IF f = {} THEN "" ELSE seq[Min(f)]
(* lazily: the first that complains *)
Then(a, b) == IF a # "" THEN a ELSE b

JudgeRule(S, e) ==
    LET p == Terms(e.in)
        last == p[Len(p)] prev == p[Len(p) - 1]
        norm(t) == ((((t[2] * t[2]) % P) + ((t[3] * t[3]) % P)) % P)
        dif == IF Len(p) = 0 THEN 1 ELSE IF last[1] = 1 THEN 2 ELSE IF Len(p) = 1 \/ prev[1] # last[1] THEN 3
               ELSE IF norm(last) # norm(prev) THEN 4 ELSE 5
    IN IF ~Sound(e.in) THEN "coefficient"
       ELSE IF e.dif # dif THEN "difficulty of a polynomial"
       ELSE IF dif = 2 THEN (IF e.res = "contra" THEN "" ELSE "rule from a contradiction")
       ELSE IF e.res # "ok" THEN "polynomial refused"
       ELSE IF ~Sound(e.rule.r) \/ ~Sound(e.back) \/ \E k \in 1..Len(e.split) : ~Sound(e.split[k]) THEN "coefficient of a rule"
       ELSE IF e.triv # (dif = 1) \/ e.again THEN "trivial rule, or remainder given twice"
       ELSE IF e.triv THEN (IF e.back = <<>> /\ e.split = <<>> THEN "" ELSE "trivial rule")
       ELSE LET x == Rule(e.rule)
                E == InsertAll(<<>>, RowsOf(S, <<p>>))
                R == RowsOf(S, <<Equation(x)>> \o [k \in 1..Len(e.split) |-> Terms(e.split[k])])
            IN IF x.l # last[1] THEN "symbol replaced by a rule"
               ELSE IF ~WellFormed(S.tab, S.order, x.r) \/ ~Oriented(S, x) THEN "form of a rule"
               ELSE IF ~KeepsHermitian(S, x) THEN "rule that does not respect conjugation"
               ELSE IF x.part # (dif = 5) THEN "whether the rule is partial"
               ELSE IF ~IsForm(S, e.back, Equation(x)) THEN "rule as polynomial"
               ELSE IF \E k \in 1..Len(R) : ~In(E, R[k]) THEN "rule that does not follow from its polynomial"
               ELSE IF Len(InsertAll(<<>>, R)) # Len(E) THEN "rule and remainder do not imply the polynomial"
               ELSE LET q == Terms(e.q) m == Terms(e.m) n == Cardinality({k \in 1..Len(q) : q[k][1] = x.l}) IN
                    IF e.hit # (n > 0) \/ e.hits # n THEN "matches of a rule"
                    ELSE IF ~IsForm(S, e.rq, Subst(<<x>>, q)) \/ ~IsForm(S, e.rm, Subst(<<x>>, m)) THEN "action of one rule"
                    ELSE IF "rmm" \in DOMAIN e /\ ~IsForm(S, e.rmm, Subst(<<x>>, m)) THEN "action of one rule on a monomial"
                    ELSE ""

JudgeRed(S, e, b) ==
    LET p == Terms(e.in) q == Force(Subst(b.rules, p)) hit == \E k \in 1..Len(p) : p[k][1] \in LHS(b.rules) IN
    IF ~Sound(e.in) THEN "coefficient"
    ELSE IF ~IsForm(S, e.out, q) \/ e.out2 # e.out THEN "reduced polynomial"
    ELSE IF e.ret # hit \/ e.match # hit THEN "whether a rule applied"
    ELSE IF "m" \notin DOMAIN e THEN ""
    ELSE LET m == Terms(e.m) r == Force(Subst(b.rules, m)) f == RuleFor(b.rules, m[1][1]) long == \E k \in f : Len(b.rules[k].r) > 1 IN
         IF ~IsForm(S, e.mp, r) THEN "reduced monomial"
         ELSE IF (e.mm = "not") # long THEN "reduction of a monomial to a monomial"
         ELSE IF ~long /\ ~IsForm(S, e.mmo, r) THEN "monomial of a monomial rule" ELSE ""

Cells(S, d, e, b) == \A k \in 1..Len(e.in) : Sound(e.in[k]) /\ IsForm(S, e.out[k], Subst(b.rules, Terms(e.in[k])))
TermIds(e) == UNION {{e.out[k][j][1] : j \in 1..Len(e.out[k])} : k \in 1..Len(e.out)} \ {0}
JudgeSub(S, e, b) ==
    LET d == e.dim n == Len(e.in) ids == TermIds(e) IN
    IF n # d * d \/ Len(e.out) # n THEN "dimension of the substituted matrix"
    ELSE IF ~e.same THEN "substituted matrix found again"
    ELSE IF ~e.src THEN "source of the substituted matrix"
    ELSE IF e.kmono # (e.smono /\ Monomials(b.rules)) THEN "kind of substituted matrix"
    ELSE IF ~Cells(S, d, e, b) THEN "cell of the substituted matrix"
    ELSE IF e.kherm /\ \E r, c \in 0..(d - 1) : r <= c /\
                ~(LET x == Terms(e.out[(r * d) + c + 1]) y == Terms(e.out[(c * d) + r + 1]) IN
                  ReRow(S, x) = ReRow(S, y) /\ ImRow(S, x) = Force([k \in 1..Width(S) |-> Minus(ImRow(S, y)[k])])) THEN "substituted matrix is not Hermitian"
    ELSE IF e.sherm /\ AllKeepHermitian(S, b.rules) /\ ~e.kherm THEN "substituted matrix is Hermitian"
    ELSE IF {x \in Range1(e.inc) : x # 0} # ids THEN "symbols of the substituted matrix"
    ELSE IF LET used == UNION {NonZero(ReRow(S, Terms(e.out[k]))) \cup NonZero(ImRow(S, Terms(e.out[k]))) : k \in 1..n}
            IN ~(used \subseteq ({x + 1 : x \in Range1(e.reb)} \cup {S.nre + x + 1 : x \in Range1(e.imb)})) THEN "basis of the substituted matrix"
    ELSE ""

(* a matrix of monomials is refused when a rule turns one of its cells into a polynomial, however many threads do the work *)
JudgeStrict(S, e, b) ==
    LET long == \E k \in 1..Len(e.in) : Terms(e.in[k]) # <<>> /\ \E j \in RuleFor(b.rules, Terms(e.in[k])[1][1]) : Len(b.rules[j].r) > 1 IN
    IF (e.res = "not") # long THEN "refusal of a matrix that would not stay monomial"
    ELSE IF ~long /\ (Len(e.in) # e.dim * e.dim \/ Len(e.out) # Len(e.in) \/ ~Cells(S, e.dim, e, b)) THEN "cell of the monomial substituted matrix" ELSE ""

(* each row of the exported matrix, minus the identity when rewriting, is a consequence; together they are all of them *)
JudgeBasis(S, e, b) ==
    LET n == Width(S)
        H == FoldLeft(LAMBDA M, t : [M EXCEPT ![t[1] + 1] = [@ EXCEPT ![t[2] + 1] = (@ + Frac(t[3], t[4])) % P]],
                      Force([k \in 1..n |-> IF e.rewrite THEN [Nil(n) EXCEPT ![k] = Minus(1)] ELSE Nil(n)]), e.m)
    IN IF e.rows # n \/ e.cols # n THEN "size of the basis map"
       ELSE IF \E k \in 1..Len(e.m) : e.m[k][4] = 0 THEN "coefficient of the basis map"
       ELSE IF \E k \in 1..n : ~In(b.E, H[k]) THEN "row of the basis map that does not follow from the rules"
       ELSE IF Len(InsertAll(<<>>, H)) # Len(b.E) THEN "basis map does not imply all rules"
       ELSE ""

WiderBook(b, S, e) == [b EXCEPT !.E = Force([k \in 1..Len(@) |-> [p |-> IF @[k].p <= S.nre THEN @[k].p ELSE @[k].p + e.nre - S.nre, r |-> Force(Wider(@[k].r, S.nre, S.nim, e.nre, e.nim))]])]
=============================================================================
