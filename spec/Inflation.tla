------------------------------ MODULE Inflation ------------------------------
(***************************************************************************)
(* Products of independent moments.  In an inflation scenario, a moment of  *)
(* operators that share no copy of a source is the product of the moments   *)
(* of its connected parts.  Every symbol stands for a BAG of indivisible    *)
(* symbols (an ascending sequence): symbols with an operator word for its   *)
(* connected parts, other symbols were introduced by scalar extension as a  *)
(* product.  S.fac[x+1].bag is the bag of symbol x, S.idx[x+1] the symbol   *)
(* found for this bag.                                                      *)
(***************************************************************************)
EXTENDS RuleJudge

(* ---- connected parts of a word -------------------------------------------- *)
Linked(C, x, y) == x = y \/ Dependencies(C, x) \cap Dependencies(C, y) # {}
RECURSIVE Spread(_, _, _)
Spread(C, w, set) ==    \* all positions connected to a set of positions
    LET more == {j \in 1..Len(w) : \E k \in set : Linked(C, w[j], w[k])} IN IF more \subseteq set THEN set ELSE Spread(C, w, set \cup more)
Part(w, set) == FoldLeft(LAMBDA acc, j : IF j \in set THEN Append(acc, w[j]) ELSE acc, <<>>, [j \in 1..Len(w) |-> j])
RECURSIVE PartsFrom(_, _, _)
PartsFrom(C, w, left) == IF left = {} THEN <<>> ELSE LET p == Spread(C, w, {Min(left)}) IN <<Part(w, p)>> \o PartsFrom(C, w, left \ p)
Parts(C, w) == IF w = <<>> THEN <<<<>>>> ELSE PartsFrom(C, w, 1..Len(w))
Canon(C, w) == IF HasAliases(C) THEN GreedyWord(C, w) ELSE w

(* ---- bags ------------------------------------------------------------------ *)
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
Joint(a, b) == LET all == SelectSeq(a \o b, LAMBDA x : x # 1) IN
               IF \E k \in 1..Len(all) : all[k] = 0 THEN <<0>> ELSE IF all = <<>> THEN <<1>> ELSE Sorted(all)
Bag(S, x) == S.fac[x + 1].bag
WithBag(S, bag) == {k \in 1..Len(S.fac) : S.fac[k].bag = bag}
FindBag(S, bag) == LET f == WithBag(S, bag) IN IF f = {} THEN 0 - 1 ELSE S.idx[Min(f)]
OfWord(S, w) == {k - 1 : k \in {j \in 2..Len(S.tab) : S.tab[j].has /\ S.tab[j].q.w = w /\ ~IsZero(S.tab[j].q)}}
RowSymbol(S, q) == LET f == OfWord(S, Canon(S.c, q.w)) IN IF f = {} THEN 0 - 1 ELSE CHOOSE x \in f : TRUE
(* a product of symbols: 0 and 1 as usual, otherwise the symbol registered for the joint bag, or -1 *)
TimesIds(S, list) ==
    LET left == SelectSeq(list, LAMBDA x : x # 1) IN
    IF \E k \in 1..Len(list) : list[k] = 0 THEN 0
    ELSE IF left = <<>> THEN 1 ELSE IF Len(left) = 1 THEN left[1]
    ELSE FindBag(S, FoldLeft(LAMBDA acc, x : Joint(acc, Bag(S, x)), <<1>>, left))

(* ---- products of polynomials (of terms with real symbols) ------------------ *)
Tidy(p) == FoldLeft(LAMBDA acc, x : LET a == FoldLeft(LAMBDA z, t : IF t[1] = x THEN <<(z[1] + t[2]) % P, (z[2] + t[3]) % P>> ELSE z, <<0, 0>>, p)
                                    IN IF a = <<0, 0>> THEN acc ELSE Append(acc, <<x, a[1], a[2], 0>>),
                    <<>>, Sorted(SetToSeq({p[k][1] : k \in 1..Len(p)} \ {0})))
(* [ok, p]; not ok: some product is not a symbol *)
TimesPolys(S, a, b) ==
    IF b = <<>> THEN [ok |-> TRUE, p |-> <<>>]
    ELSE LET all == Force(FoldLeft(LAMBDA acc, t : acc \o Force([k \in 1..Len(b) |-> LET z == ModMul(<<t[2], t[3]>>, <<b[k][2], b[k][3]>>) IN <<TimesIds(S, <<t[1], b[k][1]>>), z[1], z[2], 0>>]), <<>>, a))
         IN IF \E k \in 1..Len(all) : all[k][1] < 0 THEN [ok |-> FALSE, p |-> <<>>] ELSE [ok |-> TRUE, p |-> Tidy(all)]

(* ---- rules for products: each product symbol with a factor that has a rule equals the product of what its factors are replaced by *)
ReducedFactor(rules, x) == LET f == RuleFor(rules, x) IN IF f = {} THEN <<<<x, 1, 0, 0>>>> ELSE rules[CHOOSE k \in f : TRUE].r
ProductOf(S, rules, bag) ==
    FoldLeft(LAMBDA acc, k : IF ~acc.ok \/ acc.p = <<>> THEN acc ELSE TimesPolys(S, acc.p, Tidy(ReducedFactor(rules, bag[k]))),
             [ok |-> TRUE, p |-> Tidy(ReducedFactor(rules, bag[1]))], [k \in 1..(Len(bag) - 1) |-> k + 1])
Affected(S, rules, from) == {x \in from..(Len(S.fac) - 1) : Len(Bag(S, x)) > 1 /\ \E k \in 1..Len(Bag(S, x)) : RuleFor(rules, Bag(S, x)[k]) # {}}
(* [res, E] *)
Expanded(S, b, from) ==
    LET eqs == Force([k \in 1..Cardinality(Affected(S, b.rules, from)) |->
                  LET x == Sorted(SetToSeq(Affected(S, b.rules, from)))[k] r == ProductOf(S, b.rules, Bag(S, x))
                  IN [ok |-> r.ok, p |-> Append(r.p, <<x, Minus(1), 0, 0>>)]])
    IN IF \E k \in 1..Len(eqs) : ~eqs[k].ok THEN [res |-> "unknown", E |-> b.E]
       ELSE LET E == Force(InsertAll(b.E, RowsOf(S, b.raw \o [k \in 1..Len(eqs) |-> eqs[k].p])))
            IN [res |-> IF Contradictory(S, E) THEN "contra" ELSE "ok", E |-> E]
Expands(b) == b.safe /\ b.rules # <<>>

(* the rules that solve a span of real equations: each row read as its latest symbol *)
SolvedForm(S, E) ==
    LET n == S.nre
        sym == Force([k \in 1..n |-> (CHOOSE j \in 2..Len(S.tab) : S.tab[j].re = k - 1) - 1])
        late == SortSeq([k \in 1..n |-> k], LAMBDA a, b : Before(S.tab, S.order, sym[b], sym[a]))
        F == Force(InsertAll(<<>>, [k \in 1..Len(E) |-> [j \in 1..n |-> E[k].r[late[j]]]]))
        full(k) == FoldLeft(LAMBDA row, j : Clear(row, F[k + j]), F[k].r, [j \in 1..(Len(F) - k) |-> j])
        done(k) == FoldLeft(LAMBDA row, j : IF j = k THEN row ELSE Clear(row, F[j]), full(k), [j \in 1..Len(F) |-> j])
    IN Force([k \in 1..Len(F) |-> [l |-> sym[late[F[k].p]], part |-> FALSE,
              r |-> LET row == Force(done(k)) IN
                    FoldLeft(LAMBDA acc, j : LET x == (n + 1) - j IN IF x = F[k].p \/ row[x] = 0 THEN acc ELSE Append(acc, <<sym[late[x]], Minus(row[x]), 0, 0>>), <<>>, [j \in 1..n |-> j])]])

(* ---- suggested extensions: try factors of needed products in order; keep those which some row turns into a needed product *)
MaxExtensions == 100
RECURSIVE SuggestFrom(_, _, _, _, _, _)
SuggestFrom(S, rows, need, tested, chosen, n) ==
    LET open == {x \in need : \E k \in 1..Len(Bag(S, x)) : Bag(S, x)[k] \notin tested} IN
    IF n = MaxExtensions \/ open = {} THEN chosen
    ELSE LET bag == Bag(S, Min(open))
             t == bag[Min({k \in 1..Len(bag) : bag[k] \notin tested})]
             hits == {FindBag(S, Joint(Bag(S, rows[k]), <<t>>)) : k \in 1..Len(rows)} \cap need
         IN SuggestFrom(S, rows, need \ hits, tested \cup {t}, IF hits = {} THEN chosen ELSE chosen \cup {t}, n + 1)
Suggested(S, rows, inc) == SuggestFrom(S, rows, {x \in inc : Len(Bag(S, x)) > 1}, {}, {}, 0)
=============================================================================
