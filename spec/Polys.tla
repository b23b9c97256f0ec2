------------------------------- MODULE Polys -------------------------------
(* Polynomials: finite sums of elements with Gaussian-integer coefficients,  *)
(* <<re, im>>; a TERM is [q |-> element, c |-> coefficient].                 *)
EXTENDS Scenario

(* ---- raw polynomials: bag of elements with Gaussian-integer weights ------ *)
ITimes(k, c) == CASE k = 0 -> c [] k = 1 -> <<0 - c[2], c[1]>>
                  [] k = 2 -> <<0 - c[1], 0 - c[2]>> [] k = 3 -> <<c[2], 0 - c[1]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
TermsOf(p) == [k \in 1..Len(p) |-> [q |-> p[k].q, c |-> <<p[k].re, p[k].im>>]]
(* coefficient function of a sequence of terms: word -> Gaussian integer *)
WordsIn(ts) == {ts[k].q.w : k \in {x \in 1..Len(ts) : ~IsZero(ts[x].q)}}
Coef(ts, w) == FoldLeft(LAMBDA acc, t : IF IsZero(t.q) \/ t.q.w # w THEN acc
                                        ELSE CAdd(acc, ITimes(t.q.s, t.c)), <<0, 0>>, ts)
Support(ts) == {w \in WordsIn(ts) : Coef(ts, w) # <<0, 0>>}
SamePoly(p, q) == /\ Support(p) = Support(q)
                  /\ \A w \in Support(p) : Coef(p, w) = Coef(q, w)
Product(C, a, b) == FoldLeft(LAMBDA acc, x : acc \o
                        [k \in 1..Len(b) |-> [q |-> Mul(C, x.q, b[k].q), c |-> CMul(x.c, b[k].c)]], <<>>, a)
(* a condensed polynomial has no zero terms and no word twice *)
Condensed(ts) == /\ \A k \in 1..Len(ts) : ~IsZero(ts[k].q) /\ ts[k].c # <<0, 0>>
                 /\ \A j, k \in 1..Len(ts) : j # k => ts[j].q.w # ts[k].q.w

HermType(C, a) ==   \* 0 generic, 1 hermitian, 2 antihermitian
    LET c == Conj(C, a) IN IF c = a THEN 1 ELSE IF ~IsZero(a) /\ c = Neg(a) THEN 2 ELSE 0

=============================================================================
