------------------------------ MODULE Symbolic ------------------------------
(***************************************************************************)
(* Polynomials of symbols.  A TERM is <<id, re, im, conjugated>>; a symbol  *)
(* table entry says whether the symbol is Hermitian / anti-Hermitian, and   *)
(* its basis elements: a symbol X is  a[re] + i b[im].  Each polynomial has *)
(* one canonical form (for the order of its factory): terms strictly        *)
(* increasing, no zero, and X* never written for Hermitian or               *)
(* anti-Hermitian X.  Coefficients are Gaussian integers in a common unit.  *)
(***************************************************************************)
EXTENDS Moments

Zc == <<0, 0>>
CNeg(c) == <<0 - c[1], 0 - c[2]>>
CSub(a, b) == CAdd(a, CNeg(b))
TC(t) == <<t[2], t[3]>>
(* a term as it should be written *)
Fixed(tab, t) ==
    LET y == tab[t[1] + 1] IN
    IF t[4] = 0 THEN t
    ELSE IF y.h THEN <<t[1], t[2], t[3], 0>>
    ELSE IF y.ah THEN <<t[1], 0 - t[2], 0 - t[3], 0>>
    ELSE t
FixedTerms(tab, p) == Force([k \in 1..Len(p) |-> Fixed(tab, p[k])])
Co(p, x, cc) == FoldLeft(LAMBDA acc, t : IF t[1] = x /\ t[4] = cc THEN CAdd(acc, TC(t)) ELSE acc, Zc, p)
Keys(p) == {<<p[k][1], p[k][4]>> : k \in {j \in 1..Len(p) : p[j][1] # 0}}
Live(p) == {x \in Keys(p) : Co(p, x[1], x[2]) # Zc}
(* equal as formal sums of X and X* (p, q fixed) *)
SameSum(p, q) == /\ Live(p) = Live(q)
                 /\ \A x \in Live(p) : Co(p, x[1], x[2]) = Co(q, x[1], x[2])
Equal(tab, p, q) == SameSum(FixedTerms(tab, p), FixedTerms(tab, q))

(* order of terms: by symbol number, or by word (symbols without one last, by number) *)
WordBefore(tab, x, y) ==
    IF x = y THEN FALSE
    ELSE IF tab[x + 1].has /\ tab[y + 1].has THEN x = 0 \/ (y # 0 /\ ShortlexLess(tab[x + 1].q.w, tab[y + 1].q.w))
    ELSE IF tab[x + 1].has THEN TRUE ELSE IF tab[y + 1].has THEN FALSE ELSE x < y
Before(tab, order, x, y) == IF order = "id" THEN x < y ELSE WordBefore(tab, x, y)
TermLess(tab, order, s, t) == IF s[1] = t[1] THEN s[4] < t[4] ELSE Before(tab, order, s[1], t[1])

WellFormed(tab, order, p) ==
    /\ \A k \in 1..Len(p) : p[k][1] # 0 /\ TC(p[k]) # Zc /\ Fixed(tab, p[k]) = p[k]
    /\ \A k \in 1..(Len(p) - 1) : TermLess(tab, order, p[k], p[k + 1])
CanonicalOf(tab, order, out, p) == WellFormed(tab, order, out) /\ Equal(tab, out, p)

Dagger(tab, p) == FixedTerms(tab, [k \in 1..Len(p) |-> <<p[k][1], p[k][2], 0 - p[k][3], 1 - p[k][4]>>])
ScaleBy(c, p) == [k \in 1..Len(p) |-> LET z == CMul(c, TC(p[k])) IN <<p[k][1], z[1], z[2], p[k][4]>>]

(* ---- basis vectors -------------------------------------------------------- *)
(* the value of p is  sum a[j] A(j) + sum b[j] B(j), A and B complex            *)
CoefA(p, x) == CAdd(Co(p, x, 0), Co(p, x, 1))
CoefB(p, x) == ITimes(1, CSub(Co(p, x, 0), Co(p, x, 1)))
Ids(p) == {p[k][1] : k \in 1..Len(p)} \ {0}
VecA(tab, p) == {<<tab[x + 1].re, CoefA(p, x)>> : x \in {y \in Ids(p) : tab[y + 1].re >= 0 /\ CoefA(p, y) # Zc}}
VecB(tab, p) == {<<tab[x + 1].im, CoefB(p, x)>> : x \in {y \in Ids(p) : tab[y + 1].im >= 0 /\ CoefB(p, y) # Zc}}
(* a recorded sparse vector: [index, re, im] ... with every nonzero entry once *)
Entry(v) == {<<v[k][1], <<v[k][2], v[k][3]>>>> : k \in {j \in 1..Len(v) : <<v[j][2], v[j][3]>> # Zc}}
OnceEach(v) == \A j, k \in 1..Len(v) : j # k => v[j][1] # v[k][1]
IsVec(v, S) == OnceEach(v) /\ Entry(v) = S
ReOf(S) == {<<x[1], <<x[2][1], 0>>>> : x \in {y \in S : y[2][1] # 0}}
ImOf(S) == {<<x[1], <<x[2][2], 0>>>> : x \in {y \in S : y[2][2] # 0}}
Symbols(tab, key) == {k \in 1..Len(tab) : IF key = "re" THEN tab[k].re >= 0 ELSE tab[k].im >= 0}
=============================================================================
