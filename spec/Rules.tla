-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Linear constraints between moments and rulebooks that apply them.        *)
(*                                                                          *)
(* A polynomial that must vanish constrains the real numbers a (real parts) *)
(* and b (imaginary parts) of the symbols, X = a + ib, by two linear        *)
(* equations: its real and its imaginary part.  All consequences of a set   *)
(* of such polynomials form the linear SPAN of these rows.  A rulebook      *)
(* X -> P is a solved form of a span.                                       *)
(*                                                                          *)
(* Coefficients are fractions; arithmetic is done modulo the prime P (a     *)
(* recorded fraction n/d becomes n times the inverse of d).                 *)
(***************************************************************************)
EXTENDS Symbolic

P == 46337
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE LET h == Pow((a * a) % P, n \div 2) IN IF n % 2 = 1 THEN ((h * a) % P) ELSE h
ModInv(a) == Pow(a % P, P - 2)
Frac(n, d) == IF d = 1 THEN (n % P) ELSE (((n % P) * ModInv(d)) % P)
(* a recorded term [id, re num, re den, im num, im den, conjugated] *)
Sound(p) == \A k \in 1..Len(p) : p[k][3] > 0 /\ p[k][5] > 0
Term(t) == <<t[1], Frac(t[2], t[3]), Frac(t[4], t[5]), t[6]>>
Terms(p) == Force([k \in 1..Len(p) |-> Term(p[k])])
Minus(x) == (P - x) % P
ModMul(c, z) == <<((((c[1] * z[1]) % P) + Minus((c[2] * z[2]) % P)) % P), ((((c[1] * z[2]) % P) + ((c[2] * z[1]) % P)) % P)>>

(* ---- the rows of a polynomial (coordinates: all a, then all b) ------------ *)
Nil(n) == Force([k \in 1..n |-> 0])
Put(row, x, v) == IF x < 0 THEN row ELSE [row EXCEPT ![x + 1] = (@ + v) % P]
Width(S) == S.nre + S.nim
At(S, x) == IF x < 0 THEN x ELSE S.nre + x
ReRow(S, p) == FoldLeft(LAMBDA row, t : IF t[1] = 0 THEN row ELSE
                          LET y == S.tab[t[1] + 1] IN Put(Put(row, y.re, t[2]), At(S, y.im), IF t[4] = 0 THEN Minus(t[3]) ELSE t[3]), Nil(Width(S)), p)
ImRow(S, p) == FoldLeft(LAMBDA row, t : IF t[1] = 0 THEN row ELSE
                          LET y == S.tab[t[1] + 1] IN Put(Put(row, y.re, t[3]), At(S, y.im), IF t[4] = 0 THEN t[2] ELSE Minus(t[2])), Nil(Width(S)), p)
Same(S, p, q) == ReRow(S, p) = ReRow(S, q) /\ ImRow(S, p) = ImRow(S, q)
IsReal(S, p) == ImRow(S, p) = Nil(Width(S))
IsImag(S, p) == ReRow(S, p) = Nil(Width(S))

(* ---- spans: a sequence of [p |-> pivot, r |-> row], each row zero at the pivots before it, one at its own *)
NonZero(row) == {k \in 1..Len(row) : row[k] # 0}
Clear(row, e) == IF row[e.p] = 0 THEN row ELSE LET f == Minus(row[e.p]) IN Force([k \in 1..Len(row) |-> ((f * e.r[k]) + row[k]) % P])
Reduced(E, row) == FoldLeft(LAMBDA r, e : Clear(r, e), row, E)
In(E, row) == NonZero(Reduced(E, row)) = {}
Insert(E, row) == LET r == Force(Reduced(E, row)) nz == NonZero(r) IN
                  IF nz = {} THEN E
                  ELSE LET k == Min(nz) f == ModInv(r[k]) IN Append(E, [p |-> k, r |-> Force([j \in 1..Len(r) |-> (f * r[j]) % P])])
InsertAll(E, rows) == FoldLeft(LAMBDA acc, row : Insert(acc, row), E, rows)
Within(E, F) == \A k \in 1..Len(E) : In(F, E[k].r)
RowsOf(S, polys) == FoldLeft(LAMBDA acc, p : acc \o <<ReRow(S, p), ImRow(S, p)>>, <<>>, polys)
(* a span that makes one vanish is contradictory (symbol 1 is the identity) *)
Contradictory(S, E) == In(E, Put(Nil(Width(S)), S.tab[2].re, 1))
(* rows recorded before the basis grew *)
Wider(row, nre, nim, nre2, nim2) == SubSeq(row, 1, nre) \o Nil(nre2 - nre) \o SubSeq(row, nre + 1, nre + nim) \o Nil(nim2 - nim)

(* ---- rules [l, part, r]: symbol l is to be replaced by r -------------------- *)
Equation(x) == Append(x.r, <<x.l, Minus(1), 0, 0>>)
LHS(rules) == {rules[k].l : k \in 1..Len(rules)}
Own(x, t) == x.part /\ t[1] = x.l
Oriented(S, x) == \A k \in 1..Len(x.r) : Own(x, x.r[k]) \/ Before(S.tab, S.order, x.r[k][1], x.l)
Monomials(rules) == \A k \in 1..Len(rules) : Len(rules[k].r) <= 1
KeepsHermitian(S, x) == (S.tab[x.l + 1].h => IsReal(S, x.r)) /\ (S.tab[x.l + 1].ah => IsImag(S, x.r))
AllKeepHermitian(S, rules) == \A k \in 1..Len(rules) : KeepsHermitian(S, rules[k])
(* substitution, term by term *)
Times(t, u) == LET z == ModMul(<<t[2], t[3]>>, IF t[4] = 0 THEN <<u[2], u[3]>> ELSE <<u[2], Minus(u[3])>>) IN <<u[1], z[1], z[2], IF t[4] = 0 THEN u[4] ELSE 1 - u[4]>>
RuleFor(rules, x) == {k \in 1..Len(rules) : rules[k].l = x}
Subst(rules, p) == FoldLeft(LAMBDA acc, t : LET f == RuleFor(rules, t[1]) IN
                              IF f = {} THEN Append(acc, t)
                              ELSE LET x == rules[CHOOSE k \in f : TRUE] IN acc \o Force([j \in 1..Len(x.r) |-> Times(t, x.r[j])]), <<>>, p)
(* the rules do nothing more to what they produce *)
Interreduced(S, rules) == \A k \in 1..Len(rules) : Same(S, Subst(rules, rules[k].r), rules[k].r)
(* a recorded result is the one way to write the substituted polynomial *)
IsForm(S, out, p) == Sound(out) /\ LET q == Terms(out) IN WellFormed(S.tab, S.order, q) /\ Same(S, q, p)
=============================================================================
