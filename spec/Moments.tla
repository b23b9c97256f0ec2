------------------------------ MODULE Moments ------------------------------
(***************************************************************************)
(* Moments, symbols and symbolic matrices.                                 *)
(*                                                                         *)
(* A matrix is a square array (row by row) whose cells are sequences of    *)
(* TERMS [q |-> element, c |-> coefficient]: the operators whose moments   *)
(* the cell adds up.  Two cells agree as moments when they have the same   *)
(* coefficient for every moment (MomentKey).                               *)
(*                                                                         *)
(* A symbol table is a sequence; entry k+1 is symbol k: q (an operator),   *)
(* cq (its conjugate), flags and its real / imaginary basis index.         *)
(***************************************************************************)
EXTENDS Polys

Force(q) == q \o <<>>

(* ---- operator sequence generators ---------------------------------------*)
RECURSIVE CanonicalOfLength(_, _)
CanonicalOfLength(C, k) ==
    IF k = 0 THEN {<<>>}
    ELSE {w \in {Append(v, x) : v \in CanonicalOfLength(C, k - 1), x \in 0..(C.n - 1)} :
             NF(C, w) = [s |-> 0, w |-> w]}
CanonicalUpTo(C, L) == UNION {CanonicalOfLength(C, k) : k \in 0..L}

(* ---- moments ------------------------------------------------------------ *)
KeyEl(C, a) == IF IsZero(a) THEN Zero ELSE [s |-> a.s, w |-> MomentKey(C, a.w)]
Keyed(C, ts) == IF HasAliases(C) THEN [k \in 1..Len(ts) |-> [q |-> KeyEl(C, ts[k].q), c |-> ts[k].c]] ELSE ts
SameMoments(C, p, q) == \/ p = q
                        \/ SamePoly(Keyed(C, p), Keyed(C, q))
CConj(c) == <<c[1], 0 - c[2]>>
ConjTerms(C, ts) == [k \in 1..Len(ts) |-> [q |-> Conj(C, ts[k].q), c |-> CConj(ts[k].c)]]
One1 == <<1, 0>>
Scaled(ts, c) == [k \in 1..Len(ts) |-> [q |-> ts[k].q, c |-> CMul(c, ts[k].c)]]

(* ---- cells --------------------------------------------------------------- *)
RowOf(k, d) == (k - 1) \div d + 1
ColOf(k, d) == ((k - 1) % d) + 1
Cell(r, c, d) == (r - 1) * d + c

MomentCells(C, fwd, conj) ==
    LET d == Len(fwd) IN
    [k \in 1..(d * d) |-> <<[q |-> Mul(C, conj[RowOf(k, d)], fwd[ColOf(k, d)]), c |-> One1]>>]
LocalizingCells(C, fwd, conj, terms) ==
    LET d == Len(fwd) IN
    [k \in 1..(d * d) |->
        [t \in 1..Len(terms) |->
            [q |-> Mul(C, Mul(C, conj[RowOf(k, d)], terms[t].q), fwd[ColOf(k, d)]), c |-> terms[t].c]]]
(* [M, W] and {M, W} for the moment matrix M                                  *)
CommutatorCells(C, fwd, conj, terms, minus) ==
    LET d == Len(fwd) IN
    [k \in 1..(d * d) |->
        LET m == Mul(C, conj[RowOf(k, d)], fwd[ColOf(k, d)]) IN
        [t \in 1..Len(terms) |-> [q |-> Mul(C, m, terms[t].q), c |-> terms[t].c]]
        \o [t \in 1..Len(terms) |-> [q |-> Mul(C, terms[t].q, m),
                                     c |-> IF minus THEN <<0 - terms[t].c[1], 0 - terms[t].c[2]>> ELSE terms[t].c]]]
ProductCells(C, terms, x, pre) ==
    [k \in 1..Len(x) |-> IF pre THEN Product(C, terms, x[k]) ELSE Product(C, x[k], terms)]
SumCells(x, y) == [k \in 1..Len(x) |-> x[k] \o y[k]]

MomentHermitian(C, x, d) ==
    \A r \in 1..d : \A c \in r..d :
        SameMoments(C, x[Cell(r, c, d)], ConjTerms(C, x[Cell(c, r, d)]))
(* ... on the level of operators, before any aliasing *)
OperatorHermitian(C, x, d) ==
    \A r \in 1..d : \A c \in r..d : SamePoly(x[Cell(r, c, d)], ConjTerms(C, x[Cell(c, r, d)]))

(* ---- symbols ------------------------------------------------------------- *)
(* what a monomial <<id, re, im, conjugated>> stands for *)
Meaning(tab, m) == [q |-> IF m[4] = 1 THEN tab[m[1] + 1].cq ELSE tab[m[1] + 1].q, c |-> <<m[2], m[3]>>]
Meanings(tab, ms) == [k \in 1..Len(ms) |-> Meaning(tab, ms[k])]

(* A word and its conjugate denote one symbol; the key of a word is shared by *)
(* every word with the same moment.                                           *)
KeysOf(C, y) == IF ~y.has \/ IsZero(y.q) THEN {} ELSE {SymbolKey(C, y.q.w), SymbolKey(C, y.cq.w)}
KeyMap(C, tab, from) ==   \* keys of the symbols with number >= from
    LET prs == UNION {{<<w, k - 1>> : w \in KeysOf(C, tab[k])} : k \in (from + 1)..Len(tab)}
    IN [w \in {p[1] : p \in prs} |-> (CHOOSE p \in prs : p[1] = w)[2]]
NoDoubleKeys(C, tab, from, old) ==
    \A k \in (from + 1)..Len(tab) :
        /\ KeysOf(C, tab[k]) \cap old = {}
        /\ \A j \in (from + 1)..(k - 1) : KeysOf(C, tab[k]) \cap KeysOf(C, tab[j]) = {}

SymbolOK(C, k, y) ==
    /\ y.id = k
    /\ IF k = 0 THEN y.q = Zero /\ y.cq = Zero
       ELSE IF k = 1 THEN y.q = One /\ y.cq = One
       ELSE /\ y.has /\ ~IsZero(y.q) /\ y.q.s = 0
            /\ Norm(C, y.q) = y.q
            /\ y.cq = Conj(C, y.q)
SymbolFlagsOK(C, k, y) ==
    LET same == KeyEl(C, y.cq) = KeyEl(C, y.q)
        opp == ~IsZero(y.q) /\ KeyEl(C, y.cq) = KeyEl(C, Neg(y.q))
    IN IF k = 0 THEN y.re = -1 /\ y.im = -1
       ELSE /\ y.h = same
            /\ y.ah = opp
            /\ (y.re >= 0) = ~y.ah
            /\ (y.im >= 0) = ~y.h

(* the table's own lists of basis elements agree with the symbols *)
BasisListsOK(tab, e) ==
    LET R == {k \in 1..Len(tab) : tab[k].re >= 0}
        I == {k \in 1..Len(tab) : tab[k].im >= 0}
    IN /\ Len(e.re) = Cardinality(R) /\ Len(e.im) = Cardinality(I)
       /\ \A k \in R : tab[k].re < Len(e.re) /\ e.re[tab[k].re + 1] = k - 1
       /\ \A k \in I : tab[k].im < Len(e.im) /\ e.im[tab[k].im + 1] = k - 1
       /\ Len(e.ir) = Len(e.re) /\ Len(e.ri) = Len(e.im)
       /\ \A j \in 1..Len(e.re) : e.ir[j] = tab[e.re[j] + 1].im
       /\ \A j \in 1..Len(e.im) : e.ri[j] = tab[e.im[j] + 1].re

(* ---- what a matrix says about its own cells -------------------------------*)
AllIds(m) == UNION {{m[k][t][1] : t \in 1..Len(m[k])} : k \in 1..Len(m)}
SelfDescriptionOK(tab, e) ==
    LET ids == AllIds(e.m)
        cplx == \E k \in 1..Len(e.m) : \E t \in 1..Len(e.m[k]) : e.m[k][t][3] # 0
        inc == Range1(e.inc)
    IN /\ \A x \in ids : x \in 0..(Len(tab) - 1)
       /\ inc \ {0} = ids \ {0}
       /\ e.cc = cplx
       /\ e.cb = (e.imb # <<>>)
       /\ \A k \in 1..Len(e.key) : e.key[k][1] \in inc
             /\ e.key[k][2] = tab[e.key[k][1] + 1].re
             /\ e.key[k][3] = tab[e.key[k][1] + 1].im
       /\ \A x \in inc : \E k \in 1..Len(e.key) : e.key[k][1] = x
(* coefficient (re, im) with which a cell uses symbol x directly / conjugated *)
CellCoef(cell, x, conj) ==
    FoldLeft(LAMBDA acc, m : IF m[1] = x /\ m[4] = conj THEN CAdd(acc, <<m[2], m[3]>>) ELSE acc, <<0, 0>>, cell)
UsesReal(m, x) == \E k \in 1..Len(m) : CAdd(CellCoef(m[k], x, 0), CellCoef(m[k], x, 1)) # <<0, 0>>
UsesImag(m, x) == \E k \in 1..Len(m) : CellCoef(m[k], x, 0) # CellCoef(m[k], x, 1)
(* every basis element a cell depends upon is listed, and nothing that no symbol of the matrix has *)
BasisCoverOK(tab, e) ==
    LET ids == AllIds(e.m) \ {0}
        reb == Range1(e.reb)
        imb == Range1(e.imb)
        canR == {tab[x + 1].re : x \in ids} \ {-1}
        canI == {tab[x + 1].im : x \in ids} \ {-1}
    IN /\ reb \subseteq canR /\ imb \subseteq canI
       /\ \A x \in ids : tab[x + 1].re >= 0 /\ tab[x + 1].re \notin reb => ~UsesReal(e.m, x)
       /\ \A x \in ids : tab[x + 1].im >= 0 /\ tab[x + 1].im \notin imb => ~UsesImag(e.m, x)

(* ---- numeric bases: the matrix is  sum_k re_k R_k + sum_k im_k I_k -------- *)
(* basis elements are numbered for the whole symbol table, not per matrix     *)
CellBasis(tab, e, cell, imag) ==   \* set of <<basis element, coefficient>> with nonzero coefficient
    LET ids == {cell[t][1] : t \in 1..Len(cell)} \ {0}
        idx(x) == IF imag THEN tab[x + 1].im ELSE tab[x + 1].re
        co(x) == IF imag THEN LET a == CellCoef(cell, x, 0) b == CellCoef(cell, x, 1)
                              IN ITimes(1, <<a[1] - b[1], a[2] - b[2]>>)
                 ELSE CAdd(CellCoef(cell, x, 0), CellCoef(cell, x, 1))
    IN {<<idx(x), co(x)>> : x \in {y \in ids : idx(y) >= 0 /\ co(y) # <<0, 0>>}}
ExpectedBasis(tab, e, imag) ==
    UNION {{<<p[1], RowOf(k, e.dim) - 1, ColOf(k, e.dim) - 1, p[2][1], p[2][2]>> :
                p \in CellBasis(tab, e, e.m[k], imag)} : k \in 1..Len(e.m)}
AsTuples(q) == {<<q[k][1], q[k][2], q[k][3], q[k][4], q[k][5]>> : k \in 1..Len(q)}
(* a recorded basis e of a matrix last described by r *)
BasisVerdict(tab, r, e) ==
    IF e.rc /\ r.cc THEN IF e.ok THEN "complex coefficients in a real basis" ELSE ""
    ELSE IF ~e.ok THEN "no basis"
    ELSE IF ~e.shape \/ (\E x \in Range1(r.reb) : x >= e.nre) \/ (\E x \in Range1(r.imb) : x >= e.nim)
            \/ e.nre > Len(tab) \/ e.nim > Len(tab) THEN "shape of the basis"
    ELSE IF AsTuples(e.re) # ExpectedBasis(tab, r, FALSE) \/ Len(e.re) # Cardinality(AsTuples(e.re)) THEN "real basis"
    ELSE IF AsTuples(e.im) # ExpectedBasis(tab, r, TRUE) \/ Len(e.im) # Cardinality(AsTuples(e.im)) THEN "imaginary basis"
    ELSE ""
=============================================================================
