------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* Symmetry groups and the systems of moments that are left after          *)
(* averaging over them.                                                     *)
(*                                                                          *)
(* A group acts on the letters (basic operators): the image of a letter is  *)
(* a combination of words of length at most one.  It acts on a word by      *)
(* multiplying the images of its letters in the operator algebra.  The      *)
(* AVERAGE of a word over the group is the invariant moment it stands for.  *)
(*                                                                          *)
(* A derived system has its own symbols; each (inverse map) is a            *)
(* combination of symbols of the original system, and each symbol of the    *)
(* original system is sent (forward map) to a combination of the new ones.  *)
(* Substituting the inverse map into the forward map must give the average: *)
(* nothing else relates the two systems.                                    *)
(*                                                                          *)
(* Numbers are fractions modulo the prime P (see Rules).  A combination of  *)
(* words is a sequence of <<number of the word, re, im>>.                   *)
(***************************************************************************)
EXTENDS Rules

(* ---- matrices: sequences of columns ------------------------------------- *)
DenseCol(n, col) == FoldLeft(LAMBDA v, x : [v EXCEPT ![x[1] + 1] = Frac(x[2], x[3])], Nil(n), col)
Dense(n, m) == Force([c \in 1..Len(m) |-> DenseCol(n, m[c])])
AddTimes(v, f, u) == Force([k \in 1..Len(v) |-> ((f * u[k]) + v[k]) % P])
OnColumn(a, v) == FoldLeft(LAMBDA acc, k : IF v[k] = 0 THEN acc ELSE AddTimes(acc, v[k], a[k]), Nil(Len(a[1])), [k \in 1..Len(v) |-> k])
MatMul(a, b) == Force([c \in 1..Len(b) |-> OnColumn(a, b[c])])
UnitMatrix(n) == Force([c \in 1..n |-> [Nil(n) EXCEPT ![c] = 1]])
RECURSIVE Closure(_, _, _)
Closure(gens, known, fresh) == IF fresh = {} THEN known
                               ELSE LET new == {MatMul(x, g) : x \in fresh, g \in gens} \ known IN Closure(gens, known \cup new, new)
GroupOf(n, gens) == Closure(gens, {UnitMatrix(n)}, {UnitMatrix(n)})
RECURSIVE ReturnsWithin(_, _, _)
ReturnsWithin(g, x, k) == x = UnitMatrix(Len(g)) \/ (k > 0 /\ ReturnsWithin(g, MatMul(x, g), k - 1))

(* ---- words and their products ------------------------------------------- *)
Plain(w) == [s |-> 0, w |-> w]
Numbering(ws) == FoldLeft(LAMBDA f, k : f @@ (ws[k] :> k), <<>> :> 1, [k \in 1..Len(ws) |-> k])
(* right multiplication by a letter: <<phase, number>>, number 0 for zero; only for words that leave room *)
RightTable(C, ws, num, d1, L) ==
    Force([k \in 1..Len(ws) |-> IF Len(ws[k]) >= L THEN <<>> ELSE
        Force([l \in 1..d1 |-> LET q == Mul(C, Plain(ws[k]), Plain(ws[l])) IN IF IsZero(q) THEN <<0, 0>> ELSE <<q.s, num[q.w]>>])])
PhaseOn(k, c) == CASE k = 0 -> c [] k = 1 -> <<Minus(c[2]), c[1]>> [] k = 2 -> <<Minus(c[1]), Minus(c[2])>> [] OTHER -> <<c[2], Minus(c[1])>>
RowOfTerms(n, p, part) == FoldLeft(LAMBDA v, t : [v EXCEPT ![t[1]] = (@ + t[part]) % P], Nil(n), p)
Squeeze(n, p) == LET re == RowOfTerms(n, p, 2) im == RowOfTerms(n, p, 3) IN
                 Force([k \in 1..Len(SelectSeq([j \in 1..n |-> j], LAMBDA j : re[j] # 0 \/ im[j] # 0)) |->
                            LET j == SelectSeq([x \in 1..n |-> x], LAMBDA x : re[x] # 0 \/ im[x] # 0)[k] IN <<j, re[j], im[j]>>])
TimesLetter(A, p, im) ==
    FoldLeft(LAMBDA acc, t : FoldLeft(LAMBDA acc2, u :
        LET r == A.right[t[1]][u[1]] IN
        IF r[2] = 0 THEN acc2
        ELSE LET c == PhaseOn(r[1], <<(t[2] * u[2]) % P, (t[3] * u[2]) % P>>) IN Append(acc2, <<r[2], c[1], c[2]>>), acc, im), <<>>, p)
Images(A, g) == FoldLeft(LAMBDA acc, k :
    Append(acc, IF k = 1 THEN <<<<1, 1, 0>>>>
                ELSE LET w == A.words[k]
                         p == TimesLetter(A, acc[A.num[SubSeq(w, 1, Len(w) - 1)]], g[A.num[<<w[Len(w)]>>]])
                     IN IF Len(p) > 6 THEN Squeeze(Len(A.words), p) ELSE Force(p)), <<>>, [k \in 1..Len(A.words) |-> k])
(* a recorded matrix on words of length at most one, as images of those words *)
LetterImages(m) == Force([c \in 1..Len(m) |-> Force([k \in 1..Len(m[c]) |-> <<m[c][k][1] + 1, Frac(m[c][k][2], m[c][k][3])>>])])
Averages(A, imgs) ==
    LET f == ModInv(Len(imgs)) n == Len(A.words) IN
    Force([k \in 1..n |-> LET p == Squeeze(n, FoldLeft(LAMBDA acc, x : acc \o x[k], <<>>, imgs)) IN
                          Force([j \in 1..Len(p) |-> <<p[j][1], (p[j][2] * f) % P, (p[j][3] * f) % P>>])])

(* ---- words as symbols ----------------------------------------------------- *)
(* keys of the symbols and of their conjugates *)
TableKeys(C, tab) == Force([x \in 1..Len(tab) |->
    IF ~tab[x].has \/ tab[x].q.s = 4 THEN <<>>
    ELSE IF HasAliases(C) THEN <<SymbolKey(C, tab[x].q.w), SymbolKey(C, tab[x].cq.w)>> ELSE <<tab[x].q.w, tab[x].cq.w>>])
(* <<symbol, phase, conjugated>> with word = phase * symbol; symbol -1 if there is none *)
WordSymbol(C, tab, keys, w) ==
    LET key == IF HasAliases(C) THEN SymbolKey(C, w) ELSE w
        f == {x \in 2..Len(tab) : keys[x] # <<>> /\ keys[x][1] = key}
        g == {x \in 2..Len(tab) : keys[x] # <<>> /\ keys[x][2] = key}
    IN IF f # {} THEN LET x == Min(f) IN <<x - 1, (4 - tab[x].q.s) % 4, 0>>
       ELSE IF g # {} THEN LET x == Min(g) IN <<x - 1, (4 - tab[x].cq.s) % 4, 1>> ELSE <<0 - 1, 0, 0>>
AsSymbols(A, p) == Force([k \in 1..Len(p) |-> LET a == A.ws[p[k][1]] c == PhaseOn(a[2], <<p[k][2], p[k][3]>>) IN <<a[1], c[1], c[2], a[3]>>])
OwnNumber(A, y) == IF y.has /\ y.q.s # 4 /\ Len(y.q.w) <= A.len THEN A.num[y.q.w] ELSE 0
(* what each symbol of the original system has to become, in terms of the original symbols *)
Expected(A) ==
    Force([x \in 1..Len(A.tab) |->
        IF x = 1 THEN [ok |-> TRUE, p |-> <<>>] ELSE IF x = 2 THEN [ok |-> TRUE, p |-> <<<<1, 1, 0, 0>>>>]
        ELSE LET k == OwnNumber(A, A.tab[x]) IN
             IF k = 0 THEN [ok |-> FALSE, p |-> <<>>]
             ELSE [ok |-> TRUE, p |-> AsSymbols(A, Force([j \in 1..Len(A.avg[k]) |-> LET c == PhaseOn(A.tab[x].q.s, <<A.avg[k][j][2], A.avg[k][j][3]>>) IN <<A.avg[k][j][1], c[1], c[2]>>]))]])
(* how many new symbols are needed *)
RankOf(A) == LET n == Len(A.words)
                 rows == FoldLeft(LAMBDA acc, x : LET k == OwnNumber(A, A.tab[x]) IN
                                     IF x < 3 \/ k = 0 THEN acc ELSE Append(acc, Force(SubSeq(RowOfTerms(n, A.avg[k], 2), 2, n))), <<>>, [x \in 1..Len(A.tab) |-> x])
             IN Len(InsertAll(<<>>, rows))
RealAverages(A) == \A k \in 1..Len(A.avg) : \A j \in 1..Len(A.avg[k]) : A.avg[k][j][3] = 0

(* substitution of polys (one per symbol) into p *)
Through(polys, p) == FoldLeft(LAMBDA acc, t : acc \o Force([j \in 1..Len(polys[t[1] + 1]) |-> Times(t, polys[t[1] + 1][j])]), <<>>, p)
Mapped(A, p) == \A k \in 1..Len(p) : p[k][1] >= 0 /\ A.exp[p[k][1] + 1].ok
Expect(A, p) == FoldLeft(LAMBDA acc, t : LET q == A.exp[t[1] + 1].p IN acc \o Force([j \in 1..Len(q) |-> Times(t, q[j])]), <<>>, p)
=============================================================================
