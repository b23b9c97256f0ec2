----------------------------- MODULE Scenario -----------------------------
(***************************************************************************)
(* Turns the description of a scenario (as a user states it) into the      *)
(* context record used by Words: operator tables for inflation, completed  *)
(* rules for algebraic scenarios.                                          *)
(***************************************************************************)
EXTENDS Completion

RECURSIVE PowN(_, _)
PowN(b, e) == IF e = 0 THEN 1 ELSE b * PowN(b, e - 1)

(* ---- inflation ---------------------------------------------------------- *)
(* raw: outcomes[o], src[o] (ascending explicit sources), sources, level.    *)
OpsOf(raw, o) == IF raw.outcomes[o] = 0 THEN 1 ELSE raw.outcomes[o] - 1
CopiesOf(raw, o) == IF raw.src[o] = <<>> THEN 1 ELSE PowN(raw.level, Len(raw.src[o]))
(* one record per operator, observable-major, then copy (first source index *)
(* varying fastest), then outcome                                            *)
OpTable(raw) ==
    FoldLeft(LAMBDA acc, o :
        acc \o [j \in 1..(CopiesOf(raw, o) * OpsOf(raw, o)) |->
            LET v == (j - 1) \div OpsOf(raw, o) IN
            [o |-> o, v |-> v, k |-> (j - 1) % OpsOf(raw, o),
             idx |-> [q \in 1..Len(raw.src[o]) |-> (v \div PowN(raw.level, q - 1)) % raw.level]]],
        <<>>, [o \in 1..Len(raw.outcomes) |-> o])
ObsStart(raw, o) == FoldLeft(LAMBDA acc, q : acc + CopiesOf(raw, q) * OpsOf(raw, q), 0, [q \in 1..(o - 1) |-> q])
VarStart(raw, o) == FoldLeft(LAMBDA acc, q : acc + CopiesOf(raw, q), 0, [q \in 1..(o - 1) |-> q])

InflationContext(raw) ==
    LET tab == OpTable(raw)
        vs == [o \in 1..Len(raw.outcomes) |-> VarStart(raw, o)]
    IN [kind |-> "inflation", n |-> raw.n, raw |-> raw, tab |-> tab,
        start |-> [o \in 1..Len(raw.outcomes) |-> ObsStart(raw, o)],
        var |-> [x \in 1..Len(tab) |-> vs[tab[x].o] + tab[x].v],
        proj |-> [x \in 1..Len(tab) |-> IF raw.outcomes[tab[x].o] = 0 THEN 0 ELSE 1]]

(* relabel the copies of every source: pi[s][c+1] is the new number of copy c of source s *)
RelabelOp(C, pi, x) ==
    LET t == C.tab[x + 1]
        src == C.raw.src[t.o]
        v == FoldLeft(LAMBDA acc, q : acc + PowN(C.raw.level, q - 1) * pi[src[q] + 1][t.idx[q] + 1],
                      0, [q \in 1..Len(src) |-> q])
    IN C.start[t.o] + v * OpsOf(C.raw, t.o) + t.k
RelabelWord(C, pi, w) == SortWord([i \in 1..Len(w) |-> RelabelOp(C, pi, w[i])])

PermSeqs(m) == {f \in [1..m -> 0..(m - 1)] : \A i, j \in 1..m : i # j => f[i] # f[j]}
Relabellings(C) == [1..C.raw.sources -> PermSeqs(C.raw.level)]
InflationOrbit(C, w) == {RelabelWord(C, pi, w) : pi \in Relabellings(C)}

(* The code does not search the orbit: it numbers the copies of each source   *)
(* in the order in which they appear (last source of an operator first), and  *)
(* repeats when that puts the operators out of order.  Two words with one     *)
(* GreedyKey are certainly the same moment; the converse need not hold.       *)
NumberCopies(C, w) ==     \* <<source, copy>> in order of appearance
    FoldLeft(LAMBDA acc, x :
        LET t == C.tab[x + 1]
            src == C.raw.src[t.o]
            k == Len(src)
        IN FoldLeft(LAMBDA a, q :
               LET pr == <<src[k + 1 - q] + 1, t.idx[k + 1 - q]>>
               IN IF \E j \in 1..Len(a) : a[j] = pr THEN a ELSE Append(a, pr),
             acc, [q \in 1..k |-> q]),
        <<>>, w)
GreedyPi(C, w) ==
    LET seen == NumberCopies(C, w)
        rank(sr, c) == LET pos == CHOOSE j \in 1..Len(seen) : seen[j] = <<sr, c>>
                       IN Cardinality({j \in 1..(pos - 1) : seen[j][1] = sr})
    IN [sr \in 1..C.raw.sources |-> [c1 \in 1..C.raw.level |->
          IF \E j \in 1..Len(seen) : seen[j] = <<sr, c1 - 1>> THEN rank(sr, c1 - 1) ELSE c1 - 1]]
RECURSIVE GreedyWord(_, _)
GreedyWord(C, w) ==
    LET pi == GreedyPi(C, w)
        v == [i \in 1..Len(w) |-> RelabelOp(C, pi, w[i])]
        u == SortWord(v)
    IN IF u = v THEN v ELSE GreedyWord(C, u)

(* ---- Pauli chains and lattices -------------------------------------------*)
(* qubit number = column * rows + row.  With translational symmetry a moment *)
(* may be shifted as a whole: cyclically if the lattice wraps, otherwise by  *)
(* any shift that keeps every occupied site inside.                          *)
Mod(a, m) == ((a % m) + m) % m
ShiftWord(C, w, dr, dc) ==
    SortWord([i \in 1..Len(w) |->
        LET q == w[i] \div 3
            r == Mod((q % C.rows) + dr, C.rows)
            c == Mod((q \div C.rows) + dc, C.cols)
        IN 3 * (c * C.rows + r) + (w[i] % 3)])
Inside(C, w, dr, dc) ==
    \A i \in 1..Len(w) : /\ ((w[i] \div 3) % C.rows) + dr \in 0..(C.rows - 1)
                         /\ ((w[i] \div 3) \div C.rows) + dc \in 0..(C.cols - 1)
PauliOrbit(C, w) ==
    {ShiftWord(C, w, d[1], d[2]) :
        d \in {x \in ((1 - C.rows)..(C.rows - 1)) \X ((1 - C.cols)..(C.cols - 1)) :
                C.wrap \/ Inside(C, w, x[1], x[2])}}

Orbit(C, w) == IF C.kind = "inflation" THEN InflationOrbit(C, w) ELSE PauliOrbit(C, w)
LeastWord(S) == CHOOSE w \in S : \A v \in S : v = w \/ ShortlexLess(w, v)

(* the explicit source copies an operator depends upon, or a private mark    *)
(* for an observable that no source reaches                                  *)
Dependencies(C, x) ==
    LET t == C.tab[x + 1] IN
    IF C.raw.src[t.o] = <<>> THEN {<<0 - t.o, 0>>}
    ELSE {<<C.raw.src[t.o][q], t.idx[q]>> : q \in 1..Len(C.raw.src[t.o])}

(* ---- any scenario --------------------------------------------------------*)
CompletionFuel == 3000
MakeContext(raw) ==
    CASE raw.kind = "inflation" -> InflationContext(raw)
      [] raw.kind = "algebraic" ->
            LET kb == KBComplete(raw.n, raw.star, raw.rules, raw.comm, raw.normal, CompletionFuel)
            IN [kind |-> "algebraic", n |-> raw.n, star |-> raw.star, given |-> raw.rules, raw |-> raw,
                rules |-> IF kb.collapsed THEN <<[l |-> <<>>, r |-> Zero]>> ELSE kb.rules, ok |-> kb.ok]
      [] OTHER -> raw

HasAliases(C) == CASE C.kind = "inflation" -> C.raw.level > 1 /\ C.raw.sources > 0
                   [] C.kind = "pauli" -> C.sym
                   [] OTHER -> FALSE
(* one value per moment *)
MomentKey(C, w) == IF HasAliases(C) THEN LeastWord(Orbit(C, w)) ELSE w
(* one value per moment as far as the implementation can tell moments apart *)
SymbolKey(C, w) == IF C.kind = "inflation" /\ HasAliases(C) THEN GreedyWord(C, w) ELSE MomentKey(C, w)
=============================================================================
