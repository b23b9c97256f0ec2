------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Qubits on a chain or a rectangular lattice.  C.rows x C.cols sites,     *)
(* site number = column * rows + row; C.wrap: the lattice is a torus.      *)
(* A chain is a lattice with one column.                                   *)
(***************************************************************************)
EXTENDS Moments

Sites(C) == 0..(C.qubits - 1)
SiteRow(C, q) == q % C.rows
SiteCol(C, q) == q \div C.rows
Site(C, r, c) == c * C.rows + r

(* ---- translations of sets of sites --------------------------------------*)
MoveSite(C, q, dr, dc) == Site(C, Mod(SiteRow(C, q) + dr, C.rows), Mod(SiteCol(C, q) + dc, C.cols))
Fits(C, S, dr, dc) == \A q \in S : SiteRow(C, q) + dr \in 0..(C.rows - 1) /\ SiteCol(C, q) + dc \in 0..(C.cols - 1)
Offsets(C) == (0..(C.rows - 1)) \X (0..(C.cols - 1))
(* every place to which a pattern of sites can be carried                   *)
OnTorus(C, S) == {{MoveSite(C, q, d[1], d[2]) : q \in S} : d \in Offsets(C)}
Windows(C, S) == {{MoveSite(C, q, d[1], d[2]) : q \in S} :
                    d \in {x \in ((1 - C.rows)..(C.rows - 1)) \X ((1 - C.cols)..(C.cols - 1)) : Fits(C, S, x[1], x[2])}}
Places(C, S) == IF C.wrap THEN OnTorus(C, S) ELSE Windows(C, S)
(* a pattern is given by <<row, column>> pairs; it has to fit on the lattice *)
Pattern(C, P) ==
    IF \E p \in P : p[1] >= C.rows \/ p[2] >= C.cols THEN {}
    ELSE Places(C, {Site(C, p[1], p[2]) : p \in P})

(* ---- nearest neighbours --------------------------------------------------*)
(* chain: from one occupied site to the next at most k steps; on a ring, one *)
(* of the gaps may be larger                                                  *)
ChainNear(C, k, S) ==
    LET q == SetToSortSeq(S, <)
        m == Len(q)
        wide == {j \in 1..(m - 1) : q[j + 1] - q[j] > k}
        far == Cardinality(wide) + (IF C.wrap /\ q[1] + C.qubits - q[m] <= k THEN 0 ELSE 1)
    IN IF m <= 1 THEN TRUE ELSE IF C.wrap THEN far <= 1 ELSE wide = {}
AdjacentPairs(C) == Pattern(C, {<<0, 0>>, <<1, 0>>}) \cup Pattern(C, {<<0, 0>>, <<0, 1>>})
            \* on a torus the last row (column) also neighbours the first
Triples(C) == LET Sq == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>} IN
              Pattern(C, {<<0, 0>>, <<1, 0>>, <<2, 0>>}) \cup Pattern(C, {<<0, 0>>, <<0, 1>>, <<0, 2>>})
              \cup UNION {Pattern(C, Sq \ {p}) : p \in {x \in Sq : C.rows > 1 /\ C.cols > 1}}
Squares(C) == IF C.rows > 1 /\ C.cols > 1 THEN Pattern(C, {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}) ELSE {}

IsLattice(C) == C.cols > 1
(* the sets of sites on which a word of the given level may act              *)
NNSupports(C, level, k) ==
    LET L == IF level > C.qubits THEN C.qubits ELSE level
        small == UNION {kSubset(m, Sites(C)) : m \in 0..(IF L > 1 THEN 1 ELSE L)}
    IN IF k = 0 THEN UNION {kSubset(m, Sites(C)) : m \in 0..L}
       ELSE IF IsLattice(C)
            THEN small \cup (IF L >= 2 THEN AdjacentPairs(C) ELSE {}) \cup (IF L >= 3 THEN Triples(C) ELSE {})
                       \cup (IF L >= 4 THEN Squares(C) ELSE {})
            ELSE small \cup {S \in UNION {kSubset(m, Sites(C)) : m \in 2..L} : ChainNear(C, k, S)}
(* combinations that are not supported: further neighbours, or more than     *)
(* four sites, on a lattice                                                   *)
NNUnsupported(C, level, k) ==
    IsLattice(C) /\ (k > 1 \/ (k = 1 /\ level >= 5 /\ C.qubits >= 5))
(* a torus without translational symmetry has no machinery for shapes        *)
NNMayRefuse(C, level, k) == IsLattice(C) /\ C.wrap /\ ~C.sym /\ k = 1 /\ level >= 3

SupportOf(w) == {w[j] \div 3 : j \in 1..Len(w)}
RightOrder(C, w) == /\ \A j \in 1..Len(w) : w[j] \in 0..(C.n - 1)
                    /\ \A j \in 1..(Len(w) - 1) : w[j] \div 3 < w[j + 1] \div 3
(* all Pauli words on these supports, each exactly once                      *)
AllWordsOn(C, ws, sup) ==
    /\ \A j \in 1..Len(ws) : RightOrder(C, ws[j]) /\ SupportOf(ws[j]) \in sup
    /\ Cardinality({ws[j] : j \in 1..Len(ws)}) = Len(ws)
    /\ Len(ws) = FoldSet(LAMBDA S, acc : acc + PowN(3, Cardinality(S)), 0, sup)

(* ---- averages over translations ------------------------------------------*)
Scalar(ts) == \A j \in 1..Len(ts) : ts[j].q.w = <<>>
(* sum over all translations of the torus *)
TorusSum(C, ts) ==
    FoldLeft(LAMBDA acc, k :
        acc \o [j \in 1..Len(ts) |-> IF IsZero(ts[j].q) THEN ts[j]
                    ELSE [q |-> [s |-> ts[j].q.s, w |-> ShiftWord(C, ts[j].q.w, (k - 1) % C.rows, (k - 1) \div C.rows)], c |-> ts[j].c]],
        <<>>, [k \in 1..C.qubits |-> k])
=============================================================================
