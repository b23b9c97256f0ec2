------------------------------- MODULE Tensors -------------------------------
(***************************************************************************)
(* Tensors of probabilities.  A locality scenario has one axis per party,   *)
(* an inflation scenario one per copy of an observable; an axis lists its   *)
(* measurements.  Along each axis                                           *)
(*   - the Collins-Gisin tensor has the identity, then every operator;      *)
(*   - the probability tensor has the identity, then every outcome of every *)
(*     measurement, the last outcome of each being what the others leave;   *)
(*   - the full correlator has the identity, then every (binary)            *)
(*     measurement, as its value +1 or -1.                                  *)
(* An element of one of the latter two is a product over axes of            *)
(* combinations of positions <<position, coefficient>> in the first.        *)
(* The first axis varies fastest in the numbering of elements.              *)
(***************************************************************************)
EXTENDS Inflation

(* a measurement: its operators, its number of outcomes, whether each outcome has an operator; b: position of its first operator *)
Placed(q) == FoldLeft(LAMBDA acc, m : Append(acc, [m EXCEPT !.b = IF acc = <<>> THEN 1 ELSE acc[Len(acc)].b + Len(acc[Len(acc)].ops)]), <<>>, q)
LocalityAxes(C) ==
    LET first(p) == FoldLeft(LAMBDA acc, j : acc + FoldLeft(LAMBDA a, n : a + (n - 1), 0, C.shape[j]), 0, [j \in 1..(p - 1) |-> j])
        start(p, m) == first(p) + FoldLeft(LAMBDA a, j : a + (C.shape[p][j] - 1), 0, [j \in 1..(m - 1) |-> j])
    IN [p \in 1..Len(C.shape) |-> Force(Placed([m \in 1..Len(C.shape[p]) |->
            [ops |-> Force([k \in 1..(C.shape[p][m] - 1) |-> (start(p, m) + k) - 1]), n |-> C.shape[p][m], ex |-> FALSE, b |-> 1]]))]
InflationAxes(C) ==
    FoldLeft(LAMBDA acc, o : acc \o [v \in 1..CopiesOf(C.raw, o) |->
                 <<[ops |-> Force([k \in 1..OpsOf(C.raw, o) |-> (C.start[o] + ((v - 1) * OpsOf(C.raw, o)) + k) - 1]),
                    n |-> IF C.raw.outcomes[o] = 0 THEN 1 ELSE C.raw.outcomes[o], ex |-> C.raw.outcomes[o] = 0, b |-> 1]>>],
             <<>>, [o \in 1..Len(C.raw.outcomes) |-> o])
AxesOf(C) == Force(IF C.kind = "inflation" THEN InflationAxes(C) ELSE LocalityAxes(C))
AxisOps(axis) == FoldLeft(LAMBDA acc, m : acc \o m.ops, <<>>, axis)

(* ---- what stands at the positions along an axis ----------------------------- *)
CGLine(axis) == [k \in 1..(Len(AxisOps(axis)) + 1) |-> <<<<k - 1, 1>>>>]
Outcomes(m) == [k \in 1..m.n |-> IF k < m.n \/ m.ex THEN <<<<(m.b + k) - 1, 1>>>>
                                  ELSE <<<<0, 1>>>> \o [j \in 1..Len(m.ops) |-> <<(m.b + j) - 1, 0 - 1>>]]
PTLine(axis) == FoldLeft(LAMBDA acc, m : acc \o Outcomes(m), <<<<<<0, 1>>>>>>, axis)
FCLine(axis) == <<<<<<0, 1>>>>>> \o [k \in 1..Len(axis) |-> <<<<axis[k].b, 2>>, <<0, 0 - 1>>>>]
Line(kind, axis) == Force(CASE kind = "cg" -> CGLine(axis) [] kind = "pt" -> PTLine(axis) [] OTHER -> FCLine(axis))
Binary(axes) == \A a \in 1..Len(axes) : \A m \in 1..Len(axes[a]) : axes[a][m].n = 2

(* ---- shape ------------------------------------------------------------------- *)
Prod(q) == FoldLeft(LAMBDA acc, x : acc * x, 1, q)
Strides(dims) == Force([k \in 1..Len(dims) |-> Prod(SubSeq(dims, 1, k - 1))])
Number(dims, ix) == FoldLeft(LAMBDA acc, k : acc + (ix[k] * Prod(SubSeq(dims, 1, k - 1))), 0, [k \in 1..Len(dims) |-> k])
IndexOf(dims, o) == Force([k \in 1..Len(dims) |-> (o \div Prod(SubSeq(dims, 1, k - 1))) % dims[k]])
Count(dims) == IF dims = <<>> THEN 0 ELSE Prod(dims)
ExplicitLimit == 1024

(* T: the lines of each axis.  An element, as combination of Collins-Gisin elements <<number, coefficient>> *)
Expand(lines, cgstr, ix) ==
    FoldLeft(LAMBDA acc, a : LET v == lines[a][ix[a] + 1] IN
                FoldLeft(LAMBDA out, t : out \o [j \in 1..Len(v) |-> <<t[1] + (v[j][1] * cgstr[a]), t[2] * v[j][2]>>], <<>>, acc),
             <<<<0, 1>>>>, [a \in 1..Len(lines) |-> a])
(* the word of a Collins-Gisin element *)
CGWord(C, axes, ix) == NF(C, FoldLeft(LAMBDA acc, a : IF ix[a] = 0 THEN acc ELSE Append(acc, AxisOps(axes[a])[ix[a]]), <<>>, [a \in 1..Len(axes) |-> a]))
SymbolOf(S, w) == LET f == OfWord(S, IF HasAliases(S.c) THEN SymbolKey(S.c, w) ELSE w) IN IF w = <<>> THEN 1 ELSE IF f = {} THEN 0 - 1 ELSE CHOOSE x \in f : TRUE

(* ---- blocks: measurements g (numbered through all axes), some with their outcome fixed -------- *)
Where(axes, g) ==   \* <<axis, measurement>>, 1-based; g counts from 0
    LET upto(a) == FoldLeft(LAMBDA acc, j : acc + Len(axes[j]), 0, [j \in 1..(a - 1) |-> j])
        a == CHOOSE x \in 1..Len(axes) : upto(x) <= g /\ g < upto(x) + Len(axes[x])
    IN <<a, (g - upto(a)) + 1>>
MeasurementCount(axes) == FoldLeft(LAMBDA acc, a : acc + Len(a), 0, axes)
PTPos(axis, m) == 1 + FoldLeft(LAMBDA acc, j : acc + axis[j].n, 0, [j \in 1..(m - 1) |-> j])
Extent(kind, axes, w) == LET x == axes[w[1]][w[2]] IN IF kind = "cg" THEN <<x.b, Len(x.ops)>> ELSE <<PTPos(axes[w[1]], w[2]), x.n>>
(* [ok, lo, hi]; asked: sequence of <<g, outcome or -1>> *)
Block(kind, axes, asked) ==
    LET n == Len(asked) IN
    IF \E k \in 1..n : asked[k][1] \notin 0..(MeasurementCount(axes) - 1) THEN [ok |-> FALSE, lo |-> <<>>, hi |-> <<>>]
    ELSE LET at == Force([k \in 1..n |-> Where(axes, asked[k][1])]) IN
         IF \/ \E j, k \in 1..n : j < k /\ at[j][1] = at[k][1]
            \/ \E k \in 1..n : asked[k][2] >= Extent(kind, axes, at[k])[2] THEN [ok |-> FALSE, lo |-> <<>>, hi |-> <<>>]
         ELSE LET of(a) == {k \in 1..n : at[k][1] = a}
                  lo(a) == IF of(a) = {} THEN 0 ELSE LET k == CHOOSE x \in of(a) : TRUE IN Extent(kind, axes, at[k])[1] + (IF asked[k][2] >= 0 THEN asked[k][2] ELSE 0)
                  hi(a) == IF of(a) = {} THEN 1 ELSE LET k == CHOOSE x \in of(a) : TRUE IN IF asked[k][2] >= 0 THEN lo(a) + 1 ELSE lo(a) + Extent(kind, axes, at[k])[2]
              IN [ok |-> TRUE, lo |-> Force([a \in 1..Len(axes) |-> lo(a)]), hi |-> Force([a \in 1..Len(axes) |-> hi(a)])]
BlockDims(b) == Force([a \in 1..Len(b.lo) |-> b.hi[a] - b.lo[a]])
BlockElement(b, n) == LET ix == IndexOf(BlockDims(b), n) IN Force([a \in 1..Len(b.lo) |-> b.lo[a] + ix[a]])
=============================================================================
