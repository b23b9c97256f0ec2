------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The algebra of operator words, for every kind of scenario the library   *)
(* supports.                                                               *)
(*                                                                         *)
(* An ELEMENT is [s |-> phase, w |-> word]; phase in 0..3 is a power of    *)
(* the imaginary unit, phase 4 (with the empty word) is the zero element;  *)
(* a word is a sequence of operator numbers 0..n-1.                        *)
(*                                                                         *)
(* A CONTEXT C is a record with fields kind, n and the tables each kind    *)
(* needs (they are described where they are used).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Zero == [s |-> 4, w |-> <<>>]
One  == [s |-> 0, w |-> <<>>]
IsZero(a) == a.s = 4
Phase(k) == k % 4
Scale(a, k) == IF IsZero(a) THEN Zero ELSE [s |-> (a.s + k) % 4, w |-> a.w]

----------------------------------------------------------------------------
(* Sequences                                                               *)
Range1(q) == {q[i] : i \in 1..Len(q)}
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

(* Shortlex order on words                                                  *)
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexLessFrom(a, b, i + 1)
ShortlexLess(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLessFrom(a, b, 1)

(* Remove equal neighbours                                                  *)
Dedupe(q) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x
                                      THEN acc ELSE Append(acc, x), <<>>, q)

----------------------------------------------------------------------------
(* Locality: operators are projectors, party[op] and mmt[op] (global       *)
(* measurement number) given per operator.  Parties commute; an operator   *)
(* is idempotent; two distinct outcomes of one measurement are orthogonal. *)
LocalityNF(C, w) ==
    LET grouped == FoldLeft(LAMBDA acc, p : acc \o SelectSeq(w, LAMBDA x : C.party[x + 1] = p),
                            <<>>, [k \in 1..C.parties |-> k - 1])
        d == Dedupe(grouped)
    IN IF \E i \in 1..(Len(d) - 1) : C.mmt[d[i] + 1] = C.mmt[d[i + 1] + 1]
       THEN Zero ELSE [s |-> 0, w |-> d]

----------------------------------------------------------------------------
(* Pauli: operator 3q, 3q+1, 3q+2 is sigma_x, sigma_y, sigma_z on qubit q. *)
(* PauliMul[a,b] for single-qubit letters 0=I,1=X,2=Y,3=Z.                 *)
PauliTimes(a, b) ==
    IF a = 0 THEN [s |-> 0, l |-> b]
    ELSE IF b = 0 THEN [s |-> 0, l |-> a]
    ELSE IF a = b THEN [s |-> 0, l |-> 0]
    ELSE [s |-> IF (b - a) \in {1, -2} THEN 1 ELSE 3, l |-> 6 - a - b]

(* Phase and letter left on one qubit by the sub-word acting on it          *)
QubitFold(w, q) ==
    FoldLeft(LAMBDA acc, x : LET t == PauliTimes(acc.l, (x % 3) + 1)
                             IN [s |-> (acc.s + t.s) % 4, l |-> t.l],
             [s |-> 0, l |-> 0], SelectSeq(w, LAMBDA x : x \div 3 = q))
PauliNF(C, w) ==
    LET f == [q \in 1..C.qubits |-> QubitFold(w, q - 1)]
    IN [s |-> FoldLeft(LAMBDA acc, r : acc + r.s, 0, f) % 4,
        w |-> FoldLeft(LAMBDA acc, q : IF f[q].l = 0 THEN acc
                                       ELSE Append(acc, 3 * (q - 1) + f[q].l - 1),
                       <<>>, [q \in 1..C.qubits |-> q])]

----------------------------------------------------------------------------
(* Inflation: everything commutes.  var[op] is the global number of the    *)
(* observable copy the operator belongs to, proj[op] = 1 iff it is one of  *)
(* several outcomes of a projective measurement (0: a general moment).     *)
SortWord(w) == SortSeq(w, LAMBDA a, b : a < b)
InflationNF(C, w) ==
    LET q == SortWord(w)
        d == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x /\ C.proj[x + 1] = 1
                                      THEN acc ELSE Append(acc, x), <<>>, q)
    IN IF \E i \in 1..(Len(d) - 1) : d[i] # d[i + 1] /\ C.var[d[i] + 1] = C.var[d[i + 1] + 1]
       THEN Zero ELSE [s |-> 0, w |-> d]

----------------------------------------------------------------------------
(* Rewriting systems.  Rules: sequence of [l |-> word, r |-> element],     *)
(* each replacing the word l by the (shortlex smaller) element r.          *)
MatchesAt(l, w, p) == /\ p + Len(l) - 1 <= Len(w)
                      /\ \A k \in 1..Len(l) : w[p + k - 1] = l[k]
Occurs(l, w) == \E p \in 1..Len(w) : MatchesAt(l, w, p)

RewriteAt(e, p, rule) ==
    IF IsZero(rule.r) THEN Zero
    ELSE [s |-> (e.s + rule.r.s) % 4,
          w |-> SubSeq(e.w, 1, p - 1) \o rule.r.w \o SubSeq(e.w, p + Len(rule.l), Len(e.w))]

(* the set of (position, rule number) pairs at which e can be rewritten     *)
Redexes(rules, e) ==
    IF IsZero(e) THEN {}
    ELSE {pr \in (1..Len(e.w)) \X (1..Len(rules)) : MatchesAt(rules[pr[2]].l, e.w, pr[1])}

(* leftmost redex, first rule: a deterministic strategy                     *)
RECURSIVE RewriteN(_, _, _)
RewriteN(rules, e, fuel) ==
    IF fuel = 0 \/ IsZero(e) THEN e
    ELSE LET R == {p \in 1..Len(e.w) : \E k \in 1..Len(rules) : MatchesAt(rules[k].l, e.w, p)}
         IN IF R = {} THEN e
            ELSE LET p == CHOOSE x \in R : \A y \in R : x <= y
                     k == CHOOSE x \in 1..Len(rules) :
                             /\ MatchesAt(rules[x].l, e.w, p)
                             /\ \A y \in 1..(x - 1) : ~MatchesAt(rules[y].l, e.w, p)
                 IN RewriteN(rules, RewriteAt(e, p, rules[k]), fuel - 1)
Fuel == 2000
Rewrite(rules, e) == RewriteN(rules, e, Fuel)
Irreducible(rules, e) == Redexes(rules, e) = {}

AlgebraicNF(C, w) == Rewrite(C.rules, [s |-> 0, w |-> w])

----------------------------------------------------------------------------
NF(C, w) == CASE C.kind = "free"      -> [s |-> 0, w |-> w]
              [] C.kind = "locality"  -> LocalityNF(C, w)
              [] C.kind = "pauli"     -> PauliNF(C, w)
              [] C.kind = "inflation" -> InflationNF(C, w)
              [] C.kind = "algebraic" -> AlgebraicNF(C, w)

Norm(C, a) == IF IsZero(a) THEN Zero ELSE Scale(NF(C, a.w), a.s)
Canonical(C, a) == Norm(C, a) = a

Mul(C, a, b) ==
    IF IsZero(a) \/ IsZero(b) THEN Zero
    ELSE Scale(NF(C, a.w \o b.w), a.s + b.s)

(* star[op]: number of the operator that is op's conjugate                  *)
StarWord(C, w) == IF C.kind = "algebraic"
                  THEN [i \in 1..Len(w) |-> C.star[w[Len(w) + 1 - i] + 1]]
                  ELSE Rev(w)
Conj(C, a) == IF IsZero(a) THEN Zero ELSE Scale(NF(C, StarWord(C, a.w)), 4 - a.s)

Neg(a) == Scale(a, 2)

----------------------------------------------------------------------------
(* Moments of an inflation scenario: independent copies of one source may  *)
(* be exchanged.  C.sources: number of explicit sources, C.level: copies;  *)
(* C.link[op]: sequence of <<source, copy>> pairs (explicit sources only)  *)
(* in the observable's own order; relabelling acts on the copies.          *)
(* C.relabel(op, pi) is computed through C.find: see TraceWords.           *)
=============================================================================
