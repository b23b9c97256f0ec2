------------------------------ MODULE ImportsMC ------------------------------
(* Every sequence of up to Depth imports of small matrices.  The lines kept    *)
(* by the model are exactly the numbers that satisfy all imports accepted so   *)
(* far; a refused import could only have been satisfied by making a symbol     *)
(* vanish or by tying it to a line that is neither real nor imaginary.         *)
EXTENDS Imports
CONSTANTS Factors, Numbers

VARIABLES real, dom, sat
vars == <<real, dom, sat>>

F(n) == CASE n = 1 -> <<1, 0>> [] n = 2 -> <<0 - 1, 0>> [] n = 3 -> <<0, 1>> [] n = 4 -> <<0, 0 - 1>> [] n = 5 -> <<1, 1>> [] n = 6 -> <<2, 0>>
TermSet == {<<x, F(f)[1], F(f)[2], k>> : x \in Numbers, f \in Factors, k \in {0, 1}} \cup {<<0, 0, 0, 0>>}
Flags == {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<FALSE, FALSE>>}
Imports1 == {[c |-> <<t>>, d |-> 1, cplx |-> f[1], herm |-> f[2]] : t \in TermSet, f \in Flags}
Imports2 == {[c |-> <<<<1, 1, 0, 0>>, t, v, <<1, 1, 0, 0>>>>, d |-> 2, cplx |-> f[1], herm |-> f[2]] : t \in TermSet, v \in TermSet, f \in Flags}

N == 2 + Cardinality(Numbers \ {1})
Samples == {<<a, b>> : a \in -1..1, b \in -1..1}
Values == {<<Zc, One1>> \o q : q \in [1..(N - 2) -> Samples]}
On(q) == {a \in Values : \A k \in 3..N : OnLine(a[k], q[k])}
Pad(r, d) == d \o [k \in 1..(N - Len(d)) |-> IF r THEN "R" ELSE "any"]

(* sat: the numbers that satisfy every import accepted so far *)
Init == /\ real \in BOOLEAN /\ dom = Fresh
        /\ sat = {a \in Values : real => \A k \in 3..N : a[k][2] = 0}
Import(e) ==
    IF Acceptable(real, dom, e)
    THEN dom' = LinesAfter(real, dom, e) /\ sat' = {a \in sat : Satisfies(real, a, e)} /\ UNCHANGED real
    ELSE UNCHANGED vars
Next == \E e \in Imports1 \cup Imports2 : Import(e)
Spec == Init /\ [][Next]_vars

(* exactly the numbers on the lines satisfy what was imported *)
Exact == sat = On(Pad(real, dom))
(* an import is refused only if for no choice of lines its solutions are the numbers on these lines, *)
(* each symbol being free to be nonzero                                                              *)
RefusedRightly ==
    LET sets == {On(q) : q \in [3..N -> {"any", "R", "I"}]} IN
    \A e \in {x \in Imports1 \cup Imports2 : ~Acceptable(real, dom, x) /\ ~(real /\ x.cplx)} :
        {a \in sat : Satisfies(real, a, e)} \notin sets
=============================================================================
