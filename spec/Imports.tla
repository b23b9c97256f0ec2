------------------------------- MODULE Imports -------------------------------
(***************************************************************************)
(* Systems of imported matrices: there are no operators, only symbols, and  *)
(* every import adds what it tells about them.  A symbol stands for a       *)
(* complex number; of that number is known its LINE: "any" number, a real   *)
(* one ("R") or an imaginary one ("I").                                     *)
(*                                                                         *)
(* A cell is a term <<id, re, im, conjugated>>; symbol 0 is the number 0    *)
(* and symbol 1 the number 1.  Importing a Hermitian matrix asserts         *)
(* cell = conj(opposite cell) everywhere; importing a real one asserts that *)
(* each cell is real; in a purely real system every symbol is real.         *)
(* An import whose assertions would make a symbol zero, or that cannot be   *)
(* expressed by lines, is refused and changes nothing.                      *)
(***************************************************************************)
EXTENDS Symbolic

Meet(a, b) == IF a = "any" THEN b ELSE IF b = "any" \/ a = b THEN a ELSE "no"
(* what  t = conj(v)  says about the symbol of t: a line, or "no" if it needs more than that *)
LineOf(t, v) ==
    LET u == TC(t) w == CConj(TC(v)) IN
    IF t[1] = 0 /\ v[1] = 0 THEN "any"
    ELSE IF t[1] # v[1] THEN "no"
    ELSE IF t[1] = 1 THEN IF u = w THEN "any" ELSE "no"
    ELSE IF t[4] # v[4] THEN IF u = w THEN "any" ELSE "no"
    ELSE IF u = w THEN "R" ELSE IF u = CNeg(w) THEN "I" ELSE "no"

Opposite(k, d) == Cell(ColOf(k, d), RowOf(k, d), d)
Claims(e) ==   \* what an import says: pairs <<symbol, line>>
    LET c == e.c IN
    (IF e.herm THEN {<<c[k][1], LineOf(c[k], c[Opposite(k, e.d)])>> : k \in 1..Len(c)} ELSE {})
    \cup (IF ~e.cplx THEN {<<c[k][1], LineOf(c[k], c[k])>> : k \in 1..Len(c)} ELSE {})
Highest(c) == FoldLeft(LAMBDA a, t : IF t[1] > a THEN t[1] ELSE a, 0, c)

(* lines after an import into a system with the lines dom (symbol k at k + 1) *)
LinesAfter(real, dom, e) ==
    LET n == IF Highest(e.c) + 1 > Len(dom) THEN Highest(e.c) + 1 ELSE Len(dom)
        cl == Claims(e)
        was(k) == IF k <= Len(dom) THEN dom[k] ELSE IF real THEN "R" ELSE "any"
        said(k) == {p[2] : p \in {q \in cl : q[1] = k - 1}} \cup {was(k)}
        all(S) == IF "no" \in S \/ {"R", "I"} \subseteq S THEN "no" ELSE IF "R" \in S THEN "R" ELSE IF "I" \in S THEN "I" ELSE "any"
    IN Force([k \in 1..n |-> IF k = 1 THEN (IF "no" \in {p[2] : p \in {q \in cl : q[1] = 0}} THEN "no" ELSE "zero")
                             ELSE all(said(k))])
Acceptable(real, dom, e) == ~(real /\ e.cplx) /\ \A k \in 1..Len(LinesAfter(real, dom, e)) : LinesAfter(real, dom, e)[k] # "no"
Fresh == <<"zero", "R">>

(* ---- the meaning of it: assignments of complex numbers -------------------- *)
Value(a, t) == IF t[1] = 0 THEN Zc
               ELSE LET x == IF t[1] = 1 THEN One1 ELSE a[t[1] + 1] IN CMul(TC(t), IF t[4] = 1 THEN CConj(x) ELSE x)
Satisfies(real, a, e) ==
    /\ e.herm => \A k \in 1..Len(e.c) : Value(a, e.c[k]) = CConj(Value(a, e.c[Opposite(k, e.d)]))
    /\ ~e.cplx => \A k \in 1..Len(e.c) : Value(a, e.c[k])[2] = 0
    /\ real => \A k \in 3..Len(a) : a[k][2] = 0
OnLine(z, line) == CASE line = "any" -> TRUE [] line = "R" -> z[2] = 0 [] line = "I" -> z[1] = 0 [] OTHER -> FALSE
=============================================================================
