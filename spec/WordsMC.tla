------------------------------ MODULE WordsMC ------------------------------
(* Exhaustive check of the word algebra itself: two registers are extended  *)
(* generator by generator in every context of a catalogue; every reachable  *)
(* pair satisfies the laws the library promises.                            *)
EXTENDS Scenario

CONSTANTS MaxLen     \* number of multiplications per register

Loc(party, mmt, parties) == [kind |-> "locality", n |-> Len(party), parties |-> parties, party |-> party, mmt |-> mmt]
Alg(n, star, rules, comm) == MakeContext([kind |-> "algebraic", n |-> n, star |-> star, rules |-> rules, comm |-> comm, normal |-> FALSE])
Rl(l, k, r) == [l |-> l, r |-> [s |-> k, w |-> r]]
Inf(outcomes, src, sources, level, n) ==
    InflationContext([kind |-> "inflation", n |-> n, level |-> level, sources |-> sources, outcomes |-> outcomes, src |-> src])

Pau(rows, cols, wrap, sym) ==
    [kind |-> "pauli", n |-> 3 * rows * cols, qubits |-> rows * cols, rows |-> rows, cols |-> cols, wrap |-> wrap, sym |-> sym]

Contexts == <<
    [kind |-> "free", n |-> 2],
    Loc(<<0, 0, 1, 1>>, <<0, 1, 2, 3>>, 2),
    Loc(<<0, 0, 0, 1>>, <<0, 0, 1, 2>>, 2),
    Pau(2, 1, FALSE, FALSE), Pau(2, 1, TRUE, TRUE), Pau(2, 1, FALSE, TRUE),
    Inf(<<2, 2>>, << <<0>>, <<0>> >>, 1, 2, 4),
    Inf(<<0, 3>>, << <<0>>, <<0>> >>, 1, 2, 6),
    Alg(2, <<0, 1>>, <<Rl(<<1, 0>>, 2, <<0, 1>>), Rl(<<0, 0>>, 0, <<>>), Rl(<<1, 1>>, 0, <<>>)>>, FALSE),
    Alg(2, <<1, 0>>, <<Rl(<<0, 1>>, 0, <<>>), Rl(<<1, 0>>, 0, <<>>)>>, FALSE),
    Alg(4, <<2, 3, 0, 1>>, <<Rl(<<0, 0>>, 2, <<>>), Rl(<<1, 1>>, 0, <<1>>)>>, FALSE),
    Alg(3, <<0, 1, 2>>, <<Rl(<<0, 1>>, 1, <<2>>), Rl(<<1, 2>>, 1, <<0>>), Rl(<<2, 0>>, 1, <<1>>),
                          Rl(<<0, 0>>, 0, <<>>), Rl(<<1, 1>>, 0, <<>>), Rl(<<2, 2>>, 0, <<>>)>>, FALSE),
    Alg(2, <<0, 1>>, <<Rl(<<0, 0>>, 0, <<0>>)>>, TRUE) >>

VARIABLES C, a, b, na, nb
vars == <<C, a, b, na, nb>>
Gen(x) == NF(C, <<x>>)

Init == /\ C \in Range1(Contexts) /\ a \in {One, [s |-> 1, w |-> <<>>], Zero} /\ b = One /\ na = 0 /\ nb = 0
Next == \/ /\ na < MaxLen /\ nb = 0 /\ na' = na + 1 /\ UNCHANGED <<C, b, nb>>
           /\ \E x \in 0..(C.n - 1) : a' = Mul(C, a, Gen(x))
        \/ /\ nb < MaxLen /\ nb' = nb + 1 /\ UNCHANGED <<C, a, na>>
           /\ \E x \in 0..(C.n - 1) : b' = Mul(C, b, Gen(x))
Spec == Init /\ [][Next]_vars

Laws ==
    /\ Canonical(C, a) /\ Canonical(C, b)
    /\ Mul(C, a, One) = a /\ Mul(C, One, a) = a
    /\ Mul(C, a, Zero) = Zero /\ Mul(C, Zero, a) = Zero
    /\ Conj(C, Conj(C, a)) = a
    /\ Conj(C, Mul(C, a, b)) = Mul(C, Conj(C, b), Conj(C, a))
    /\ \A x \in 0..(C.n - 1) : Mul(C, Mul(C, a, b), Gen(x)) = Mul(C, a, Mul(C, b, Gen(x)))
    /\ \A x \in 0..(C.n - 1) : Mul(C, Gen(x), Mul(C, a, b)) = Mul(C, Mul(C, Gen(x), a), b)
    /\ Mul(C, Neg(a), b) = Neg(Mul(C, a, b))
Ordered == /\ ~ShortlexLess(a.w, a.w)
           /\ a.w # b.w => (ShortlexLess(a.w, b.w) # ShortlexLess(b.w, a.w))
           /\ Len(Norm(C, a).w) <= Len(a.w)
Orbits == HasAliases(C) /\ ~IsZero(a) =>
             /\ \A v \in Orbit(C, a.w) : Orbit(C, v) = Orbit(C, a.w) /\ NF(C, v) = [s |-> 0, w |-> v]
=============================================================================
