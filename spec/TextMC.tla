------------------------------- MODULE TextMC -------------------------------
(* The notation is unambiguous: in every scenario of a catalogue, different  *)
(* elements have different texts; numbered names are different; a term that  *)
(* is written with its symbol number reads back as itself.  (An operator     *)
(* that a user calls i reads like a phase, unless words are put in braces.)  *)
EXTENDS Text

CONSTANTS MaxLen, MaxName

A(k) == <<96 + k>>
Contexts == <<
    [kind |-> "free", n |-> 12],
    [kind |-> "algebraic", names |-> <<A(1), A(2), A(3)>>, mode |-> 0],
    [kind |-> "algebraic", names |-> <<A(1), A(2)>>, mode |-> 1],
    [kind |-> "algebraic", names |-> <<A(1) \o A(2), A(1)>>, mode |-> 2],
    [kind |-> "algebraic", names |-> DefaultNames(11), mode |-> 0],
    [kind |-> "locality", pn |-> <<NameOf(0, TRUE), NameOf(1, TRUE)>>, mn |-> << <<A(1), A(2)>>, <<A(1)>> >>, shape |-> << <<2, 3>>, <<12>> >>],
    [kind |-> "inflation", outcomes |-> <<2, 2>>, src |-> << <<0>>, <<0, 1>> >>, sources |-> 2, level |-> 2],
    [kind |-> "inflation", outcomes |-> <<3, 2, 0>>, src |-> << <<0>>, <<0>>, <<>> >>, sources |-> 1, level |-> 3],
    [kind |-> "inflation", outcomes |-> <<2>>, src |-> << <<0, 1>> >>, sources |-> 2, level |-> 10],
    [kind |-> "pauli", n |-> 36] >>

VARIABLES c, w, k
vars == <<c, w, k>>
Named(cc) == LET N == Notation(cc, FALSE) IN [N EXCEPT !.one = Force(N.one)]
Size(cc) == Len(cc.one)
Few(cc) == LET n == Size(cc) IN {0, 1, n - 1} \cup (IF n > 11 THEN {10, 11} ELSE {n \div 2})
(* words are grown from a few operators; k counts the names and terms checked besides *)
Init == c \in {Named(Contexts[j]) : j \in 1..Len(Contexts)} /\ w = <<>> /\ k = 0
Next == \/ Len(w) < MaxLen /\ k = 0 /\ (\E x \in Few(c) : w' = Append(w, x)) /\ UNCHANGED <<c, k>>
        \/ w = <<>> /\ c.kind = "free" /\ k < MaxName /\ k' = k + 1 /\ UNCHANGED <<c, w>>
Spec == Init /\ [][Next]_vars

Words(cc, len) == UNION {[1..l -> Few(cc)] : l \in 0..len}
(* every element has its own text, with and without braces *)
OwnText == k = 0 =>
    \A s \in 0..3 : \A u \in Words(c, Len(w)) : \A z \in 0..3 :
        <<s, w>> # <<z, u>> => ElementText(c, [s |-> s, w |-> w], FALSE) # ElementText(c, [s |-> z, w |-> u], FALSE)
OwnName == \A j \in 0..(k - 1) : NameOf(j, TRUE) # NameOf(k, TRUE) /\ NameOf(j, FALSE) # NameOf(k, FALSE)
OneName == \A x, y \in 1..Size(c) : x # y => c.one[x] # c.one[y]
Length == \A len \in 1..4 : Len(NameOf(k, TRUE)) = len <=> k >= FirstOfLength(len) /\ k < FirstOfLength(len + 1)
ReadBack == \A f \in {1, 2, 37} : \A cj \in BOOLEAN :
    LET style == [ops |-> FALSE, join |-> 2, hash |-> TRUE, braces |-> FALSE, plus |-> FALSE] t == <<k + 2, f, 0, IF cj THEN 1 ELSE 0>> IN
    ReadTerm(TermText(c, <<>>, t, style, FALSE)) = [ok |-> TRUE, id |-> k + 2, f |-> 1000 * f, cj |-> cj]
=============================================================================
