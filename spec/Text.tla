-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Names and notation.  A text is a sequence of character codes.  Every     *)
(* operator of a scenario has one name; a word is written as its phase and  *)
(* the names of its operators, a polynomial as its terms.  TextMC shows     *)
(* that the notation tells different elements apart.                        *)
(***************************************************************************)
EXTENDS Moments

(* ---- characters ------------------------------------------------------------ *)
Space == 32 Hash == 35 Open == 40 Close == 41 Star == 42 Plus == 43 Comma == 44 Dash == 45 Dot == 46
Semi == 59 Less == 60 More == 62 BraL == 91 BraR == 93 LetI == 105 Bar == 124 LetX == 88
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsLetter(c) == IsUpper(c) \/ IsLower(c)

RECURSIVE Number(_)
Number(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Number(n \div 10), 48 + (n % 10))
Signed(n) == IF n < 0 THEN <<Dash>> \o Number(0 - n) ELSE Number(n)
(* A, B, ... Z, AA, AB, ... *)
RECURSIVE Letters(_, _)
Letters(id, first) == IF id < 26 THEN <<first + id>> ELSE Append(Letters(id \div 26 - 1, first), first + (id % 26))
NameOf(id, upper) == Letters(id, IF upper THEN 65 ELSE 97)
RECURSIVE FirstOfLength(_)
FirstOfLength(len) == IF len <= 1 THEN 0 ELSE 26 * (FirstOfLength(len - 1) + 1)
RECURSIVE Join(_, _)
Join(parts, sep) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o Join(Tail(parts), sep)

(* ---- names chosen by the user ------------------------------------------------ *)
ValidName(t) == t # <<>> /\ IsLetter(t[1]) /\ \A k \in 2..Len(t) : IsLetter(t[k]) \/ IsDigit(t[k]) \/ t[k] \in {95, Dot, Bar}
ValidNames(names, n) == Len(names) = n /\ (\A k \in 1..n : ValidName(names[k])) /\ (\A j, k \in 1..n : j # k => names[j] # names[k])
DefaultNames(n) == [k \in 1..n |-> <<LetX>> \o Number(k)]
(* mode 0: every operator is its own adjoint; 1: adjoints after all operators; 2: each adjoint after its operator *)
OperatorNames(names, mode) ==
    LET adj(t) == Append(t, Star) n == Len(names) IN
    CASE mode = 0 -> names
      [] mode = 1 -> names \o [k \in 1..n |-> adj(names[k])]
      [] mode = 2 -> [k \in 1..(2 * n) |-> IF k % 2 = 1 THEN names[(k + 1) \div 2] ELSE adj(names[k \div 2])]
(* the operator a name stands for, -1: none *)
Lookup(names, mode, t) ==
    LET all == OperatorNames(names, mode)
        hit == {k \in 1..Len(all) : all[k] = t \/ (mode = 0 /\ Append(all[k], Star) = t)}
    IN IF hit = {} THEN 0 - 1 ELSE Min(hit) - 1
AllSingle(names) == \A k \in 1..Len(names) : Len(names[k]) = 1

(* ---- words -------------------------------------------------------------------- *)
(* N: notation of a scenario.  N.kind, N.one[o+1]: name of operator o, N.sep      *)
PhaseText(k) == CASE k = 0 -> <<>> [] k = 1 -> <<LetI>> [] k = 2 -> <<Dash>> [] k = 3 -> <<Dash, LetI>>
Braced(t, braces) == IF braces THEN <<Less>> \o t \o <<More>> ELSE t
WordText(N, w, braces) ==
    IF w = <<>> THEN (IF N.kind = "pauli" THEN Braced(<<73>>, braces) ELSE <<49>>)
    ELSE Braced(Join([k \in 1..Len(w) |-> N.one[w[k] + 1]], N.sep), braces)
ElementText(N, q, braces) ==
    IF q.s > 3 THEN <<48>>
    ELSE IF q.w = <<>> /\ q.s \in {1, 3} /\ N.kind # "pauli" THEN PhaseText(q.s)
    ELSE PhaseText(q.s) \o WordText(N, q.w, braces)

(* an observable without a source has the single copy 0 *)
Digits(idx, level) == IF idx = <<>> THEN <<48>> ELSE Join([k \in 1..Len(idx) |-> Number(idx[k])], IF level > 9 THEN <<Comma>> ELSE <<>>)
ObservableText(raw, t) ==
    LET three == \E o \in 1..Len(raw.outcomes) : raw.outcomes[o] > 2
        copy == IF raw.level > 1 THEN (IF three THEN <<BraL>> \o Digits(t.idx, raw.level) \o <<BraR>> ELSE Digits(t.idx, raw.level)) ELSE <<>>
    IN [name |-> NameOf(t.o - 1, TRUE), copy |-> copy]
InflationNames(raw) ==
    LET tab == Force(OpTable(raw)) IN
    [x \in 1..Len(tab) |-> LET n == ObservableText(raw, tab[x]) IN
        n.name \o (IF raw.outcomes[tab[x].o] > 2 THEN Number(tab[x].k) ELSE <<>>) \o n.copy]
(* c.pn[p]: names of parties, c.mn[p][m]: of their measurements; c.shape[p][m]: numbers of outcomes *)
LocalityTable(c) ==
    FoldLeft(LAMBDA acc, p : FoldLeft(LAMBDA a, m : a \o [k \in 1..(c.shape[p][m] - 1) |-> [p |-> p, m |-> m, k |-> k - 1]], acc, [m \in 1..Len(c.shape[p]) |-> m]),
             <<>>, [p \in 1..Len(c.shape) |-> p])
Natural(c, p, m, k) == c.pn[p] \o <<Dot>> \o c.mn[p][m] \o Number(k)
Traditional(c, p, m, k) == c.pn[p] \o Number(k) \o <<Bar>> \o Number(m - 1)
LocalityNames(c, traditional) ==
    LET t == Force(LocalityTable(c)) IN [x \in 1..Len(t) |-> IF traditional THEN Traditional(c, t[x].p, t[x].m, t[x].k) ELSE Natural(c, t[x].p, t[x].m, t[x].k)]
PauliName(x) == <<88 + (x % 3)>> \o Number(x \div 3 + 1)
Notation(c, traditional) ==
    CASE c.kind = "algebraic" -> [kind |-> c.kind, one |-> OperatorNames(c.names, c.mode), sep |-> IF AllSingle(c.names) THEN <<>> ELSE <<Semi>>]
      [] c.kind = "locality"  -> [kind |-> c.kind, one |-> LocalityNames(c, traditional), sep |-> <<Semi>>]
      [] c.kind = "inflation" -> [kind |-> c.kind, one |-> InflationNames(c), sep |-> <<Semi>>]
      [] c.kind = "pauli"     -> [kind |-> c.kind, one |-> [x \in 1..c.n |-> PauliName(x - 1)], sep |-> <<>>]
      [] OTHER                -> [kind |-> c.kind, one |-> [x \in 1..c.n |-> <<LetX>> \o Number(x)], sep |-> <<Semi>>]

(* ---- terms and polynomials ------------------------------------------------------ *)
(* style: ops (write words, else symbol numbers), join, hash, braces, plus (written after something) *)
FactorText(re, im, scalar, plus) ==    \* [t, whole]: whole - something stands there, so a separator follows
    IF im = 0 THEN LET bare == ~scalar /\ (re = 1 \/ re = 0 - 1) IN
        [t |-> (IF plus THEN (IF re > 0 THEN <<Space, Plus, Space>> ELSE <<Space, Dash, Space>>) ELSE IF re < 0 THEN <<Dash>> ELSE <<>>)
               \o (IF bare THEN <<>> ELSE Number(IF re < 0 THEN 0 - re ELSE re)), whole |-> ~bare]
    ELSE IF re = 0 THEN
        [t |-> (IF plus THEN (IF im > 0 THEN <<Space, Plus, Space>> ELSE <<Space, Dash, Space>>) ELSE IF im < 0 THEN <<Dash>> ELSE <<>>)
               \o (IF im \in {1, 0 - 1} THEN <<>> ELSE Number(IF im < 0 THEN 0 - im ELSE im)) \o <<LetI>>, whole |-> TRUE]
    ELSE [t |-> (IF plus THEN <<Space, Plus, Space>> ELSE <<>>) \o <<Open>> \o Signed(re) \o <<Space, Plus, Space>> \o Signed(im) \o <<LetI, Close>>, whole |-> TRUE]
JoinText(style) == CASE style.join = 0 -> <<Space>> [] style.join = 1 -> <<Star>> [] style.join = 2 -> <<>>
SymbolNumber(x, cj, style) == (IF style.hash THEN <<Hash>> ELSE <<>>) \o Number(x) \o (IF cj THEN <<Star>> ELSE <<>>)
(* words[x+1]: [q, cq] the words of symbol x and of its adjoint *)
TermText(N, words, t, style, plus) ==
    IF t[1] = 0 \/ (t[2] = 0 /\ t[3] = 0) THEN (IF plus THEN <<Space, Plus, Space>> ELSE <<>>) \o <<48>>
    ELSE LET f == FactorText(t[2], t[3], t[1] = 1, plus) IN
         IF t[1] = 1 THEN f.t
         ELSE f.t \o (IF f.whole THEN JoinText(style) ELSE <<>>)
              \o (IF style.ops /\ words[t[1] + 1].has THEN ElementText(N, IF t[4] = 1 THEN words[t[1] + 1].cq ELSE words[t[1] + 1].q, style.braces)
                  ELSE SymbolNumber(t[1], t[4] = 1, style))
PolyText(N, words, p, style) ==
    IF p = <<>> THEN (IF style.plus THEN <<Space, Plus, Space>> ELSE <<>>) \o <<48>>
    ELSE FoldLeft(LAMBDA acc, k : acc \o TermText(N, words, p[k], style, style.plus \/ k > 1), <<>>, [k \in 1..Len(p) |-> k])

(* ---- reading a term: "factor#symbol*", "symbol", "-symbol", "3.5" --------------- *)
(* factors are counted in thousandths *)
AllDigits(t) == \A k \in 1..Len(t) : IsDigit(t[k])
Unsigned(t) == IF t # <<>> /\ t[1] \in {Dash, Plus} THEN Tail(t) ELSE t
Negative(t) == t # <<>> /\ t[1] = Dash
Positions(t, c) == {k \in 1..Len(t) : t[k] = c}
Whole(t) == LET u == Unsigned(t) IN u # <<>> /\ AllDigits(u)
Decimal(t) ==
    LET u == Unsigned(t) d == Positions(u, Dot) IN
    /\ Cardinality(d) <= 1
    /\ \E k \in 1..Len(u) : IsDigit(u[k])
    /\ \A k \in 1..Len(u) : IsDigit(u[k]) \/ u[k] = Dot
ValueOf(ds) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, ds)
Thousandths(t) ==
    LET u == Unsigned(t) d == Positions(u, Dot)
        a == IF d = {} THEN u ELSE SubSeq(u, 1, Min(d) - 1)
        b == IF d = {} THEN <<>> ELSE SubSeq(u, Min(d) + 1, Len(u))
        v == 1000 * ValueOf(a) + ValueOf(SubSeq(b \o <<48, 48, 48>>, 1, 3))
    IN IF Negative(t) THEN 0 - v ELSE v
MaxText == 32
NoTerm == [ok |-> FALSE, id |-> 0, f |-> 0, cj |-> FALSE]
ReadTerm(t) ==
    LET h == Positions(t, Hash)
        hashed == h # {}
        front == IF hashed THEN SubSeq(t, 1, Min(h) - 1) ELSE <<>>
        rest0 == IF hashed THEN SubSeq(t, Min(h) + 1, Len(t)) ELSE t
        cj == t # <<>> /\ t[Len(t)] = Star
        rest == IF cj THEN SubSeq(rest0, 1, Len(rest0) - 1) ELSE rest0
    IN IF t = <<>> \/ Len(t) > MaxText THEN NoTerm
       ELSE IF ~hashed /\ Positions(t, Dot) # {} THEN (IF Decimal(t) THEN [ok |-> TRUE, id |-> 1, f |-> Thousandths(t), cj |-> FALSE] ELSE NoTerm)
       ELSE IF hashed /\ front # <<>> /\ ~Decimal(front) THEN NoTerm
       ELSE IF ~Whole(rest) \/ Len(Unsigned(rest)) > 9 THEN NoTerm
       ELSE LET x == ValueOf(Unsigned(rest)) neg == Negative(rest) /\ x # 0 IN
            IF hashed THEN (IF neg THEN NoTerm ELSE [ok |-> TRUE, id |-> x, f |-> IF front = <<>> THEN 1000 ELSE Thousandths(front), cj |-> cj])
            ELSE [ok |-> TRUE, id |-> x, f |-> IF neg THEN 0 - 1000 ELSE 1000, cj |-> cj]
=============================================================================
