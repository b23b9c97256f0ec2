---------------------------- MODULE TraceSymmetry ----------------------------
(* Validates recorded histories of symmetry groups and derived systems of moments. *)
EXTENDS Symmetry, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

SoundCols(m) == \A c \in 1..Len(m) : \A k \in 1..Len(m[c]) : m[c][k][3] > 0
JudgeGroup(e) ==
    LET g == {Dense(e.dim, e.gens[k]) : k \in 1..Len(e.gens)} IN
    IF e.gens # <<>> /\ ~ReturnsWithin(Dense(e.dim, e.gens[1]), Dense(e.dim, e.gens[1]), 60) THEN (IF e.res = "endless" THEN "" ELSE "generator of infinite order")
    ELSE IF e.res # "ok" THEN "group refused"
    ELSE IF \E k \in 1..Len(e.out) : ~SoundCols(e.out[k]) THEN "element of a group"
    ELSE LET el == {Dense(e.dim, e.out[k]) : k \in 1..Len(e.out)} IN
         IF el # GroupOf(e.dim, g) THEN "elements of a generated group"
         ELSE IF Cardinality(el) # Len(e.out) THEN "element of a group repeated" ELSE ""

(* the action of every element on words of length at most e.len *)
JudgeRep(S, e) ==
    LET n == Cardinality({k \in 1..Len(S.words) : Len(S.words[k]) <= e.len}) IN
    IF ~e.same \/ Len(e.out) # Len(S.img) THEN "representation"
    ELSE IF \E g \in 1..Len(e.out) : Len(e.out[g]) # n \/ ~SoundCols(e.out[g]) THEN "dimension of a representation"
    ELSE IF \E g \in 1..Len(e.out) : \E k \in 1..n : DenseCol(n, e.out[g][k]) # RowOfTerms(n, S.img[g][k], 2) THEN "image of a word"
    ELSE IF ~SoundCols(e.sum) \/ Len(e.sum) # n
            \/ \E k \in 1..n : DenseCol(n, e.sum[k]) # RowOfTerms(n, FoldLeft(LAMBDA acc, g : acc \o g[k], <<>>, S.img), 2) THEN "sum over the group" ELSE ""

JudgeMap(S, e) ==
    LET n == Len(e.inv) tgt == e.tgt IN
    IF ~e.from \/ e.longest # (IF S.direct THEN 1000000 ELSE S.len) THEN "what a map relates"
    ELSE IF Len(e.fwd) # Len(S.tab) \/ n # e.rank + 2 \/ Len(tgt) # n THEN "size of a map"
    ELSE IF e.oob # "bbbbbb" THEN "symbol out of range"
    ELSE IF \E k \in 1..n : ~Sound(e.inv[k]) THEN "coefficient of an inverse map"
    ELSE IF \E k \in 1..Len(e.fwd) : ~Sound(e.fwd[k].p) THEN "coefficient of a map"
    ELSE IF \E k \in 1..Len(e.fwd) : \E j \in 1..Len(e.fwd[k].p) : e.fwd[k].p[j][1] \notin 0..(n - 1) THEN "symbol that does not exist"
    ELSE LET inv == Force([k \in 1..n |-> Terms(e.inv[k])]) IN
         IF inv[1] # <<>> \/ inv[2] # <<<<1, 1, 0, 0>>>> THEN "zero and one"
         ELSE IF \E k \in 1..Len(e.fwd) : e.fwd[k].ok # S.exp[k].ok THEN "which symbols are mapped"
         ELSE IF \E k \in 1..Len(e.fwd) : e.fwd[k].ok /\ ~Same(S, Through(inv, Terms(e.fwd[k].p)), S.exp[k].p) THEN "average of a symbol"
         ELSE IF ~HasAliases(S.c) /\ RealAverages(S) /\ e.rank # RankOf(S) THEN "number of new symbols"
         ELSE IF \E k \in 3..n : ~(IsReal(S, inv[k]) /\ IsImag(S, inv[k])) /\ (tgt[k].h # IsReal(S, inv[k]) \/ tgt[k].ah # IsImag(S, inv[k]) \/ (tgt[k].re >= 0) # ~tgt[k].ah \/ (tgt[k].im >= 0) # ~tgt[k].h) THEN "kind of a new symbol"
         ELSE IF e.mono # (\A k \in 1..Len(e.fwd) : Len(e.fwd[k].p) <= 1) THEN "whether a map is monomial" ELSE ""

JudgeApply(S, e) ==
    LET p == Terms(e.p) IN
    IF e.ok # Mapped(S, p) THEN "whether a polynomial can be mapped"
    ELSE IF ~e.ok THEN ""
    ELSE IF ~Sound(e.out) \/ ~Same(S, Through(S.inv, Terms(e.out)), Expect(S, p)) THEN "image of a polynomial" ELSE ""
JudgeBack(S, e) == IF ~Sound(e.out) \/ ~Same(S, Terms(e.out), Through(S.inv, Terms(e.p))) THEN "inverse image" ELSE ""

(* ---- derived matrices -------------------------------------------------------- *)
Defining(S, d) == IF d.k = "sym" THEN [k \in 1..Len(d.p) |-> [q |-> IF d.p[k][6] = 1 THEN S.tab[d.p[k][1] + 1].cq ELSE S.tab[d.p[k][1] + 1].q, c |-> <<d.p[k][2], d.p[k][4]>>]]
                  ELSE [k \in 1..Len(d.p) |-> [q |-> d.p[k].q, c |-> <<d.p[k].re, d.p[k].im>>]]
Degree(ts) == FoldLeft(LAMBDA acc, t : IF Len(t.q.w) > acc THEN Len(t.q.w) ELSE acc, 0, ts)
Upto(S, lvl) == SelectSeq(S.words, LAMBDA w : Len(w) <= lvl)
Operators(S, d) ==
    LET fwd == Force([k \in 1..Len(Upto(S, d.lvl)) |-> Plain(Upto(S, d.lvl)[k])])
        conj == Force([k \in 1..Len(fwd) |-> Conj(S.c, fwd[k])])
    IN IF d.k = "mm" THEN Force(MomentCells(S.c, fwd, conj)) ELSE Force(LocalizingCells(S.c, fwd, conj, Force(Defining(S, d))))
AllShort(S, cells) == \A k \in 1..Len(cells) : \A j \in 1..Len(cells[k]) : IsZero(cells[k][j].q) \/ Len(cells[k][j].q.w) <= S.len
CellSymbols(S, cell) ==
    Force([j \in 1..Len(SelectSeq(cell, LAMBDA t : ~IsZero(t.q))) |->
        LET t == SelectSeq(cell, LAMBDA u : ~IsZero(u.q))[j]
            a == S.ws[S.num[t.q.w]]
            c == PhaseOn((t.q.s + a[2]) % 4, <<Mod(t.c[1], P), Mod(t.c[2], P)>>)
        IN <<a[1], c[1], c[2], a[3]>>])
TargetCells(S, e) == \* the recorded matrix equals its conjugate transpose
    \A r, c \in 0..(e.dim - 1) : r <= c =>
        LET T == S.target x == Terms(e.m[(r * e.dim) + c + 1]) y == Terms(e.m[(c * e.dim) + r + 1]) IN
        ReRow(T, x) = ReRow(T, y) /\ ImRow(T, x) = Force([k \in 1..Width(T) |-> Minus(ImRow(T, y)[k])])
Key(e) == IF e.how = "der" THEN <<"der", e.src>> ELSE <<e.how, e.def>>
JudgeMatrix(S, e) ==
    LET d == e.def
        need == 2 * d.lvl + (IF d.k = "mm" THEN 0 ELSE Degree(Defining(S, d)))
    IN IF d.k = "none" THEN (IF e.res = "bad" THEN "" ELSE "matrix that does not exist")
       ELSE IF ~S.direct /\ e.how # "der" /\ need > S.len THEN (IF e.res = "large" THEN "" ELSE "words too long for the map")
       ELSE IF d.lvl > S.len THEN (IF e.res = "map" THEN "" ELSE "symbols outside the map")
       ELSE LET cells == Operators(S, d) IN
            IF ~AllShort(S, cells) THEN (IF e.res = "map" THEN "" ELSE "symbols outside the map")
            ELSE IF e.res # "ok" THEN "matrix refused"
            ELSE IF ~e.at \/ e.off > S.count THEN "place of a matrix"
            ELSE IF Key(e) \in DOMAIN S.made /\ S.made[Key(e)] # e.off THEN "matrix made twice"
            ELSE IF e.dim * e.dim # Len(cells) \/ Len(e.m) # Len(cells) THEN "dimension of a matrix"
            ELSE IF e.mono # (S.mono /\ d.k # "sym") THEN "kind of a matrix"
            ELSE IF \E k \in 1..Len(cells) : ~Sound(e.m[k]) \/ \E j \in 1..Len(e.m[k]) : e.m[k][j][1] \notin 0..(Len(S.inv) - 1) THEN "cell of a matrix"
            ELSE IF \E k \in 1..Len(cells) : ~Same(S, Through(S.inv, Terms(e.m[k])), Expect(S, CellSymbols(S, cells[k]))) THEN "average of a cell"
            ELSE IF ~S.direct /\ e.herm /\ ~TargetCells(S, e) THEN "matrix is not Hermitian"
            ELSE IF ~S.direct /\ ~e.herm /\ OperatorHermitian(S.c, cells, e.dim) /\ TargetCells(S, e) THEN "matrix is Hermitian" ELSE ""

(* ---- a transformation split into constants, offset and core ---------------------- *)
JudgeCore(e) ==
    LET m == Dense(e.hh, e.m)
        unit == [Nil(e.hh) EXCEPT ![1] = 1]
        skip == {e.skip[k] : k \in 1..Len(e.skip)}
        cst(j) == {k \in 1..Len(e.consts) : e.consts[k][1] = j}
        pos(j) == {k \in 1..Len(e.cols) : e.cols[k] = j}
        core == Dense(e.h, e.core)
        row(p) == FoldLeft(LAMBDA v, q : [v EXCEPT ![e.rows[q] + 1] = core[q][p]], [Nil(e.hh) EXCEPT ![1] = Frac(e.off[p][1], e.off[p][2])], [q \in 1..Len(e.rows) |-> q])
        map == Dense(e.h, e.map) inv == Dense(e.ih, e.inv)
    IN IF m[1] # unit THEN (IF e.res = "bad" THEN "" ELSE "map that does not keep one")
       ELSE IF e.res # "ok" THEN "map refused"
       ELSE IF e.initial # e.ww \/ Len(e.cols) # e.h \/ Len(e.rows) # e.w \/ Len(e.core) # e.w \/ Len(e.off) # e.h THEN "size of a core"
       ELSE IF \E k \in 1..Len(e.rows) : e.rows[k] \notin 1..(e.hh - 1) THEN "rows of a core"
       ELSE IF ~SoundCols(e.core) \/ \E k \in 1..Len(e.off) : e.off[k][2] <= 0 THEN "coefficient of a core"
       ELSE IF \E j \in 0..(e.ww - 1) : Cardinality(cst(j)) + Cardinality(pos(j)) # (IF j = 0 \/ j \in skip THEN 0 ELSE 1) THEN "columns of a core"
       ELSE IF \E k \in 1..Len(e.consts) : m[e.consts[k][1] + 1] # [Nil(e.hh) EXCEPT ![1] = Frac(e.consts[k][2], e.consts[k][3])] THEN "constant of a map"
       ELSE IF \E p \in 1..Len(e.cols) : m[e.cols[p] + 1] # row(p) THEN "core of a map"
       ELSE IF \E p \in 1..Len(e.cols) : m[e.cols[p] + 1] = [Nil(e.hh) EXCEPT ![1] = m[e.cols[p] + 1][1]] THEN "constant taken for a variable"
       ELSE IF \E q \in 1..Len(e.rows) : \A p \in 1..Len(e.cols) : core[q][p] = 0 THEN "row that is not needed"
       ELSE IF e.nosolve # (e.out /\ e.h > 0 /\ e.w > 0) THEN "whether a core is solved"
       ELSE IF e.nosolve THEN ""
       ELSE IF e.trivial # (e.h = 0 \/ e.w = 0) THEN "trivial core"
       ELSE IF e.trivial THEN (IF e.rank = 0 /\ e.chk = "n" THEN "" ELSE "solution of a trivial core")
       ELSE IF e.rank # Len(InsertAll(<<>>, core)) THEN "rank of a core"
       ELSE IF ~e.dense \/ e.mw # e.rank \/ e.ih # e.rank \/ ~SoundCols(e.map) \/ ~SoundCols(e.inv) THEN "solution of a core"
       ELSE IF MatMul(map, inv) # core THEN "solution of a core"
       ELSE IF e.chk # "niiiiiniiiii" THEN "solution of the wrong size" ELSE ""

Judge(S, e) ==
    IF "threw" \in DOMAIN e THEN "exception: " \o e.threw
    ELSE CASE e.e = "group" -> JudgeGroup(e)
           [] e.e = "core" -> JudgeCore(e)
           [] e.e = "empty" -> IF e.res = "bbbb" THEN "" ELSE "map without one"
           [] e.e = "refuse" -> IF e.res = "rrxxx" THEN "" ELSE "representation that cannot exist"
           [] e.e = "rep" -> JudgeRep(S, e)
           [] e.e = "map" -> JudgeMap(S, e)
           [] e.e = "apply" -> JudgeApply(S, e)
           [] e.e = "unapply" -> JudgeBack(S, e)
           [] e.e = "dm" -> JudgeMatrix(S, e)
           [] OTHER -> "event not allowed by the specification: " \o e.e

Fresh(c, e) ==
    LET ws == Force([k \in 1..Len(e.words) |-> e.words[k].w])
        ok == /\ \A k \in 1..Len(ws) : e.words[k].s = 0 /\ (k > 1 => Len(ws[k - 1]) <= Len(ws[k]))
              /\ Range(ws) = CanonicalUpTo(c, e.len) /\ Cardinality(Range(ws)) = Len(ws)
    IN IF ~ok THEN [k |-> "wrong"]
       ELSE LET num == Numbering(ws) d1 == Cardinality({k \in 1..Len(ws) : Len(ws[k]) <= 1}) IN
            [k |-> "ctx", c |-> c, order |-> e.order, len |-> e.len, tab |-> <<>>, nre |-> 0, nim |-> 0, words |-> ws, num |-> num,
             right |-> RightTable(c, ws, num, d1, e.len), img |-> <<>>, avg |-> <<>>, ws |-> <<>>, exp |-> <<>>, inv |-> <<>>, mono |-> FALSE,
             target |-> [tab |-> <<>>, nre |-> 0, nim |-> 0], direct |-> FALSE, made |-> [x \in {} |-> 0], count |-> 0]
Refresh(S) == IF S.tab = <<>> \/ S.avg = <<>> THEN S
              ELSE LET keys == TableKeys(S.c, S.tab)
                       A == [S EXCEPT !.ws = Force([k \in 1..Len(S.words) |-> WordSymbol(S.c, S.tab, keys, S.words[k])])] IN [A EXCEPT !.exp = Expected(A)]
Step(S, e) ==
    CASE e.e = "tab" -> Refresh([S EXCEPT !.tab = e.t, !.nre = e.nre, !.nim = e.nim])
      [] e.e = "group" /\ S.k = "ctx" /\ e.res = "ok" -> LET im == Force([g \in 1..Len(e.out) |-> Images(S, LetterImages(e.out[g]))]) IN [S EXCEPT !.img = im, !.avg = Averages(S, im)]
      [] e.e = "given" -> Refresh([S EXCEPT !.direct = TRUE, !.avg = Force([k \in 1..Len(e.m) |-> Force([j \in 1..Len(e.m[k]) |-> <<e.m[k][j][1] + 1, Frac(e.m[k][j][2], e.m[k][j][3]), 0>>])])])
      [] e.e = "map" -> LET g == {e.tgt[k].re : k \in 1..Len(e.tgt)} h == {e.tgt[k].im : k \in 1..Len(e.tgt)} IN
                        [S EXCEPT !.inv = Force([k \in 1..Len(e.inv) |-> Terms(e.inv[k])]), !.mono = e.mono, !.target = [tab |-> e.tgt, nre |-> Max(g) + 1, nim |-> Max(h) + 1]]
      [] e.e = "dm" /\ "res" \in DOMAIN e /\ e.res = "ok" -> [S EXCEPT !.made = IF Key(e) \in DOMAIN @ THEN @ ELSE @ @@ (Key(e) :> e.off), !.count = IF e.off >= @ THEN e.off + 1 ELSE @]
      [] OTHER -> S

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "free" THEN st' = [k |-> "free"] /\ bad' = FALSE
       ELSE IF e.e = "ctx" THEN LET S == Fresh(MakeContext(e.c), e) IN
            /\ st' = S /\ bad' = (S.k = "wrong")
            /\ bad' => Reject("words of a scenario")
       ELSE IF e.e = "tab" \/ e.e = "given"
       THEN /\ st' = IF st.k = "ctx" THEN Step(st, e) ELSE st
            /\ bad' = (bad \/ st.k \notin {"ctx", "lost"} \/ (st.k = "ctx" /\ e.e = "tab" /\ SubSeq(e.t, 1, Len(st.tab)) # st.tab))
            /\ bad' /\ ~bad => Reject("a registered symbol changed")
       ELSE LET r == IF st.k \in {"none", "wrong"} THEN "no context" ELSE IF st.k = "lost" THEN "" ELSE Judge(st, e) IN
            /\ st' = IF r # "" /\ e.e \in {"map", "rep"} THEN [k |-> "lost"] ELSE IF (r = "" \/ e.e = "dm") /\ st.k = "ctx" THEN Step(st, e) ELSE st
            /\ bad' = (bad \/ r # "")
            /\ r # "" => Reject(r)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
