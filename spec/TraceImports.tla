---------------------------- MODULE TraceImports ----------------------------
(* Validates recorded histories of systems of imported matrices against Imports. *)
EXTENDS Imports, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

(* state: what is known of each symbol, the table last seen, and for every matrix the cells it *)
(* was given (lists of terms), whether it must be called Hermitian, and how it was last seen     *)
Start(e) == [k |-> "on", real |-> e.real, dom |-> Fresh, tab |-> <<>>, mats |-> <<>>, seen |-> <<>>]

Cells1(c) == Force([k \in 1..Len(c) |-> <<c[k]>>])
Clean(p) == SelectSeq(p, LAMBDA t : t[1] # 0)

JudgeImport(S, e) ==
    LET ok == Acceptable(S.real, S.dom, e) IN
    IF e.res = "ok" THEN IF ~ok THEN "imported a matrix it should refuse"
                         ELSE IF e.off # Len(S.mats) \/ e.n # Len(S.mats) + 1 THEN "index of the new matrix" ELSE ""
    ELSE IF e.res # "refused" THEN "exception: " \o e.res
    ELSE IF ok THEN "refused a matrix it should import" ELSE IF e.n # Len(S.mats) THEN "number of matrices" ELSE ""
ImportStep(S, e) ==
    [why |-> JudgeImport(S, e),
     st |-> IF e.res # "ok" THEN S
            ELSE [S EXCEPT !.dom = LinesAfter(S.real, S.dom, e),
                           !.mats = Append(@, [d |-> e.d, x |-> Cells1(e.c), herm |-> e.herm, mono |-> TRUE]), !.seen = Append(@, <<>>)]]

(* a matrix made from others *)
OpCells(S, e) ==
    LET x == S.mats[e.src + 1].x IN
    CASE e.op = "clone" -> x
      [] e.op = "add" -> [k \in 1..Len(x) |-> x[k] \o S.mats[e.rhs + 1].x[k]]
      [] e.op = "addp" -> [k \in 1..Len(x) |-> x[k] \o e.sp]
      [] e.op = "mul" -> IF e.sp = <<>> \/ e.sp[1][1] = 0 THEN [k \in 1..Len(x) |-> <<>>] ELSE [k \in 1..Len(x) |-> ScaleBy(TC(e.sp[1]), x[k])]
CellsHermitian(tab, x, d) ==
    \A k \in 1..Len(x) : Equal(tab, Clean(x[k]), Dagger(tab, Clean(x[Opposite(k, d)])))
OpMayThrow(S, e) ==
    CASE e.op = "add" -> S.mats[e.src + 1].d # S.mats[e.rhs + 1].d
      [] e.op \in {"clone", "addp"} -> ~S.mats[e.src + 1].mono
      [] e.op = "mul" -> ~S.mats[e.src + 1].mono \/ (e.sp # <<>> /\ e.sp[1] # <<1, 1, 0, 0>>)
MustBeHermitian(S, e, x, d) == IF e.op \in {"add", "addp"} THEN CellsHermitian(S.tab, x, d) ELSE S.mats[e.src + 1].herm
OpStep(S, e) ==
    IF "threw" \in DOMAIN e THEN [why |-> IF OpMayThrow(S, e) THEN "" ELSE "exception: " \o e.threw, st |-> S]
    ELSE LET x == Force(OpCells(S, e)) d == S.mats[e.src + 1].d IN
         [why |-> IF e.off # Len(S.mats) \/ e.n # e.off + 1 THEN "index of the new matrix" ELSE "",
          st |-> [S EXCEPT !.mats = Append(@, [d |-> d, x |-> x, mono |-> e.mono, herm |-> MustBeHermitian(S, e, x, d)]),
                           !.seen = Append(@, <<>>)]]

JudgeTable(S, e) ==
    IF Len(e.t) # Len(S.dom) THEN "number of symbols"
    ELSE IF \E k \in 1..Len(e.t) : e.t[k].id # k - 1 \/ (k <= 2) # e.t[k].has THEN "symbol"
    ELSE IF ~e.t[1].h \/ ~e.t[1].ah \/ e.t[1].re # -1 \/ e.t[1].im # -1 \/ ~e.t[2].h \/ e.t[2].ah THEN "zero or identity"
    ELSE IF \E k \in 3..Len(e.t) : e.t[k].h # (S.dom[k] = "R") \/ e.t[k].ah # (S.dom[k] = "I") THEN "which symbols are real or imaginary"
    ELSE IF \E k \in 2..Len(e.t) : (e.t[k].re >= 0) # ~e.t[k].ah \/ (e.t[k].im >= 0) # ~e.t[k].h THEN "parts of a symbol"
    ELSE IF ~BasisListsOK(e.t, e) THEN "basis lists of the symbol table"
    ELSE ""
JudgeMat(S, e) ==
    IF e.off \notin 0..(Len(S.mats) - 1) THEN "unknown matrix"
    ELSE LET r == S.mats[e.off + 1] tab == S.tab IN
    IF e.dim # r.d \/ Len(e.m) # r.d * r.d \/ e.mono # r.mono THEN "dimension"
    ELSE IF ~SelfDescriptionOK(tab, e) THEN "included symbols"
    ELSE IF \E k \in 1..Len(e.m) : ~Equal(tab, Clean(e.m[k]), Clean(r.x[k])) THEN "cell"
    ELSE IF \E k \in 1..Len(e.m) : ~WellFormed(tab, "id", Clean(e.m[k])) THEN "form of a cell"
    ELSE IF e.herm /\ ~CellsHermitian(tab, r.x, r.d) THEN "said to be hermitian"
    ELSE IF r.herm /\ ~e.herm THEN "said not to be hermitian"
    ELSE IF ~BasisCoverOK(tab, e) THEN "basis elements"
    ELSE IF e.opm # <<>> \/ e.alm # <<>> THEN "operators of an imported matrix"
    ELSE ""

Step(S, e) ==
    CASE e.e = "imp" -> ImportStep(S, e)
      [] e.e = "op" -> OpStep(S, e)
      [] e.e = "sym" -> [why |-> JudgeTable(S, e), st |-> [S EXCEPT !.tab = e.t]]
      [] e.e = "mat" -> [why |-> JudgeMat(S, e), st |-> IF e.off < Len(S.seen) THEN [S EXCEPT !.seen[e.off + 1] = e] ELSE S]
      [] e.e = "basis" -> [why |-> BasisVerdict(S.tab, S.seen[e.off + 1], e), st |-> S]
      [] OTHER -> [why |-> "event not allowed by the specification: " \o e.e, st |-> S]

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "new" THEN st' = Start(e) /\ bad' = bad
       ELSE LET r == IF st.k = "none" THEN [why |-> "no system", st |-> st] ELSE Step(st, e) IN
            /\ st' = r.st
            /\ bad' = (bad \/ r.why # "")
            /\ r.why # "" => Reject(r.why)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
