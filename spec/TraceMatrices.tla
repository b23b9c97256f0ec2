--------------------------- MODULE TraceMatrices ---------------------------
(* Validates recorded histories of a matrix system against Moments.          *)
EXTENDS Lattice, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

Fn0 == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Start(C) == [k |-> "ctx", C |-> C, tab |-> <<>>, map |-> Fn0, osg |-> Fn0, mats |-> Fn0, keys |-> Fn0, next |-> 0]

(* ---- what each operation must produce ------------------------------------ *)
(* by-products of (anti)commutators of polynomials: half the commutator is a product *)
Commutators(S, e) == /\ S.C.kind = "pauli"
                     /\ \E k \in 1..Len(e.m) : e.m[k][1][1] # 0
                     /\ \A k \in 1..Len(e.m) : \A t \in 1..Len(e.m[k]) : e.m[k][t][1] # 0 => {e.m[k][t][2], e.m[k][t][3]} \cap {2, 0 - 2} # {}
TermsGiven(S, e) == IF "rp" \in DOMAIN e THEN TermsOf(e.rp)
                    ELSE IF "sp" \in DOMAIN e THEN Meanings(S.tab, e.sp)
                    ELSE IF "w" \in DOMAIN e THEN <<[q |-> e.w, c |-> One1]>> ELSE <<>>
Nb(e) == IF "nb" \in DOMAIN e THEN e.nb ELSE 0
Gen(S, e) == S.osg[<<e.level, Nb(e)>>]
Cells(S, e) ==
    LET C == S.C IN
    CASE e.op = "mm"   -> Force(MomentCells(C, Gen(S, e).fwd, Gen(S, e).conj))
      [] e.op \in {"lm", "plm", "raw"} -> Force(LocalizingCells(C, Gen(S, e).fwd, Gen(S, e).conj, Force(TermsGiven(S, e))))
      [] e.op \in {"cm", "pcm", "rcm"} -> Force(CommutatorCells(C, Gen(S, e).fwd, Gen(S, e).conj, Force(TermsGiven(S, e)), TRUE))
      [] e.op \in {"am", "pam", "ram"} -> Force(CommutatorCells(C, Gen(S, e).fwd, Gen(S, e).conj, Force(TermsGiven(S, e)), FALSE))
      [] e.op \in {"pre", "post"} -> Force(ProductCells(C, Force(TermsGiven(S, e)), S.mats[e.src].x, e.op = "pre"))
      [] e.op = "add"  -> Force(SumCells(S.mats[e.src].x, S.mats[e.rhs].x))
      [] e.op = "addp" -> LET t == Force(TermsGiven(S, e)) IN Force([k \in 1..Len(S.mats[e.src].x) |-> S.mats[e.src].x[k] \o t])
      [] e.op = "clone" -> S.mats[e.src].x
      [] e.op = "val" -> Force([k \in 1..Len(e.vals) |-> <<[q |-> One, c |-> e.vals[k]]>>])
      [] e.op = "side" -> IF e.opm # <<>> /\ Commutators(S, e) THEN Force([k \in 1..Len(e.opm) |-> <<[q |-> e.opm[k], c |-> <<2, 0>>]>>])
                          ELSE IF e.opm # <<>> THEN Force([k \in 1..Len(e.opm) |-> <<[q |-> e.opm[k], c |-> One1]>>])
                          ELSE Force([k \in 1..Len(e.m) |-> Force(Meanings(S.tab, e.m[k]))])
      [] OTHER -> <<>>

(* A deleted matrix leaves its index behind; asking for it again may fail.    *)
Gone(S, off) == off \in 0..(S.next - 1) /\ off \notin DOMAIN S.mats
IndexOf(S, e) == CASE e.op = "mm" -> <<"mm", e.level, Nb(e)>>
                   [] e.op \in {"lm", "cm", "am"} -> <<e.op, e.level, Nb(e), e.w>>
                   [] e.op \in {"plm", "pcm", "pam"} -> <<e.op, e.level, Nb(e), e.sp>>
                   [] OTHER -> <<>>

(* operations that are allowed to fail, and when *)
Indexed == {"mm", "lm", "plm", "cm", "am", "pcm", "pam"}
MayThrow(S, e) ==
    CASE e.op \in Indexed \cup {"raw", "rcm", "ram"} -> \E off \in 0..(S.next - 1) : Gone(S, off)
      [] e.op = "add" -> S.mats[e.src].dim # S.mats[e.rhs].dim
      [] e.op \in {"pre", "post"} -> ~S.mats[e.src].prod
      [] e.op = "clone" -> ~S.mats[e.src].mono
      [] e.op = "addp" -> ~S.mats[e.src].mono
      [] OTHER -> FALSE

(* the cache: one matrix per index *)
JudgeMatrix(S, e, x) ==
    LET C == S.C d == e.dim tab == S.tab
        key == IndexOf(S, e)
        fresh == e.off = S.next
    IN
    IF Len(e.m) # d * d \/ Len(x) # d * d THEN "dimension"
    ELSE IF e.op # "side" /\ e.n # (IF fresh THEN S.next + 1 ELSE S.next) THEN "number of matrices"
    ELSE IF ~fresh /\ (e.op \notin Indexed \/ e.off \notin DOMAIN S.mats) THEN "offset"
    ELSE IF key # <<>> /\ key \in DOMAIN S.keys /\ e.off # S.keys[key] /\ ~Gone(S, S.keys[key]) THEN "index not remembered"
    ELSE IF ~fresh /\ (S.mats[e.off].m # e.m \/ S.mats[e.off].herm # e.herm) THEN "a matrix in the system changed"
    ELSE IF e.mono /\ \E k \in 1..Len(e.m) : Len(e.m[k]) # 1 THEN "shape of a cell"
    ELSE IF ~SelfDescriptionOK(tab, e) THEN "included symbols"
    ELSE IF \E k \in 1..Len(x) : ~SameMoments(C, x[k], Meanings(tab, e.m[k])) THEN "cell"
    ELSE IF e.op \in {"mm", "lm"} /\ e.opm # <<>> /\ \E k \in 1..Len(x) : e.opm[k] # x[k][1].q THEN "operator cell"
    ELSE IF e.op \in {"mm", "lm"} /\ HasAliases(C) /\ e.alm # <<>> /\ \E k \in 1..Len(x) : KeyEl(C, e.alm[k]) # KeyEl(C, x[k][1].q) THEN "aliased operator cell"
    ELSE IF e.herm /\ ~MomentHermitian(C, x, d) THEN "said to be hermitian"
    ELSE IF e.op = "val" /\ e.ah # MomentHermitian(C, [k \in 1..Len(x) |-> Scaled(x[k], <<0, 1>>)], d) THEN "antihermitian flag"
    ELSE IF e.op \in {"mm", "lm", "val"} /\ ~e.herm /\ MomentHermitian(C, x, d) THEN "said not to be hermitian"
    ELSE IF ~BasisCoverOK(tab, e) THEN "basis elements"
    ELSE ""

JudgeSymbols(S, e, tab) ==
    LET C == S.C IN
    IF e.from # Len(S.tab) THEN "symbol table shrank"
    ELSE IF \E k \in (e.from + 1)..Len(tab) : ~SymbolOK(C, k - 1, tab[k]) THEN "symbol"
    ELSE IF ~NoDoubleKeys(C, tab, e.from, DOMAIN S.map) THEN "two symbols for one moment"
    ELSE IF \E k \in (e.from + 1)..Len(tab) : ~SymbolFlagsOK(C, k - 1, tab[k]) THEN "hermiticity or basis indices of a symbol"
    ELSE ""

JudgeOsg(S, e) ==
    LET C == S.C
        ws == {e.fwd[k].w : k \in 1..Len(e.fwd)}
    IN
    IF \E k \in 1..Len(e.fwd) : e.fwd[k].s # 0 THEN "sign of a generated word"
    ELSE IF Cardinality(ws) # Len(e.fwd) THEN "repeated word"
    ELSE IF ws # CanonicalUpTo(C, e.level) THEN "generated words"
    ELSE IF e.e = "osg" /\ e.conj # [k \in 1..Len(e.fwd) |-> Conj(C, e.fwd[k])] THEN "conjugates of generated words"
    ELSE IF e.e = "osg" /\ (e.count # Len(e.fwd) \/ e.size # Len(e.fwd)) THEN "word count"
    ELSE IF \E L \in DOMAIN S.osg : LET o == S.osg[L].fwd IN
              IF L[2] # 0 THEN FALSE ELSE IF L[1] <= e.level THEN SubSeq(e.fwd, 1, Len(o)) # o ELSE SubSeq(o, 1, Len(e.fwd)) # e.fwd THEN "order of generated words"
    ELSE ""

JudgeNosg(S, e) ==
    LET C == S.C ws == Force([k \in 1..Len(e.fwd) |-> e.fwd[k].w]) IN
    IF \E k \in 1..Len(e.fwd) : e.fwd[k].s # 0 THEN "sign of a generated word"
    ELSE IF ~AllWordsOn(C, ws, NNSupports(C, e.level, e.nb)) THEN "nearest-neighbour generators"
    ELSE IF e.conj # e.fwd THEN "conjugates of generated words"
    ELSE IF e.count # Len(e.fwd) \/ e.size # Len(e.fwd) THEN "word count"
    ELSE ""

Denotes(C, y, conj, q) == KeyEl(C, [s |-> 0, w |-> (IF conj THEN y.cq ELSE y.q).w]) = KeyEl(C, [s |-> 0, w |-> q.w])
JudgeLook(S, e) ==
    LET C == S.C IN
    IF IsZero(e.q) THEN IF e.id # 0 THEN "zero is symbol 0" ELSE ""
    ELSE IF e.id = -1 THEN IF SymbolKey(C, e.q.w) \in DOMAIN S.map THEN "registered word not found" ELSE ""
    ELSE IF e.id >= Len(S.tab) \/ ~Denotes(C, S.tab[e.id + 1], e.conj, e.q) THEN "found the symbol of another word"
    ELSE IF ~e.alias /\ (IF e.conj THEN S.tab[e.id + 1].cq ELSE S.tab[e.id + 1].q).w # e.q.w THEN "alias flag of a found word"
    ELSE ""

JudgeDict(S, e) ==
    LET C == S.C IN
    IF JudgeOsg(S, e) # "" THEN JudgeOsg(S, e)
    ELSE IF e.grew # (e.after > e.before) \/ e.after # Len(S.tab) THEN "new symbols reported"
    ELSE IF \E k \in 1..Len(e.fwd) : SymbolKey(C, e.fwd[k].w) \notin DOMAIN S.map THEN "word without a symbol"
    ELSE IF \E k \in 1..Len(e.fwd) : e.ix[k] \notin 0..(Len(S.tab) - 1) THEN "symbol of a dictionary word"
    ELSE IF \E k \in 1..Len(e.fwd) :
                LET y == S.tab[e.ix[k] + 1] IN
                IF KeyEl(C, y.q).w = KeyEl(C, y.cq).w THEN KeyEl(C, y.q).w # MomentKey(C, e.fwd[k].w)
                ELSE ~Denotes(C, y, e.cj[k] = 1, e.fwd[k]) THEN "symbol of a dictionary word"
    ELSE ""

JudgeBasis(S, e) == BasisVerdict(S.tab, S.mats[e.off].e, e)

(* half (anti)commutators of elements; (anti)commutators of polynomials *)
Minus(ts) == Scaled(ts, <<0 - 1, 0>>)
JudgeComm(S, e) ==
    LET C == S.C ab == Mul(C, e.a, e.b) ba == Mul(C, e.b, e.a) IN
    IF e.com # (IF ab = ba THEN Zero ELSE ab) THEN "commutator"
    ELSE IF e.anti # (IF ab = ba THEN ab ELSE Zero) THEN "anticommutator"
    ELSE ""
JudgePComm(S, e) ==
    LET C == S.C a == TermsOf(e.a) b == TermsOf(e.b)
        ab == Product(C, a, b) ba == Product(C, b, a) IN
    IF ~SamePoly(TermsOf(e.com), ab \o Minus(ba)) THEN "commutator of polynomials"
    ELSE IF ~SamePoly(TermsOf(e.anti), ab \o ba) THEN "anticommutator of polynomials"
    ELSE ""

(* ---- one step -------------------------------------------------------------*)
Rec(e, x) == [x |-> x, m |-> e.m, herm |-> e.herm, dim |-> e.dim, mono |-> e.mono, prod |-> e.mono /\ (e.opm # <<>> \/ e.op = "val"), e |-> e]
MatStep(S, e) ==
    IF "threw" \in DOMAIN e THEN [why |-> IF MayThrow(S, e) THEN "" ELSE "exception: " \o e.threw, st |-> S]
    ELSE LET x == Cells(S, e)
             why == JudgeMatrix(S, e, x)
             key == IndexOf(S, e)
         IN [why |-> why,
             st |-> [S EXCEPT !.mats = IF e.off \in DOMAIN @ THEN @ ELSE Put(@, e.off, Rec(e, x)),
                              !.keys = IF key # <<>> THEN Put(@, key, e.off) ELSE @,
                              !.next = IF e.off >= @ THEN e.off + 1 ELSE @]]
SymStep(S, e) ==
    LET tab == Force(S.tab \o e.t)
        new == KeyMap(S.C, tab, Len(S.tab))
    IN [why |-> JudgeSymbols(S, e, tab),
        st |-> [S EXCEPT !.tab = tab, !.map = [w \in DOMAIN @ \cup DOMAIN new |-> IF w \in DOMAIN @ THEN @[w] ELSE new[w]]]]
Step(S, e) ==
    CASE e.e = "sym" -> SymStep(S, e)
      [] e.e = "table" -> [why |-> IF e.t # S.tab THEN "a registered symbol changed"
                                   ELSE IF ~BasisListsOK(S.tab, e) THEN "basis lists of the symbol table" ELSE "", st |-> S]
      [] e.e = "osg" -> [why |-> JudgeOsg(S, e), st |-> [S EXCEPT !.osg = Put(@, <<e.level, 0>>, [fwd |-> e.fwd, conj |-> e.conj])]]
      [] e.e = "nosg" -> [why |-> JudgeNosg(S, e), st |-> [S EXCEPT !.osg = Put(@, <<e.level, e.nb>>, [fwd |-> e.fwd, conj |-> e.conj])]]
      [] e.e = "dict" -> [why |-> JudgeDict(S, e), st |-> S]
      [] e.e = "look" -> [why |-> JudgeLook(S, e), st |-> S]
      [] e.e = "same" -> [why |-> IF MomentKey(S.C, e.a.w) # MomentKey(S.C, e.b.w) THEN "not the same moment (harness)"
                                  ELSE IF e.ida # e.idb THEN "equal moments have different symbols" ELSE "", st |-> S]
      [] e.e = "mat" -> MatStep(S, e)
      [] e.e = "comm" -> [why |-> JudgeComm(S, e), st |-> S]
      [] e.e = "pcomm" -> [why |-> JudgePComm(S, e), st |-> S]
      [] e.e = "basis" -> [why |-> JudgeBasis(S, e), st |-> S]
      [] e.e = "get" -> [why |-> IF e.ok # (e.off \in DOMAIN S.mats) THEN "matrix found or missing"
                                 ELSE IF e.ok /\ e.dim # S.mats[e.off].dim THEN "dimension of a stored matrix" ELSE "", st |-> S]
      [] e.e = "del" -> [why |-> IF e.ok # (e.off \in DOMAIN S.mats) THEN "matrix deleted or missing" ELSE "",
                         st |-> [S EXCEPT !.mats = [q \in DOMAIN @ \ {e.off} |-> @[q]]]]
      [] e.e = "find" -> [why |-> LET key == IndexOf(S, e) IN
                                  IF key \in DOMAIN S.keys THEN (IF e.off # S.keys[key] /\ ~(Gone(S, S.keys[key]) /\ e.off = -1) THEN "index lookup" ELSE "")
                                  ELSE IF e.off = -1 THEN ""
                                  ELSE IF Gone(S, e.off) \/ (e.off \in DOMAIN S.mats /\ e.op \in {"lm", "cm", "am"} /\ S.mats[e.off].e.op = "side") THEN "" ELSE "index found but never made",
                          st |-> S]
      [] OTHER -> [why |-> "event not allowed by the specification: " \o e.e, st |-> S]

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN LET C == MakeContext(e.c) IN
            /\ st' = Start(C)
            /\ bad' = (e.size # C.n)
            /\ bad' => Reject("operator count")
       ELSE LET r == IF st.k = "none" THEN [why |-> "no context", st |-> st] ELSE Step(st, e) IN
            /\ st' = r.st
            /\ bad' = (bad \/ r.why # "")
            /\ r.why # "" => Reject(r.why)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
