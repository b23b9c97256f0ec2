----------------------------- MODULE TracePauli -----------------------------
(* Validates recorded dictionaries, translations, duplications and site      *)
(* hashes of qubit lattices against Lattice.                                  *)
EXTENDS Lattice, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>

JudgeNN(C, e) ==
    IF NNUnsupported(C, e.lv, e.nb) THEN (IF e.threw THEN "" ELSE "unsupported dictionary was made")
    ELSE IF e.threw THEN (IF NNMayRefuse(C, e.lv, e.nb) THEN "" ELSE "exception: " \o e.what)
    ELSE IF ~e.ok THEN "sign, hash or conjugate of a dictionary word"
    ELSE IF e.words = <<>> \/ e.words[1] # <<>> THEN "identity is not the first word"
    ELSE IF Cardinality({e.words[k] : k \in 1..Len(e.words)}) # Len(e.words) THEN "repeated dictionary word"
    ELSE IF ~AllWordsOn(C, e.words, NNSupports(C, e.lv, e.nb)) THEN "words of a nearest-neighbour dictionary"
    ELSE IF e.count # Len(e.words) \/ e.direct # Len(e.words) THEN "word count"
    ELSE IF ~e.same THEN "dictionary made twice"
    ELSE ""

JudgeFill(C, e) ==
    LET S == Range1(e.sites)
        sup == CASE e.kind = "perm" -> {S}
                 [] e.kind = "sym"  -> Places(C, S)
                 [] e.kind = "flat" -> {T \in Windows(C, S) : TRUE}
        \* without wrapping the pattern is only moved towards higher rows and columns
        ahead == {T \in Windows(C, S) : Min(T) >= Min(S) /\ Min({SiteRow(C, q) : q \in T}) >= Min({SiteRow(C, q) : q \in S})
                                         /\ Min({SiteCol(C, q) : q \in T}) >= Min({SiteCol(C, q) : q \in S})}
        want == IF e.kind = "perm" \/ (e.kind = "sym" /\ C.wrap) THEN sup ELSE ahead
    IN IF e.threw THEN (IF e.kind = "sym" /\ C.wrap /\ ~C.sym THEN "" ELSE "exception: " \o e.what)
       ELSE IF ~e.ok THEN "sign or hash of a copy, or earlier words changed"
       ELSE IF ~AllWordsOn(C, e.words, want) THEN "copies of a pattern: " \o e.kind
       ELSE IF e.lo # 1 \/ e.hi # Len(e.words) + 1 THEN "reported range of copies"
       ELSE ""

JudgeCopy(C, e) ==
    LET in == TermsOf(e.in) out == TermsOf(e.out) IN
    IF e.threw THEN "exception: " \o e.what
    ELSE IF ~C.sym \/ Scalar(in) THEN (IF SamePoly(in, out) THEN "" ELSE "copy without symmetry")
    ELSE IF ~SameMoments(C, in, out) THEN "symmetrized polynomial is not the same moment"
    ELSE IF C.wrap /\ ~SamePoly(TorusSum(C, in), Scaled(out, <<C.qubits, 0>>)) THEN "average over translations"
    ELSE ""

(* representatives of translates of one word *)
JudgeOrb(C, e) ==
    LET O == PauliOrbit(C, e.w) IN
    IF \E k \in 1..Len(e.f) : e.f[k].out # e.f[1].out THEN "translates have different representatives"
    ELSE IF e.f[1].out \notin O THEN "representative is not a translate"
    ELSE IF \E k \in 1..Len(e.f) : e.f[k].is # (e.f[k].out = e.f[k].w) \/ ~e.f[k].isc THEN "is-canonical test"
    ELSE ""

JudgeShift(C, e) ==
    IF e.out # ShiftWord(C, e.w, e.dr, e.dc) THEN "translation" ELSE ""

(* ---- site hashes ----------------------------------------------------------*)
ChainShift(C, w, k) == SortWord([j \in 1..Len(w) |-> (w[j] + 3 * k) % (3 * C.qubits)])
Letter(w, q) == IF \E j \in 1..Len(w) : w[j] \div 3 = q
                THEN ((CHOOSE x \in Range1(w) : x \div 3 = q) % 3) + 1 ELSE 0
HashLess(a, b) ==     \* the highest site on which they differ decides
    LET D == {q \in SupportOf(a) \cup SupportOf(b) : Letter(a, q) # Letter(b, q)}
    IN IF D = {} THEN FALSE ELSE Letter(a, Max(D)) < Letter(b, Max(D))
FirstAlias(C, w) ==
    LET P == {k \in 1..(C.qubits - 1) : ChainShift(C, w, k) = w} IN IF P = {} THEN C.qubits ELSE Min(P)
JudgeHash(C, e) ==
    IF e.un # e.a THEN "hash does not determine the word"
    ELSE IF e.eq # (e.a = e.b) \/ e.empty # (e.a = <<>>) THEN "equality of hashes"
    ELSE IF e.lt # HashLess(e.a, e.b) \/ e.gt # HashLess(e.b, e.a) THEN "order of hashes"
    ELSE IF e.alias # FirstAlias(C, e.a) THEN "first alias on a ring"
    ELSE IF \E k \in 1..Len(e.sh) : e.sh[k].cyc # ChainShift(C, e.a, e.sh[k].by) THEN "cyclic shift"
    ELSE IF \E k \in 1..Len(e.sh) : e.sh[k].row # ShiftWord(C, e.a, e.sh[k].dr, 0) THEN "shift of rows"
    ELSE IF \E k \in 1..Len(e.sh) : e.sh[k].col # ShiftWord(C, e.a, 0, e.sh[k].dc) THEN "shift of columns"
    ELSE IF \E k \in 1..Len(e.sh) : e.sh[k].lat # ShiftWord(C, e.a, e.sh[k].dr, e.sh[k].dc) THEN "lattice shift"
    ELSE IF C.rows <= 32 /\ e.cv # [r \in 1..C.rows |-> Letter(e.a, Site(C, r - 1, e.col))] THEN "column of a hash"
    ELSE IF ~e.same \/ e.can \notin PauliOrbit(C, e.a) THEN "canonical hash"
    ELSE ""

Judge(C, e) ==
    CASE e.e = "nn" -> JudgeNN(C, e)
      [] e.e = "fill" -> JudgeFill(C, e)
      [] e.e = "copy" -> JudgeCopy(C, e)
      [] e.e = "orb" -> JudgeOrb(C, e)
      [] e.e = "shift" -> JudgeShift(C, e)
      [] e.e = "hash" -> JudgeHash(C, e)
      [] OTHER -> "event not allowed by the specification: " \o e.e

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN /\ st' = [k |-> "ctx", C |-> e.c]
            /\ bad' = (e.size # e.c.n)
            /\ bad' => Reject("operator count")
       ELSE LET why == IF st.k = "none" THEN "no context: " \o e.e ELSE Judge(st.C, e) IN
            /\ st' = st
            /\ bad' = (bad \/ why # "")
            /\ why # "" => Reject(why)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
