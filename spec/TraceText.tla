----------------------------- MODULE TraceText -----------------------------
(* Validates recorded names and texts against Text.                         *)
EXTENDS Text, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>

Reading(t) == ReadTerm(t)
JudgeNames(e) ==
    LET wrong == {k \in 1..Len(e.ids) : e.t[k] # NameOf(e.ids[k], e.upper)} IN
    IF wrong # {} THEN "numbered name"
    ELSE IF \E k \in 1..Len(e.ids) : e.len[k] # Len(NameOf(e.ids[k], TRUE)) THEN "length of a numbered name"
    ELSE IF \E k \in 1..Len(e.first) : e.first[k] # FirstOfLength(k) THEN "first name of a length"
    ELSE ""
JudgeTable(e) ==
    LET given == IF e.default THEN DefaultNames(e.n) ELSE e.names ok == ValidNames(given, e.n) IN
    IF e.ok # ok THEN (IF ok THEN "good names refused" ELSE "bad names accepted")
    ELSE IF ~ok THEN ""
    ELSE IF e.shown # OperatorNames(given, e.mode) THEN "name of an operator"
    ELSE IF e.single # AllSingle(given) THEN "single-letter names"
    ELSE IF \E k \in 1..Len(e.look) : e.look[k].id # Lookup(given, e.mode, e.look[k].t) THEN "operator with a name"
    ELSE ""
(* descriptions of matrices, as texts *)
tMoment == <<77, 111, 109, 101, 110, 116, 32, 77, 97, 116, 114, 105, 120, 44, 32, 76, 101, 118, 101, 108, 32>>          \* "Moment Matrix, Level "
tLocalizing == <<76, 111, 99, 97, 108, 105, 122, 105, 110, 103, 32, 77, 97, 116, 114, 105, 120, 44, 32, 76, 101, 118, 101, 108, 32>>      \* "Localizing Matrix, Level "
tWord == <<44, 32, 87, 111, 114, 100, 32, 34>>            \* ", Word ""
tSubstituted == <<83, 117, 98, 115, 116, 105, 116, 117, 116, 101, 100, 32, 77, 97, 116, 114, 105, 120, 58, 32>>     \* "Substituted Matrix: "
tMatrix == <<77, 97, 116, 114, 105, 120, 32, 35>>          \* "Matrix #"
tRulebook == <<44, 32, 82, 117, 108, 101, 98, 111, 111, 107, 32>>        \* ", Rulebook "
Quote == 34
(* a matrix or rulebook that exists goes by its name, any other by its number *)
SubstitutedText(e) ==
    tSubstituted \o (IF e.m \in 0..(Len(e.ds) - 1) THEN e.ds[e.m + 1] ELSE tMatrix \o Signed(e.m)) \o tRulebook
    \o (IF e.r \in 0..(Len(e.ns) - 1) THEN <<Quote>> \o e.ns[e.r + 1] \o <<Quote>> ELSE <<Hash>> \o Signed(e.r))
(* st.N[1]: notation; st.N[2]: the other notation of a locality scenario *)
Judge(S, e) ==
    CASE e.e = "names" -> JudgeNames(e)
      [] e.e = "table" -> JudgeTable(e)
      [] e.e = "parse" -> IF [ok |-> e.ok, id |-> e.id, f |-> e.f, cj |-> e.cj] # Reading(e.t) THEN "reading a term" ELSE ""
      [] e.e = "word"  -> IF e.t # ElementText(S.N[e.alt + 1], e.q, e.br) THEN "text of a word" ELSE ""
      [] e.e = "raw"   -> IF e.t # WordText(S.N[1], e.w, e.br) THEN "text of a raw word" ELSE ""
      [] e.e = "index" -> IF e.t # (IF e.op = <<>> THEN <<49>> ELSE
                              Join(Force([k \in 1..Len(e.op) |-> LET t == S.tab[e.op[k] + 1] n == ObservableText(S.c, t) IN n.name \o n.copy \o <<Dot>> \o Number(t.k)]), <<Semi>>))
                          THEN "text of indices" ELSE ""
      [] e.e = "pmo"   -> IF e.t # (IF e.ix = <<>> THEN <<49>> ELSE
                              Join(Force([k \in 1..Len(e.ix) |-> LET x == e.ix[k] IN IF e.alt = 1 THEN Traditional(S.c, x[1] + 1, x[2] + 1, x[3]) ELSE Natural(S.c, x[1] + 1, x[2] + 1, x[3])]), <<Semi>>))
                          THEN "text of outcomes" ELSE ""
      [] e.e = "poly"  -> IF e.t # PolyText(S.N[1], S.words, e.p, e.style) THEN "text of a polynomial" ELSE ""
      [] e.e = "term"  -> IF e.t # TermText(S.N[1], S.words, e.p[1], e.style, e.style.plus) THEN "text of a monomial" ELSE ""
      [] e.e = "mmi"   -> IF e.t # tMoment \o Number(e.level) THEN "description of a moment matrix" ELSE ""
      [] e.e = "lmi"   -> IF e.t # tLocalizing \o Number(e.level) \o tWord \o ElementText(S.N[1], e.q, FALSE) \o <<Quote>> THEN "description of a localizing matrix" ELSE ""
      [] e.e = "plmi"  -> IF e.t # tLocalizing \o Number(e.level) \o tWord \o PolyText(S.N[1], S.words, e.p, e.style) \o <<Quote>> THEN "description of a polynomial localizing matrix" ELSE ""
      [] e.e = "smi"   -> IF "threw" \in DOMAIN e \/ e.t # SubstitutedText(e) THEN "description of a substituted matrix" ELSE ""
      [] OTHER -> "event not allowed by the specification: " \o e.e

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [N |-> <<>>, words |-> <<>>, tab |-> <<>>, c |-> <<>>] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Done(N) == [N EXCEPT !.one = Force(N.one)]

Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx" THEN
            /\ st' = [st EXCEPT !.N = <<Done(Notation(e.c, FALSE)), Done(Notation(e.c, TRUE))>>, !.c = e.c,
                                !.tab = IF e.c.kind = "inflation" THEN Force(OpTable(e.c)) ELSE <<>>]
            /\ bad' = FALSE
       ELSE IF e.e = "words" THEN st' = [st EXCEPT !.words = e.t] /\ bad' = bad
       ELSE LET why == Judge(st, e) IN
            /\ st' = st
            /\ bad' = (bad \/ why # "")
            /\ why # "" => Reject(why)

TraceSpec == Init /\ [][Next]_vars
=============================================================================
