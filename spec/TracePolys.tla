----------------------------- MODULE TracePolys -----------------------------
(* Validates recorded polynomial algebra and basis conversions.              *)
EXTENDS Symbolic, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

(* what a raw polynomial (words with coefficients) is in symbols; <<>> if a word has none *)
SymbolOf(C, tab, q) ==
    LET key == SymbolKey(C, q.w)
        fit == {k \in 1..Len(tab) : tab[k].has /\ ~IsZero(tab[k].q) /\ key \in {SymbolKey(C, tab[k].q.w), SymbolKey(C, tab[k].cq.w)}}
    IN IF fit = {} THEN 0 ELSE CHOOSE k \in fit : TRUE
RawTerm(C, tab, t) ==
    LET k == SymbolOf(C, tab, t.q)
        y == tab[k]
        fwd == KeyEl(C, [s |-> 0, w |-> t.q.w]) = KeyEl(C, [s |-> 0, w |-> y.q.w])
        c == ITimes(t.q.s, <<t.re, t.im>>)
        d == IF fwd THEN c ELSE ITimes((4 - y.cq.s) % 4, c)
    IN <<k - 1, d[1], d[2], IF fwd THEN 0 ELSE 1>>
Known(C, tab, p) == \A k \in 1..Len(p) : IsZero(p[k].q) \/ SymbolOf(C, tab, p[k].q) # 0
RawTerms(C, tab, p) == Force([k \in 1..Len(p) |-> IF IsZero(p[k].q) THEN <<0, 0, 0, 0>> ELSE RawTerm(C, tab, p[k])])

Degree(tab, p) == Max({0} \cup {IF tab[x + 1].has THEN Len(tab[x + 1].q.w) ELSE 0 : x \in Ids(p)})
(* the highest terms decide; then the lower; a proper prefix (from the top) is less *)
RECURSIVE PolyLess(_, _, _, _, _)
CoefOrder(a, b) == IF a[2] # b[2] THEN IF a[2] < b[2] THEN 1 ELSE -1 ELSE IF a[3] # b[3] THEN IF a[3] < b[3] THEN 1 ELSE -1 ELSE 0
PolyLess(tab, order, a, b, coefs) ==
    IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
    ELSE LET x == a[Len(a)] y == b[Len(b)] IN
         IF TermLess(tab, order, x, y) THEN TRUE ELSE IF TermLess(tab, order, y, x) THEN FALSE
         ELSE LET c == IF coefs THEN CoefOrder(x, y) ELSE 0 IN
              IF c = 1 THEN TRUE ELSE IF c = -1 THEN FALSE
              ELSE PolyLess(tab, order, SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), coefs)

Judge(S, e) ==
    LET tab == S.tab o == S.order
        A == IF "a" \in DOMAIN e THEN e.a ELSE <<>>
    IN
    IF "threw" \in DOMAIN e THEN "exception: " \o e.threw
    ELSE CASE e.e = "new" -> IF ~CanonicalOf(tab, o, e.out, e.in) THEN "constructed polynomial" ELSE ""
      [] e.e = "raw" -> IF "unreg" \in DOMAIN e THEN IF e.reg \/ Known(S.C, tab, e.in) THEN "registered words refused" ELSE ""
                        ELSE IF ~Known(S.C, tab, e.in) THEN "unregistered words accepted"
                        ELSE IF ~CanonicalOf(tab, o, e.out, RawTerms(S.C, tab, e.in)) THEN "polynomial of words" ELSE ""
      [] e.e = "sum" -> IF ~CanonicalOf(tab, o, e.out, e.a \o e.b) THEN "sum" ELSE ""
      [] e.e = "scale" -> IF ~CanonicalOf(tab, o, e.out, ScaleBy(e.c, e.a)) THEN "scaled polynomial" ELSE ""
      [] e.e = "conj" -> IF ~CanonicalOf(tab, o, e.out, Dagger(tab, e.a)) THEN "conjugate" ELSE ""
      [] e.e = "fix" -> IF ~CanonicalOf(tab, o, e.out, e.in) \/ e.out2 # e.out THEN "polynomial after fixing conjugates"
                        ELSE IF e.r # (\E k \in 1..Len(e.a) : Fixed(tab, e.a[k]) # e.a[k]) THEN "whether conjugates needed fixing" ELSE ""
      [] e.e = "reim" -> IF ~WellFormed(tab, o, e.re) \/ ~Equal(tab, ScaleBy(<<2, 0>>, e.re), e.a \o Dagger(tab, e.a)) THEN "real part"
                         ELSE IF ~WellFormed(tab, o, e.im) \/ ~Equal(tab, ScaleBy(<<0, 2>>, e.im), e.a \o ScaleBy(<<0 - 1, 0>>, Dagger(tab, e.a))) THEN "imaginary part" ELSE ""
      [] e.e = "flags" -> IF e.herm # Equal(tab, e.a, Dagger(tab, e.a)) THEN "is Hermitian"
                          ELSE IF e.anti # Equal(tab, ScaleBy(<<0 - 1, 0>>, e.a), Dagger(tab, e.a)) THEN "is anti-Hermitian"
                          ELSE IF e.realf # (\A k \in 1..Len(e.a) : e.a[k][3] = 0) THEN "has real factors"
                          ELSE IF e.deg # Degree(tab, e.a) THEN "degree"
                          ELSE IF e.mono # (Len(e.a) <= 1) THEN "is a monomial"
                          ELSE IF e.first # (IF e.a = <<>> THEN 0 ELSE e.a[1][1]) \/ e.last # (IF e.a = <<>> THEN 0 ELSE e.a[Len(e.a)][1]) THEN "first or last symbol" ELSE ""
      [] e.e = "cmp" -> IF e.eq # (e.a = e.b) \/ e.ne = e.eq THEN "equality"
                        ELSE IF e.cc # Equal(tab, Dagger(tab, e.a), e.b) THEN "is the conjugate"
                        ELSE IF e.lt # PolyLess(tab, o, e.a, e.b, FALSE) \/ e.gt # PolyLess(tab, o, e.b, e.a, FALSE) THEN "order of polynomials"
                        ELSE IF e.ltc # PolyLess(tab, o, e.a, e.b, TRUE) \/ e.gtc # PolyLess(tab, o, e.b, e.a, TRUE) THEN "order of polynomials with coefficients" ELSE ""
      [] e.e = "mask" -> IF Range1(e.re) # {x[1] : x \in VecA(tab, e.a)} THEN "real basis elements of a polynomial"
                         ELSE IF Range1(e.im) # {x[1] : x \in VecB(tab, e.a)} THEN "imaginary basis elements of a polynomial"
                         ELSE IF Range1(e.mre) # {x[1] : x \in VecA(tab, FixedTerms(tab, e.m))} THEN "real basis elements of a monomial"
                         ELSE IF Range1(e.mim) # {x[1] : x \in VecB(tab, FixedTerms(tab, e.m))} THEN "imaginary basis elements of a monomial" ELSE ""
      [] e.e = "vec" -> LET a == Force(<<VecA(tab, e.a)>>)[1] b == Force(<<VecB(tab, e.a)>>)[1]
                            real(v) == IsVec(v.a, ReOf(a)) /\ IsVec(v.b, ReOf(b)) /\ v.na = S.nre /\ v.nb = S.nim
                            imag(v) == IsVec(v.a, ImOf(a)) /\ IsVec(v.b, ImOf(b)) /\ v.na = S.nre /\ v.nb = S.nim
                            row(r, part, off, ro) == IF r < 0 THEN {} ELSE {<<r + ro, x[1] + off, x[2][1]>> : x \in part}
                            T(v) == {<<v[k][1], v[k][2], v[k][3]>> : k \in 1..Len(v)}
                            rows(ro) == row(e.rr, ReOf(a), 0, 0) \cup row(e.rr, ReOf(b), S.nre, 0)
                            irows(ro) == row(e.ri, ImOf(a), 0, ro) \cup row(e.ri, ImOf(b), S.nre, ro)
                            many(v, f(_)) == UNION {{<<x[1], k - 1, x[2]>> : x \in f(e.many[k])} : k \in 1..Len(e.many)}
                            M(v) == {<<v[k][1], v[k][2], <<v[k][3], v[k][4]>>>> : k \in 1..Len(v)}
                        IN IF ~real(e.re) \/ ~real(e.ore) THEN "real part in the basis"
                           ELSE IF ~imag(e.im) \/ ~imag(e.oim) THEN "imaginary part in the basis"
                           ELSE IF ~IsVec(e.ca, a) \/ ~IsVec(e.cb, b) THEN "complex basis vectors"
                           ELSE IF ~IsVec(e.da, a) \/ ~IsVec(e.db, b) THEN "complex basis vectors from real and imaginary parts"
                           ELSE IF T(e.tx) # rows(0) \/ Len(e.tx) # Cardinality(T(e.tx)) \/ T(e.ty) # irows(0) \/ Len(e.ty) # Cardinality(T(e.ty)) THEN "rows of triplets"
                           ELSE IF T(e.tz) # rows(0) \cup irows(S.nre) THEN "combined rows of triplets"
                           ELSE IF M(e.ma) # many(0, LAMBDA p : VecA(tab, p)) \/ M(e.mb) # many(0, LAMBDA p : VecB(tab, p))
                                   \/ e.mar # S.nre \/ e.mbr # S.nim \/ e.mac # Len(e.many) \/ e.mbc # Len(e.many) THEN "monolithic complex basis" ELSE ""
      (* basis vectors to polynomial: element re of X is half of X plus its adjoint, element im half of X minus its adjoint *)
      [] e.e = "back" -> LET val(v, n) == FoldLeft(LAMBDA acc, t : IF t[1] = n THEN CAdd(acc, <<t[2], t[3]>>) ELSE acc, Zc, v)
                             twice == Force([k \in 1..(2 * Len(tab)) |->
                                        LET n == (k + 1) \div 2
                                            va == IF tab[n].re >= 0 THEN val(e.a, tab[n].re) ELSE Zc
                                            vb == IF tab[n].im >= 0 THEN val(e.b, tab[n].im) ELSE Zc
                                            c == IF k % 2 = 1 THEN CAdd(va, vb) ELSE CSub(va, vb)
                                        IN <<n - 1, c[1], c[2], 1 - (k % 2)>>])
                         IN IF ~WellFormed(tab, o, e.out) \/ ~Equal(tab, ScaleBy(<<2, 0>>, e.out), twice) THEN "polynomial of basis vectors" ELSE ""
      [] OTHER -> "event not allowed by the specification: " \o e.e

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN LET C == MakeContext(e.c) IN
            /\ st' = [k |-> "ctx", C |-> C, order |-> e.order, tab |-> <<>>, nre |-> 0, nim |-> 0]
            /\ bad' = (e.size # C.n)
            /\ bad' => Reject("operator count")
       ELSE IF e.e = "tab"
       THEN /\ st' = [st EXCEPT !.tab = e.t, !.nre = e.nre, !.nim = e.nim]
            /\ bad' = (bad \/ SubSeq(e.t, 1, Len(st.tab)) # st.tab)
            /\ bad' /\ ~bad => Reject("a registered symbol changed")
       ELSE LET why == IF st.k = "none" THEN "no context" ELSE Judge(st, e) IN
            /\ st' = st
            /\ bad' = (bad \/ why # "")
            /\ why # "" => Reject(why)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
