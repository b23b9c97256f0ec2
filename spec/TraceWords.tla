---------------------------- MODULE TraceWords ----------------------------
(* Validates recorded operator-word computations against Words/Scenario.    *)
EXTENDS Polys, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>

LegalEl(C, a) == a.s \in 0..4 /\ (a.s = 4 => a.w = <<>>) /\ \A k \in 1..Len(a.w) : a.w[k] \in 0..(C.n - 1)

(* ---- one event: the reason it is wrong, or "" ---------------------------- *)
Judge(C, e) ==
    CASE e.e = "mk"     -> IF e.out # Norm(C, [s |-> e.s, w |-> e.in]) THEN "normal form" ELSE IF ~e.hok THEN "hash" ELSE ""
      [] e.e = "mul"    -> IF e.out # Mul(C, e.a, e.b) THEN "product" ELSE IF ~e.hok THEN "hash" ELSE ""
      [] e.e = "append" -> IF e.out # (IF IsZero(e.a) THEN Zero ELSE Norm(C, [s |-> e.a.s, w |-> e.a.w \o e.in])) THEN "append" ELSE IF ~e.hok THEN "hash" ELSE ""
      [] e.e = "presorted" -> IF e.out # e.a THEN "copy of a canonical word" ELSE IF ~e.hok THEN "hash of a canonical word" ELSE ""
      [] e.e = "conj"   -> IF e.out # Conj(C, e.a) THEN "conjugate" ELSE IF ~e.hok THEN "hash" ELSE ""
      [] e.e = "neg"    -> IF e.out # Neg(e.a) THEN "negation" ELSE IF ~e.hok THEN "negation in place" ELSE ""
      [] e.e = "cmp"    -> IF e.eq # (e.a = e.b) \/ e.ne # (e.a # e.b) THEN "equality"
                           ELSE IF e.lt # (IF IsZero(e.a) THEN ~IsZero(e.b) ELSE ~IsZero(e.b) /\ ShortlexLess(e.a.w, e.b.w))
                                   \/ e.gt # (IF IsZero(e.b) THEN ~IsZero(e.a) ELSE ~IsZero(e.a) /\ ShortlexLess(e.b.w, e.a.w))
                                THEN "order"
                           ELSE IF e.sn # (IF e.a = e.b THEN 1 ELSE IF ~IsZero(e.a) /\ e.a = Neg(e.b) THEN -1 ELSE 0) THEN "comparison up to sign"
                           ELSE ""
      [] e.e = "herm"   -> IF e.t # HermType(C, e.a) /\ ~IsZero(e.a) THEN "hermiticity" ELSE ""
      [] e.e = "canon"  -> LET nf == NF(C, e.in) IN
                           IF e.some # (nf = [s |-> 0, w |-> e.in]) THEN "is-canonical test"
                           ELSE IF e.some /\ e.out # nf THEN "canonical word" ELSE ""
      [] e.e = "simp"   -> IF IsZero(e.a) THEN (IF e.out # Zero THEN "moment of zero" ELSE "")
                           ELSE IF e.out.w \notin Orbit(C, e.a.w) \/ e.out.s # e.a.s THEN "moment is not an exchange of source copies"
                           ELSE IF ~e.hok THEN "hash" 
                           ELSE IF e.can # (e.out.w # e.a.w) THEN "can-be-simplified test" ELSE ""
      [] e.e = "pmul"   -> LET a == TermsOf(e.a) b == TermsOf(e.b)
                               nb == [k \in 1..Len(b) |-> [q |-> b[k].q, c |-> <<0 - b[k].c[1], 0 - b[k].c[2]>>]]
                           IN IF ~SamePoly(TermsOf(e.out), Product(C, a, b)) THEN "polynomial product"
                              ELSE IF ~SamePoly(TermsOf(e.sum), a \o b) THEN "polynomial sum"
                              ELSE IF ~SamePoly(TermsOf(e.dif), a \o nb) THEN "polynomial difference"
                              ELSE IF ~Condensed(TermsOf(e.out)) \/ ~Condensed(TermsOf(e.sum)) \/ ~Condensed(TermsOf(e.dif))
                                   THEN "polynomial not condensed" ELSE ""
      [] OTHER -> "event not allowed by the specification: " \o e.e

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE

Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)

Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN LET C == MakeContext(e.c) IN
            /\ st' = [k |-> "ctx", C |-> C]
            /\ bad' = (e.size # C.n)
            /\ bad' => Reject("operator count")
       ELSE LET why == IF st.k = "none" THEN "no context: " \o e.e ELSE Judge(st.C, e) IN
            /\ st' = st
            /\ bad' = (bad \/ why # "")
            /\ why # "" => Reject(why)

TraceSpec == Init /\ [][Next]_vars
=============================================================================
