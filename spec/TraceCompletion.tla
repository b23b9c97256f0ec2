-------------------------- MODULE TraceCompletion --------------------------
(* Validates recorded runs of the operator rulebook.  The specification     *)
(* completes the same equations by itself (Completion); the implementation *)
(* may choose any strategy, so its rules are judged by what they mean:     *)
(*   - every rule it holds is decreasing and true in the algebra;           *)
(*   - "complete" is reported only of (and of every) rule set with unique  *)
(*     normal forms that is closed under conjugation;                       *)
(*   - a complete rule set proves every equation that was given;            *)
(*   - a reduction is reachable by applying rules and has no redex left.   *)
EXTENDS Completion, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>

Sys == Sessions[s].ev[1]
SpecFuel == 80

AsRule(r) == [l |-> r.l, r |-> r.r]
AsRules(q) == [k \in 1..Len(q) |-> AsRule(q[k])]

\* true in the algebra, as far as the specification's own completion can tell
\* (a completion that ran out of fuel cannot refute an equation)
Valid(kb, a, b) == kb.collapsed \/ ~kb.ok \/ Rewrite(kb.rules, a) = Rewrite(kb.rules, b)

ConjClosed(star, rules) ==
    \A k \in 1..Len(rules) :
        Rewrite(rules, [s |-> 0, w |-> StarOf(star, rules[k].l)]) = Rewrite(rules, StarEl(star, rules[k].r))

\* all elements reachable from a set by rule applications
RECURSIVE Reach(_, _, _)
Reach(rules, done, todo) ==
    IF todo = {} \/ Cardinality(done) > 3000 THEN done \cup todo
    ELSE LET nxt == UNION {{RewriteAt(e, pr[1], rules[pr[2]]) : pr \in Redexes(rules, e)} : e \in todo}
         IN Reach(rules, done \cup todo, nxt \ (done \cup todo))
OneStep(rules, e) == {RewriteAt(e, pr[1], rules[pr[2]]) : pr \in Redexes(rules, e)}
NormalForms(rules, e) == {x \in Reach(rules, {}, {e}) : Irreducible(rules, x)}

Judge(e) ==
    CASE e.e = "rules" ->
            LET rs == AsRules(e.rules) IN
            IF ~ProperRules(rs) THEN "a rule does not decrease"
            ELSE IF st.kb.collapsed THEN ""
            ELSE IF \E k \in 1..Len(rs) : ~Valid(st.kb, [s |-> 0, w |-> rs[k].l], rs[k].r) THEN "a rule is not a consequence of the given rules"
            ELSE ""
      [] e.e = "complete" ->
            IF st.kb.collapsed THEN ""
            ELSE IF e.ok /\ ~(st.conf /\ ConjClosed(Sys.star, st.rules)) THEN "completion reported but normal forms are not unique"
            ELSE IF e.ok /\ \E k \in 1..Len(Sys.rules) :
                        Rewrite(st.rules, [s |-> 0, w |-> Sys.rules[k].l]) # Rewrite(st.rules, Sys.rules[k].r)
                 THEN "completed rules no longer prove a given rule"
            ELSE IF ~e.ok /\ st.conf /\ ConjClosed(Sys.star, st.rules) THEN "complete rules reported as incomplete"
            ELSE ""
      [] e.e = "test" ->
            IF st.kb.collapsed THEN ""
            ELSE IF e.nc # st.conf THEN "completeness test without conjugates"
            ELSE IF e.cc # (st.conf /\ ConjClosed(Sys.star, st.rules)) THEN "completeness test" ELSE ""
      [] e.e = "reduce" ->
            IF st.kb.collapsed THEN ""
            ELSE IF st.conf
                 THEN LET nf == Rewrite(st.rules, e.in) IN
                      IF e.out # nf THEN "reduction" ELSE IF e.it # nf THEN "reduction by iteration"
                      ELSE IF e.se # nf THEN "reduction by search" ELSE IF e.ip # nf THEN "reduction in place"
                      ELSE IF e.can # (Redexes(st.rules, e.in) # {}) THEN "can-reduce test" ELSE ""
            ELSE LET nfs == NormalForms(st.rules, e.in) IN
                      IF e.out \notin nfs THEN "reduction" ELSE IF e.it \notin nfs THEN "reduction by iteration"
                      ELSE IF e.se \notin nfs THEN "reduction by search" ELSE IF e.ip \notin nfs THEN "reduction in place"
                      ELSE IF e.can # (Redexes(st.rules, e.in) # {}) THEN "can-reduce test" ELSE ""
      [] OTHER -> "event not allowed by the specification: " \o e.e

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [kb |-> [ok |-> FALSE]] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)

Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "system"
       THEN /\ st' = [kb |-> KBComplete(e.n, e.star, AsRules(e.rules), FALSE, FALSE, SpecFuel), rules |-> <<>>, conf |-> TRUE]
            /\ bad' = FALSE
       ELSE LET why == Judge(e) IN
            /\ st' = IF e.e = "rules" THEN [st EXCEPT !.rules = AsRules(e.rules), !.conf = Confluent(AsRules(e.rules))] ELSE st
            /\ bad' = (bad \/ why # "")
            /\ why # "" => Reject(why)

TraceSpec == Init /\ [][Next]_vars
=============================================================================
