----------------------------- MODULE TraceRules -----------------------------
(* Validates recorded histories of moment rulebooks.                         *)
EXTENDS RuleJudge, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

(* <<reason, state after>> ; rules changed while in use ("expansion"): what was already substituted is not specified *)
Stay(S, why) == <<why, S>>
Set(S, k, b) == [S EXCEPT !.books[k] = b]
Give(S, k, why, b) == <<why, Set(S, k, [b EXCEPT !.wild = @ \/ (b.used /\ b.rules # S.books[k].rules)])>>
Step(S, e) ==
    IF "threw" \in DOMAIN e THEN Stay(S, "exception: " \o e.threw)
    ELSE IF e.e = "rule" THEN Stay(S, JudgeRule(S, e))
    ELSE IF e.e = "book" THEN
         <<IF e.b # Len(S.books) THEN "number of books" ELSE "",
           [S EXCEPT !.books = Append(@, [E |-> <<>>, raw |-> <<>>, rules |-> <<>>, used |-> FALSE, safe |-> e.safe, exp |-> FALSE, live |-> TRUE, odd |-> FALSE, id |-> 0 - 1, wild |-> FALSE])]>>
    ELSE
    LET k == e.b + 1
        b == S.books[k]
    IN CASE e.e = "add" ->
            IF Blocked(b) THEN Stay(S, IF e.res = "used" THEN "" ELSE "rules added to a rulebook in use")
            ELSE IF e.res # "ok" THEN Stay(S, "rules refused")
            ELSE LET c == [b EXCEPT !.raw = @ \o Force([j \in 1..Len(e.in) |-> Terms(e.in[j])])] IN
                 Give(S, k, IF \E j \in 1..Len(e.in) : ~Sound(e.in[j]) THEN "coefficient"
                            ELSE Then(Status(S, e, RulesIn(e), c), IF Unchanged(e, b) THEN "" ELSE "rules changed before completion"), c)
       [] e.e = "complete" ->
            IF Blocked(b) THEN Stay(S, IF e.res = "used" THEN "" ELSE "rulebook in use was completed")
            ELSE LET E == Force(Full(S, b)) IN
                 IF Contradictory(S, E) THEN Give(S, k, IF e.res = "contra" THEN "" ELSE "contradiction not noticed", [b EXCEPT !.live = FALSE])
                 ELSE IF e.res # "ok" THEN Give(S, k, "completion refused", [b EXCEPT !.live = FALSE])
                 ELSE LET rules == RulesIn(e)
                          c == [b EXCEPT !.raw = <<>>, !.E = E, !.rules = rules]
                      IN Give(S, k, Then(Status(S, e, rules, c), Then(Solved(S, rules, E), IF e.ret # Len(rules) - Len(b.rules) THEN "number of rules added" ELSE "")), c)
       [] e.e = "inject" ->
            IF Blocked(b) THEN Stay(S, IF e.res = "used" THEN "" ELSE "rule injected into a rulebook in use")
            ELSE IF e.res # "ok" THEN Stay(S, "rule refused")
            ELSE IF ~Sound(e.rule.r) THEN Stay(S, "coefficient of a rule")
            ELSE LET x == Rule(e.rule)
                     new == x.l \notin LHS(b.rules)
                     rules == RulesIn(e)
                     c == IF new THEN [b EXCEPT !.rules = rules, !.E = InsertAll(@, RowsOf(S, <<Equation(x)>>)), !.odd = @ \/ ~KeepsHermitian(S, x)] ELSE b
                 IN Give(S, k, Then(Status(S, e, rules, c),
                            IF e.ret # new THEN "whether the rule was injected"
                            ELSE IF x.part /\ (~WellFormed(S.tab, S.order, x.r) \/ Len(x.r) < 2) THEN "form of a partial rule"
                            ELSE IF Range1(rules) # Range1(b.rules) \cup (IF new THEN {x} ELSE {}) THEN "rules after injection" ELSE ""), c)
       [] e.e = "red" -> Stay(S, JudgeRed(S, e, b))
       [] e.e = "store" -> Give(S, k, IF e.res # "ok" \/ ~e.same THEN "rulebook stored"
                                      ELSE IF e.id # S.stored \/ e.size # S.stored + 1 \/ ~e.has \/ e.not \/ ~e.missing THEN "number of a stored rulebook"
                                      ELSE Then(Status(S, e, RulesIn(e), b), IF Unchanged(e, b) THEN "" ELSE "rules changed when stored"), [b EXCEPT !.id = e.id])
       [] e.e = "expand" -> Give(S, k, IF e.ret # (e.on /\ b.safe) THEN "permission to expand" ELSE "", [b EXCEPT !.exp = IF e.on THEN @ \/ b.safe ELSE FALSE])
       [] e.e = "sub" ->
            LET c == [b EXCEPT !.used = TRUE] IN
            Give(S, k, IF e.res # "ok" THEN "no substituted matrix"
                       ELSE Then(IF b.wild /\ e.index THEN "" ELSE JudgeSub(S, e, b), Then(Status(S, e, RulesIn(e), c), IF Unchanged(e, b) THEN "" ELSE "rules changed by use")), c)
       [] e.e = "strict" -> Stay(S, JudgeStrict(S, e, b))
       [] e.e = "basis" -> Stay(S, JudgeBasis(S, e, b))
       [] e.e = "cmp" ->
            LET c == S.books[e.c + 1]
                ab == Within(c.E, b.E) ba == Within(b.E, c.E)
                r == IF ab THEN (IF ba THEN 0 ELSE 1) ELSE (IF ba THEN 2 ELSE 3)
                outside(l, from, E) == \E j \in 1..Len(from) : from[j].l = l /\ \E row \in Range1(RowsOf(S, <<Equation(from[j])>>)) : ~In(E, row)
            IN Stay(S, IF e.r # r THEN "comparison of rulebooks"
                       ELSE IF (e.x = 0 - 1) # ba \/ (~ba /\ ~outside(e.x, b.rules, c.E)) THEN "rule only in the first rulebook"
                       ELSE IF (e.y = 0 - 1) # ab \/ (~ab /\ ~outside(e.y, c.rules, b.E)) \/ e.z # e.y THEN "rule only in the second rulebook" ELSE "")
       [] e.e = "combine" ->
            LET c == S.books[e.c + 1] gone == Set(S, e.c + 1, [c EXCEPT !.live = FALSE]) IN
            IF Blocked(b) \/ c.used THEN Stay(S, IF e.res = "used" THEN "" ELSE "rulebooks in use were merged")
            ELSE LET E == Force(InsertAll(b.E, [j \in 1..Len(c.E) |-> c.E[j].r])) IN
                 IF Contradictory(S, E)
                 THEN <<IF e.res # "contra" THEN "contradiction between rulebooks not noticed"
                        ELSE Then(Status(S, e, RulesIn(e), b), IF Unchanged(e, b) THEN "" ELSE "failed merger changed the rulebook"), gone>>
                 ELSE IF e.res # "ok" THEN <<"merger refused", gone>>
                 ELSE LET rules == RulesIn(e)
                          d == [b EXCEPT !.E = E, !.rules = rules]
                      IN Give(gone, k, Then(Status(S, e, rules, d), Then(Solved(S, rules, E), IF e.ret # Len(rules) - Len(b.rules) THEN "number of rules merged" ELSE "")), d)
       [] OTHER -> Stay(S, "event not allowed by the specification: " \o e.e)

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN /\ st' = [k |-> "ctx", order |-> e.order, tab |-> <<>>, nre |-> 0, nim |-> 0, books |-> <<>>, stored |-> 0]
            /\ bad' = FALSE
       ELSE IF e.e = "tab"
       THEN /\ st' = [st EXCEPT !.tab = e.t, !.nre = e.nre, !.nim = e.nim, !.books = Force([k \in 1..Len(@) |-> WiderBook(@[k], st, e)])]
            /\ bad' = (bad \/ SubSeq(e.t, 1, Len(st.tab)) # st.tab)
            /\ bad' /\ ~bad => Reject("a registered symbol changed")
       ELSE LET r == IF st.k = "none" THEN <<"no context", st>> ELSE Step(st, e) IN
            /\ st' = IF e.e = "store" THEN [r[2] EXCEPT !.stored = @ + 1] ELSE r[2]
            /\ bad' = (bad \/ r[1] # "")
            /\ r[1] # "" => Reject(r[1])
TraceSpec == Init /\ [][Next]_vars
=============================================================================
