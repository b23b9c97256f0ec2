--------------------------- MODULE TraceInflation ---------------------------
(* Validates recorded histories of inflation systems.                        *)
EXTENDS Inflation, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

(* ---- the factor table ------------------------------------------------------ *)
EntryWhy(S, f, x) ==
    LET e == f[x + 1] y == S.tab[x + 1] IN
    IF e.id # x THEN "number of a factor entry"
    ELSE IF e.fund # (Len(e.bag) <= 1) \/ e.bag = <<>> THEN "whether a moment factorises"
    ELSE IF \E k \in 1..(Len(e.bag) - 1) : e.bag[k] > e.bag[k + 1] THEN "order of factors"
    ELSE IF \E k \in 1..Len(e.bag) : e.bag[k] \notin 0..(Len(f) - 1) \/ (Len(e.bag) > 1 /\ (e.bag[k] <= 1 \/ Len(f[e.bag[k] + 1].bag) # 1)) THEN "a factor that factorises"
    ELSE IF ~y.has THEN IF Len(e.bag) < 2 THEN "introduced symbol is not a product"
                        ELSE IF e.can # [k \in 1..Len(e.bag) |-> S.tab[e.bag[k] + 1].q] THEN "words of an introduced symbol" ELSE ""
    ELSE IF IsZero(y.q) THEN IF e.bag = <<0>> /\ x = 0 THEN "" ELSE "factors of zero"
    ELSE LET ps == Parts(S.c, y.q.w) IN
         IF e.raw # [k \in 1..Len(ps) |-> [s |-> 0, w |-> ps[k]]] THEN "connected parts of a word"
         ELSE IF e.can # [k \in 1..Len(ps) |-> [s |-> 0, w |-> Canon(S.c, ps[k])]] THEN "canonical parts of a word"
         ELSE IF \E k \in 1..Len(ps) : OfWord(S, e.can[k].w) = {} THEN "part without a symbol"
         ELSE IF e.bag # Sorted([k \in 1..Len(ps) |-> CHOOSE z \in OfWord(S, e.can[k].w) : TRUE]) THEN "symbols of the factors" ELSE ""
Appearances(f, x) == FoldLeft(LAMBDA acc, e : IF Len(e.bag) < 2 THEN acc ELSE FoldLeft(LAMBDA n, y : IF y = x THEN n + 1 ELSE n, acc, e.bag), 0, f)
Fixed1(e) == [id |-> e.id, bag |-> e.bag, raw |-> e.raw, can |-> e.can]
JudgeFac(S, e) ==
    LET n == Len(S.tab) f == e.f IN
    IF Len(f) # n \/ e.n # n THEN "number of factor entries"
    ELSE IF \E k \in 1..Len(S.fac) : Fixed1(f[k]) # Fixed1(S.fac[k]) THEN "factors of a symbol changed"
    ELSE LET w == SelectSeq([k \in 1..(n - e.old) |-> EntryWhy(S, f, (e.old + k) - 1)], LAMBDA y : y # "") IN
         IF w # <<>> THEN w[1]
         ELSE IF \E k \in 1..n : e.idx[k] \notin 0..(n - 1) \/ f[e.idx[k] + 1].bag # f[k].bag THEN "symbol found for a product"
         ELSE IF \E j, k \in 1..n : f[j].bag = f[k].bag /\ e.idx[j] # e.idx[k] THEN "symbol found for a product"
         ELSE IF \E k \in (e.old + 1)..n : ~S.tab[k].has /\ \E j \in 1..n : j # k /\ f[j].bag = f[k].bag THEN "second symbol introduced for a product"
         ELSE IF \E k \in 1..n : f[k].app # Appearances(f, k - 1) THEN "number of appearances of a factor"
         ELSE IF \E k \in (e.old + 1)..n : ~S.tab[k].h \/ S.tab[k].ah \/ S.tab[k].im >= 0 THEN (IF \A k \in (e.old + 1)..n : k = 1 \/ (S.tab[k].h /\ S.tab[k].im < 0) THEN "" ELSE "moment is not real")
         ELSE ""

(* ---- rulebooks follow the table: <<reason, books>> ------------------------- *)
InUseChange(b, c) == IF b.E # c.E THEN [c EXCEPT !.wild = @ \cup b.subs] ELSE c
Order(S) == LET ks == {k \in 1..Len(S.books) : S.books[k].id >= 0 /\ S.books[k].live} IN SortSeq(SetToSeq(ks), LAMBDA a, b : S.books[a].id < S.books[b].id)
RECURSIVE ExpandBooks(_, _, _, _)
ExpandBooks(S, books, ks, from) ==
    IF ks = <<>> THEN [res |-> "ok", books |-> books]
    ELSE LET b == books[ks[1]] IN
         IF ~Expands(b) THEN ExpandBooks(S, books, Tail(ks), from)
         ELSE LET r == Expanded(S, b, from) IN
              IF r.res # "ok" THEN [res |-> r.res, books |-> books]
              ELSE ExpandBooks(S, [books EXCEPT ![ks[1]] = InUseChange(b, [b EXCEPT !.E = r.E, !.raw = <<>>, !.due = TRUE])], Tail(ks), from)
(* n new symbols: all stored books are expanded *)
Refreshed(S, e, why) ==
    LET r == IF Len(S.tab) = e.old THEN [res |-> "ok", books |-> S.books] ELSE ExpandBooks(S, S.books, Order(S), e.old)
    IN <<IF why # "" THEN why ELSE IF e.res # r.res THEN "effect of new symbols on rulebooks: " \o r.res ELSE "", [S EXCEPT !.books = r.books]>>

JudgeExt(S, e) ==
    LET rows == Force([k \in 1..Len(e.rows) |-> RowSymbol(S, e.rows[k])])
        d == Len(rows) x == Len(e.list) n == d + x
        label(k) == IF k <= d THEN Bag(S, rows[k]) ELSE Bag(S, e.list[k - d])
        at(m, dim, r, c) == m[(((r - 1) * dim) + c)]
    IN IF \E k \in 1..d : rows[k] < 0 THEN "row without a symbol"
       ELSE IF e.dim # n \/ e.orig # d \/ Len(e.in) # d * d \/ Len(e.out) # n * n THEN "dimension of an extended matrix"
       ELSE IF ~e.same THEN "extended matrix found again"
       ELSE IF ~e.plain \/ ~e.herm THEN "cells of an extended matrix are not plain symbols"
       ELSE IF \E r, c \in 1..d : at(e.out, n, r, c) # at(e.in, d, r, c) THEN "original part of an extended matrix"
       ELSE IF \E r, c \in 1..n : at(e.out, n, r, c) # at(e.out, n, c, r) THEN "extended matrix is not symmetric"
       ELSE IF \E r \in 1..n, c \in (d + 1)..n : at(e.out, n, r, c) \notin 0..(Len(S.fac) - 1) THEN "unknown symbol in an extended matrix"
       ELSE IF \E r \in 1..n, c \in (d + 1)..n : Bag(S, at(e.out, n, r, c)) # Joint(label(r), label(c)) THEN "extended cell is not the product of its row and column"
       ELSE IF ~e.had /\ \E r \in 1..n, c \in (d + 1)..n : at(e.out, n, r, c) # FindBag(S, Joint(label(r), label(c))) THEN "symbol of an extended cell"
       ELSE IF e.had /\ Len(S.tab) # e.old THEN "symbols introduced by an existing matrix"
       ELSE IF ~(e.old..(Len(S.tab) - 1) \subseteq Range1(e.out)) THEN "symbol introduced for nothing"
       ELSE LET used == Range1(e.out) \ {0} IN
            IF Range1(e.inc) \ {0} # used THEN "symbols of an extended matrix"
            ELSE IF Range1(e.reb) # {S.tab[y + 1].re : y \in used} \/ e.imb # <<>> THEN "basis of an extended matrix" ELSE ""

JudgeQuery(S, e) ==
    LET C == S.c raw == C.raw
        ok(q) == /\ q.gv = VarStart(raw, q.o + 1) + q.v /\ q.bo = q.o /\ q.bv = q.v
                 /\ q.op = IF q.k + 1 < raw.outcomes[q.o + 1] THEN C.start[q.o + 1] + (q.v * OpsOf(raw, q.o + 1)) + q.k ELSE 0 - 1
    IN IF \E k \in 1..Len(e.in) : ~ok(e.in[k]) THEN "number of a measurement or operator"
       ELSE IF e.flat # FoldLeft(LAMBDA acc, q : (acc * raw.outcomes[q.o + 1]) + q.k, 0, e.in) \/ ~e.back THEN "number of a joint outcome"
       ELSE IF e.outs # [k \in 1..Len(e.in) |-> raw.outcomes[e.in[k].o + 1]] THEN "numbers of outcomes"
       ELSE IF e.vars # VarStart(raw, Len(raw.outcomes) + 1) THEN "number of measurements"
       ELSE IF ~e.oob THEN "observable out of range accepted" ELSE ""

(* <<reason, state after>> *)
Stay(S, why) == <<why, S>>
Set(S, k, b) == [S EXCEPT !.books[k] = b]
NewBook(e) == [E |-> <<>>, raw |-> <<>>, rules |-> <<>>, used |-> FALSE, safe |-> e.safe, exp |-> FALSE, live |-> TRUE, id |-> 0 - 1, wild |-> {}, subs |-> {}, due |-> FALSE]
(* what a book must be now: its rules solve its span *)
Settled(S, e, k, b) == LET rules == RulesIn(e) c == [b EXCEPT !.rules = rules] IN
                       <<Then(Status(S, e, rules, c), IF b.due THEN Solved(S, rules, b.E) ELSE IF Unchanged(e, b) THEN "" ELSE "rules changed"), Set(S, k, [c EXCEPT !.due = FALSE])>>
Step(S, e) ==
    IF e.e = "ext" /\ e.bad THEN <<IF "threw" \notin DOMAIN e THEN "extension by an unknown symbol" ELSE IF Len(S.tab) # e.old THEN "failed extension introduced symbols" ELSE "", S>>
    ELSE IF "threw" \in DOMAIN e THEN Stay(S, "exception: " \o e.threw)
    ELSE IF e.e = "fac" THEN <<JudgeFac(S, e), [S EXCEPT !.fac = e.f, !.idx = e.idx]>>
    ELSE IF e.e = "mm" THEN Refreshed(S, e, "")
    ELSE IF e.e = "ext" THEN Refreshed(S, e, IF e.res = "ok" THEN JudgeExt(S, e) ELSE "")
    ELSE IF e.e = "sug" THEN
         LET rows == Force([k \in 1..Len(e.rows) |-> RowSymbol(S, e.rows[k])])
         IN Stay(S, IF Range1(e.out) # Suggested(S, rows, Range1(e.inc)) THEN "suggested extensions" ELSE "")
    ELSE IF e.e = "mul" THEN Stay(S, IF e.out # TimesIds(S, e.list) THEN "product of symbols" ELSE "")
    ELSE IF e.e = "pmul" THEN
         IF ~Sound(e.a) \/ ~Sound(e.b) THEN Stay(S, "coefficient")
         ELSE LET r == TimesPolys(S, Terms(e.a), Terms(e.b)) IN
              Stay(S, IF e.res # (IF r.ok THEN "ok" ELSE "unknown") THEN "whether a product of polynomials is known"
                      ELSE IF r.ok /\ ~IsForm(S, e.out, r.p) THEN "product of polynomials" ELSE "")
    ELSE IF e.e = "parts" THEN
         LET ps == Parts(S.c, e.q.w) IN
         Stay(S, IF e.p # [k \in 1..Len(ps) |-> [s |-> 0, w |-> ps[k]]] THEN "connected parts of a word"
                 ELSE IF e.c # [k \in 1..Len(ps) |-> [s |-> 0, w |-> Canon(S.c, ps[k])]] THEN "canonical parts of a word" ELSE "")
    ELSE IF e.e = "query" THEN Stay(S, JudgeQuery(S, e))
    ELSE IF e.e = "book" THEN <<IF e.b # Len(S.books) THEN "number of books" ELSE "", [S EXCEPT !.books = Append(@, NewBook(e))]>>
    ELSE
    LET k == e.b + 1
        b == S.books[k]
    IN CASE e.e = "add" ->
            IF Blocked(b) THEN Stay(S, IF e.res = "used" THEN "" ELSE "rules added to a rulebook in use")
            ELSE IF e.res # "ok" THEN Stay(S, "rules refused")
            ELSE LET c == [b EXCEPT !.raw = @ \o Force([j \in 1..Len(e.in) |-> Terms(e.in[j])])] IN
                 <<IF \E j \in 1..Len(e.in) : ~Sound(e.in[j]) THEN "coefficient"
                   ELSE Then(Status(S, e, RulesIn(e), c), IF Unchanged(e, b) THEN "" ELSE "rules changed before completion"), Set(S, k, c)>>
       [] e.e = "complete" ->
            IF Blocked(b) THEN Stay(S, IF e.res = "used" THEN "" ELSE "rulebook in use was completed")
            ELSE LET E == Force(Full(S, b)) IN
                 IF Contradictory(S, E) THEN <<IF e.res = "contra" THEN "" ELSE "contradiction not noticed", Set(S, k, [b EXCEPT !.live = FALSE])>>
                 ELSE IF e.res # "ok" THEN <<"completion refused", Set(S, k, [b EXCEPT !.live = FALSE])>>
                 ELSE Settled(S, e, k, [b EXCEPT !.raw = <<>>, !.E = E, !.due = TRUE])
       [] e.e = "store" ->
            LET r == IF Expands(b) THEN Expanded(S, b, 0) ELSE [res |-> "ok", E |-> b.E] IN
            IF e.res # r.res THEN Stay(S, "effect of storing a rulebook: " \o r.res)
            ELSE IF r.res # "ok" THEN Stay(S, "")
            ELSE IF e.id # S.stored \/ ~e.same THEN Stay(S, "number of a stored rulebook")
            ELSE LET x == Settled(S, e, k, IF Expands(b) THEN [b EXCEPT !.raw = <<>>, !.E = r.E, !.id = e.id, !.due = TRUE] ELSE [b EXCEPT !.id = e.id]) IN <<x[1], [x[2] EXCEPT !.stored = @ + 1]>>
       [] e.e = "combine" ->
            LET c == S.books[e.c + 1] IN
            IF Blocked(b) \/ c.used THEN Stay(S, IF e.res = "used" THEN "" ELSE "rulebooks in use were merged")
            ELSE LET E == Force(InsertAll(b.E, [j \in 1..Len(c.E) |-> c.E[j].r])) IN
                 IF Contradictory(S, E) THEN Stay(S, IF e.res # "contra" THEN "contradiction between rulebooks not noticed" ELSE "")
                 ELSE LET d == [b EXCEPT !.E = E, !.rules = SolvedForm(S, E)]
                          gone == Set(S, e.c + 1, [c EXCEPT !.live = FALSE])
                          r == IF Expands(d) THEN Expanded(S, d, 0) ELSE [res |-> "ok", E |-> E]
                      IN IF e.res # r.res THEN Stay(S, "effect of merging rulebooks: " \o r.res)
                         ELSE IF r.res # "ok" THEN Stay(S, "")
                         ELSE Settled(gone, e, k, [d EXCEPT !.E = r.E, !.due = TRUE])
       [] e.e = "state" -> Settled(S, e, k, b)
       [] e.e = "red" -> Stay(S, JudgeRed(S, e, b))
       [] e.e = "sub" ->
            LET c == [b EXCEPT !.used = TRUE, !.subs = @ \cup {e.off}] IN
            <<IF e.res # "ok" THEN "no substituted matrix"
              ELSE Then(IF e.off \in b.wild THEN "" ELSE JudgeSub(S, e, b), Then(Status(S, e, RulesIn(e), c), IF Unchanged(e, b) THEN "" ELSE "rules changed by use")), Set(S, k, c)>>
       [] OTHER -> Stay(S, "event not allowed by the specification: " \o e.e)

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx"
       THEN /\ st' = [k |-> "ctx", c |-> MakeContext(e.c), order |-> e.order, tab |-> <<>>, nre |-> 0, nim |-> 0, fac |-> <<>>, idx |-> <<>>, books |-> <<>>, stored |-> 0]
            /\ bad' = FALSE
       ELSE IF e.e = "tab"
       THEN /\ st' = [st EXCEPT !.tab = e.t, !.nre = e.nre, !.nim = e.nim, !.books = Force([k \in 1..Len(@) |-> WiderBook(@[k], st, e)])]
            /\ bad' = (bad \/ SubSeq(e.t, 1, Len(st.tab)) # st.tab)
            /\ bad' /\ ~bad => Reject("a registered symbol changed")
       ELSE LET r == IF st.k = "none" THEN <<"no context", st>> ELSE Step(st, e) IN
            /\ st' = r[2]
            /\ bad' = (bad \/ r[1] # "")
            /\ r[1] # "" => Reject(r[1])
TraceSpec == Init /\ [][Next]_vars
=============================================================================
