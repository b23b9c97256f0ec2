---------------------------- MODULE TraceTensors ----------------------------
(* Validates recorded histories of Collins-Gisin, probability and correlator tensors. *)
EXTENDS Tensors, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>
TraceView == <<s, i, bad>>

Dims(S, kind) == CASE kind = "cg" -> S.cgd [] kind = "pt" -> S.ptd [] OTHER -> S.fcd
Lines(S, kind) == CASE kind = "cg" -> S.cgl [] kind = "pt" -> S.ptl [] OTHER -> S.fcl

(* all symbols a combination needs, from the words of its Collins-Gisin elements *)
Needs(S, v) == Force([k \in 1..Len(v) |-> <<S.sym[v[k][1] + 1], v[k][2]>>])
Known(n) == \A k \in 1..Len(n) : n[k][1] >= 0
AsPoly(n) == Force([k \in 1..Len(n) |-> <<n[k][1], Mod(n[k][2], P), 0, 0>>])

(* a polynomial over the numbers of Collins-Gisin elements (plus one) *)
IsCombination(out, v) ==
    LET nums == {v[k][1] : k \in 1..Len(v)}
        co(x) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN acc + t[2] ELSE acc, 0, v)
        live == {x \in nums : co(x) # 0}
    IN /\ Len(out) = Cardinality(live)
       /\ \A k \in 1..Len(out) : out[k][1] - 1 \in live /\ out[k][3] = 1 /\ out[k][2] = co(out[k][1] - 1) /\ out[k][4] = 0 /\ out[k][6] = 0
       /\ \A j, k \in 1..Len(out) : out[j][1] = out[k][1] => j = k

(* a polynomial over symbols: the sum of n (pairs of symbol and integer), in the order of the system *)
IsSum(S, out, n) ==
    LET ids == {n[k][1] : k \in 1..Len(n)}
        co(x) == FoldLeft(LAMBDA acc, t : IF t[1] = x THEN acc + t[2] ELSE acc, 0, n)
        live == {x \in ids : co(x) # 0}
    IN /\ Len(out) = Cardinality(live)
       /\ \A k \in 1..Len(out) : out[k][1] \in live /\ out[k][3] = 1 /\ out[k][2] = co(out[k][1]) /\ out[k][4] = 0 /\ out[k][6] = 0
       /\ \A k \in 1..(Len(out) - 1) : Before(S.tab, S.order, out[k][1], out[k + 1][1])

JudgeCG(S, x) ==
    LET ix == IndexOf(S.cgd, x.o) w == S.words[x.o + 1] id == S.sym[x.o + 1] IN
    IF x.ix # ix THEN "index of an element"
    ELSE IF x.q # w THEN "operators of a Collins-Gisin element"
    ELSE IF x.id # id THEN "symbol of a Collins-Gisin element"
    ELSE IF x.re # (IF id < 0 THEN 0 - 1 ELSE S.tab[id + 1].re) THEN "basis element of a Collins-Gisin element"
    ELSE IF id >= 0 /\ x.al # (HasAliases(S.c) /\ SymbolKey(S.c, w.w) # w.w /\ OfWord(S, w.w) = {}) THEN "whether a Collins-Gisin element is an alias" ELSE ""
JudgeElement(S, kind, x) ==
    LET ix == IndexOf(Dims(S, kind), x.o) v == Force(Expand(Lines(S, kind), S.cgs, ix)) n == Needs(S, v) IN
    IF x.ix # ix THEN "index of an element"
    ELSE IF ~IsCombination(x.cg, v) THEN "combination of Collins-Gisin elements"
    ELSE IF x.has # Known(n) THEN "whether an element has symbols"
    ELSE IF x.has /\ ~IsSum(S, x.sy, n) THEN "symbols of an element" ELSE ""
First(q) == LET f == SelectSeq(q, LAMBDA y : y # "") IN IF f = <<>> THEN "" ELSE f[1]
JudgeTensor(S, e) ==
    LET d == Dims(S, e.kind) IN
    IF e.dims # d THEN "dimensions of a tensor"
    ELSE IF e.count # Count(d) THEN "number of elements"
    ELSE IF e.virt # (IF e.store = "auto" THEN Count(d) > ExplicitLimit ELSE e.store = "virtual") THEN "storage of a tensor"
    ELSE LET w == First([k \in 1..Len(e.items) |-> IF e.kind = "cg" THEN JudgeCG(S, e.items[k]) ELSE JudgeElement(S, e.kind, e.items[k])]) IN
         IF w # "" THEN w
         ELSE IF e.virt THEN (IF e.all /\ e.missing = <<>> THEN "" ELSE "completeness of a virtual tensor")
         ELSE LET gone == SelectSeq([k \in 1..Len(e.items) |-> k], LAMBDA k : IF e.kind = "cg" THEN e.items[k].id < 0 ELSE ~e.items[k].has) IN
              IF e.all # (gone = <<>>) \/ e.ret # e.all THEN "whether a tensor is complete"
              ELSE IF e.kind = "cg" /\ e.missing # [k \in 1..Len(gone) |-> e.items[gone[k]].o] THEN "missing elements" ELSE ""

JudgeRange(S, e) ==
    LET b == Block(e.kind, S.axes, e.asked) IN
    IF e.res # (IF b.ok THEN "ok" ELSE "bad") THEN "whether a block of measurements is allowed"
    ELSE IF ~b.ok THEN ""
    ELSE LET d == BlockDims(b) n == Prod(d) IN
         IF e.dims # d \/ e.size # n THEN "size of a block"
         ELSE IF Len(e.o) # n \/ \E k \in 1..n : e.o[k] # Number(Dims(S, e.kind), BlockElement(b, k - 1)) \/ e.p[k] # k - 1 THEN "elements of a block" ELSE ""

JudgeElem(S, e) ==
    LET b == Block("pt", S.axes, e.asked) IN
    IF e.res # (IF b.ok THEN "ok" ELSE "bad") THEN "whether a joint outcome is allowed"
    ELSE IF b.ok /\ ~IsCombination(e.cg, Force(Expand(S.ptl, S.cgs, b.lo))) THEN "probability of a joint outcome" ELSE ""
JudgeCorr(S, e) ==
    LET ok == \A k \in 1..Len(e.asked) : e.asked[k] \in 0..(MeasurementCount(S.axes) - 1) IN
    LET at == IF ok THEN [k \in 1..Len(e.asked) |-> Where(S.axes, e.asked[k])] ELSE <<>> IN
    IF e.res # (IF ~ok \/ \E j, k \in 1..Len(at) : j < k /\ at[j][1] = at[k][1] THEN "bad" ELSE "ok") THEN "whether a joint measurement is allowed"
    ELSE IF e.res = "ok" /\ ~IsCombination(e.cg, Force(Expand(S.fcl, S.cgs, [a \in 1..Len(S.axes) |->
                LET f == {k \in 1..Len(at) : at[k][1] = a} IN IF f = {} THEN 0 ELSE at[CHOOSE k \in f : TRUE][2]]))) THEN "correlator of a joint measurement" ELSE ""

(* a product distribution imposed on a block: one polynomial per element *)
JudgeRules(S, e) ==
    LET b == Block("pt", S.axes, e.asked)
        n == Prod(BlockDims(b))
        el(k) == Needs(S, Force(Expand(S.ptl, S.cgs, BlockElement(b, k - 1))))
        cond == Block("pt", S.axes, SelectSeq(e.asked, LAMBDA x : x[2] >= 0))
        given == IF e.cond THEN Needs(S, Force(Expand(S.ptl, S.cgs, cond.lo))) ELSE <<<<1, 1>>>>
        known == Known(given) /\ \A k \in 1..n : Known(el(k))
        less(k) == [j \in 1..Len(given) |-> <<given[j][1], Minus((Mod(given[j][2], P) * Frac(e.val[k][1], e.val[k][2])) % P), 0, 0>>]
    IN IF e.res # (IF known THEN "ok" ELSE "missing") THEN "whether values can be imposed"
       ELSE IF ~known THEN ""
       ELSE IF Len(e.out) # n THEN "number of imposed polynomials"
       ELSE IF \E k \in 1..n : ~Sound(e.out[k]) \/ ~IsForm(S, e.out[k], AsPoly(el(k)) \o less(k)) THEN "polynomial for an imposed value" ELSE ""

(* a linear functional rewritten between Collins-Gisin elements and correlators: c = 2 g - 1, g = (1 + c) / 2 *)
Convert(S, v, tofc) ==
    LET d == S.cgd n == Count(d)
        w(x, y) == \* weight with which element x contributes to element y, times 4
            LET a == IndexOf(d, x) b == IndexOf(d, y)
                one(p, q) == IF tofc THEN (IF p = 0 THEN (IF q = 0 THEN 2 ELSE 0) ELSE IF q = 0 \/ q = p THEN 1 ELSE 0)
                             ELSE (IF p = 0 THEN (IF q = 0 THEN 1 ELSE 0) ELSE IF q = p THEN 2 ELSE IF q = 0 THEN 0 - 1 ELSE 0)
            IN one(a[1], b[1]) * one(a[2], b[2])
    IN [y \in 1..n |-> FoldLeft(LAMBDA acc, x : acc + (v[x] * w(x - 1, y - 1)), 0, [x \in 1..n |-> x])]
JudgeConv(S, e) ==
    LET can == S.c.kind = "locality" /\ Len(S.axes) = 2 /\ Binary(S.axes) IN
    IF e.res = "size" THEN (IF can /\ Len(e.in) # Count(S.cgd) THEN "" ELSE "tensor refused")
    ELSE IF e.res # (IF can THEN "ok" ELSE "no") THEN "whether tensors can be converted"
    ELSE IF can /\ (Len(e.in) # Count(S.cgd) \/ Len(e.out) # Len(e.in)) THEN "size of a converted tensor"
    ELSE IF can THEN LET c == Convert(S, e.in, e.tofc) f == IF e.tofc THEN 4 ELSE 1 IN
         IF \E k \in 1..Len(c) : e.out[k][2] = 0 \/ e.out[k][1] * f # c[k] * e.out[k][2] THEN "converted tensor" ELSE ""
    ELSE ""
JudgeView(S, e) ==
    LET v == Expand(Lines(S, e.kind), S.cgs, IndexOf(Dims(S, e.kind), e.o))
        co(w) == FoldLeft(LAMBDA acc, t : IF S.words[t[1] + 1].w = w THEN acc + t[2] ELSE acc, 0, v)
    IN IF Len(e.out) # Len(v) \/ ~e.size THEN "length of a view"
       ELSE IF \E k \in 1..Len(e.out) : e.out[k].q.s # 0 \/ e.out[k].im # 0 \/ e.out[k].re # co(e.out[k].q.w) THEN "terms of a view" ELSE ""

JudgeNames(S, e) ==     \* how measurements and operators are numbered
    LET ax == S.axes
        all == FoldLeft(LAMBDA acc, a : acc \o [m \in 1..Len(ax[a]) |-> <<a, m>>], <<>>, [a \in 1..Len(ax) |-> a])
    IN IF e.mmts # Len(all) \/ e.mpp # [a \in 1..Len(ax) |-> Len(ax[a])] THEN "number of measurements"
       ELSE IF e.opm # [k \in 1..Len(all) |-> ax[all[k][1]][all[k][2]].n] THEN "outcomes of measurements"
       ELSE IF e.opp # [a \in 1..Len(ax) |-> Len(AxisOps(ax[a]))] THEN "operators of parties"
       ELSE IF e.outs # [a \in 1..Len(ax) |-> FoldLeft(LAMBDA acc, m : acc + m.n, 0, ax[a])] THEN "outcomes of parties"
       ELSE IF e.pm # [k \in 1..Len(all) |-> <<all[k][1] - 1, all[k][2] - 1, k - 1>>] THEN "party and number of a measurement"
       ELSE IF e.ops # [k \in 1..Len(all) |-> ax[all[k][1]][all[k][2]].ops] THEN "operators of a measurement"
       ELSE IF e.back # [k \in 1..Len(all) |-> [j \in 1..Len(ax[all[k][1]][all[k][2]].ops) |-> all[k][2] - 1]] THEN "measurement of an operator"
       ELSE IF ~e.same THEN "global numbers of measurements"
       ELSE IF ~e.oob THEN "measurement out of range accepted"
       ELSE IF e.fc # Binary(ax) THEN "whether there are correlators" ELSE ""

Judge(S, e) ==
    IF "threw" \in DOMAIN e THEN "exception: " \o e.threw
    ELSE CASE e.e = "tensor" -> JudgeTensor(S, e)
           [] e.e = "nofc" -> IF S.c.kind # "locality" \/ ~Binary(S.axes) THEN "" ELSE "correlators refused"
           [] e.e = "range" -> JudgeRange(S, e)
           [] e.e = "elem" -> JudgeElem(S, e)
           [] e.e = "corr" -> JudgeCorr(S, e)
           [] e.e = "rules" -> JudgeRules(S, e)
           [] e.e = "conv" -> JudgeConv(S, e)
           [] e.e = "view" -> JudgeView(S, e)
           [] e.e = "none" -> ""
           [] e.e = "race" -> IF e.same THEN "" ELSE "a tensor was replaced while in use"
           [] e.e = "names" -> JudgeNames(S, e)
           [] OTHER -> "event not allowed by the specification: " \o e.e

Fresh(c, order) ==
    LET axes == AxesOf(c)
        ln(kind) == Force([a \in 1..Len(axes) |-> Line(kind, axes[a])])
        di(l) == Force([a \in 1..Len(l) |-> Len(l[a])])
        cg == ln("cg") pt == ln("pt") fc == ln("fc")
    IN [k |-> "ctx", c |-> c, order |-> order, tab |-> <<>>, nre |-> 0, nim |-> 0, axes |-> axes,
        cgl |-> cg, ptl |-> pt, fcl |-> fc, cgd |-> di(cg), ptd |-> di(pt), fcd |-> di(fc), cgs |-> Strides(di(cg)),
        words |-> Force([o \in 1..Count(di(cg)) |-> CGWord(c, axes, IndexOf(di(cg), o - 1))]), sym |-> <<>>]
Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = [k |-> "none"] /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       IF e.e = "ctx" THEN st' = Fresh(MakeContext(e.c), e.order) /\ bad' = FALSE
       ELSE IF e.e = "tab"
       THEN /\ LET S == [st EXCEPT !.tab = e.t, !.nre = e.nre, !.nim = e.nim] IN st' = [S EXCEPT !.sym = Force([o \in 1..Len(S.words) |-> SymbolOf(S, S.words[o].w)])]
            /\ bad' = (bad \/ SubSeq(e.t, 1, Len(st.tab)) # st.tab)
            /\ bad' /\ ~bad => Reject("a registered symbol changed")
       ELSE LET r == IF st.k = "none" THEN "no context" ELSE Judge(st, e) IN
            /\ st' = st
            /\ bad' = (bad \/ r # "")
            /\ r # "" => Reject(r)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
