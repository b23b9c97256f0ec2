------------------------------- MODULE Threads -------------------------------
(* What several threads may see of an object they share.  An object is a     *)
(* machine with one step per operation; a history of calls and returns is    *)
(* right if every operation can be given one moment between its call and its *)
(* return, such that the object, stepping at these moments, gives every      *)
(* result.  A thread may wait for ever only if no step is left for it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Force(q) == q \o <<>>
Pending == -99         \* the result of an operation that never returned

(* ------- the objects: states that may follow, given operation, argument and (if known) result *)
First(kind, needs) ==
    CASE kind = "queue"  -> [q |-> <<>>, stop |-> FALSE]
      [] kind = "store"  -> [live |-> 0 :> 50, used |-> {0}]
      [] kind = "system" -> [at |-> <<>>, needs |-> needs]   \* key -> number of the matrix; key -> the keys made with it
      [] kind = "once"   -> [made |-> <<>>, sum |-> <<>>]  \* key -> the object, and what is read in it
Fits(got, want) == got = want \/ got = Pending
Only(o, ok) == IF ok THEN {o} ELSE {}
(* an attempt that began before the queue was stopped may still take what it finds *)
QueueStep(o, op, x, r, early) ==
    CASE op = "push"  -> {[o EXCEPT !.q = Append(@, x)]}
      [] op = "abort" -> {[o EXCEPT !.stop = TRUE]}
      [] op \in {"try", "wait"} ->
            IF o.stop THEN Only(o, Fits(r, -1)) \cup (IF op = "try" /\ early /\ o.q # <<>> THEN Only([o EXCEPT !.q = Tail(@)], Fits(r, o.q[1])) ELSE {})
            ELSE IF o.q # <<>> THEN Only([o EXCEPT !.q = Tail(@)], Fits(r, o.q[1]))
            ELSE IF op = "try" THEN Only(o, Fits(r, -1)) ELSE {}        \* wait: not yet
StoreStep(o, op, x, r) ==
    CASE op = "store" -> Only([live |-> (r :> x) @@ o.live, used |-> o.used \cup {r}], r # Pending /\ r \notin o.used)
      [] op = "get"   -> Only(o, Fits(r, IF x \in DOMAIN o.live THEN o.live[x] ELSE -1))
      [] op = "free"  -> Only([o EXCEPT !.live = [k \in DOMAIN @ \ {x} |-> @[k]]], Fits(r, IF x \in DOMAIN o.live THEN 1 ELSE -1))
      [] op = "size"  -> Only(o, Fits(r, Cardinality(DOMAIN o.live)))
(* the first request makes what the matrix is made of (in any order), then the matrix, with the next numbers; *)
(* all later requests get the same one *)
Orders(S) == LET n == Cardinality(S) IN {f \in [1..n -> S] : \A i, j \in 1..n : i # j => f[i] # f[j]}
SystemStep(o, op, x, r) ==
    CASE op = "make" -> IF x \in DOMAIN o.at THEN Only(o, Fits(r, o.at[x]))
                        ELSE LET have == Cardinality(DOMAIN o.at)
                                 lack == {o.needs[x][k] : k \in DOMAIN o.needs[x]} \ DOMAIN o.at
                                 here == have + Cardinality(lack) IN
                             IF ~Fits(r, here) THEN {}
                             ELSE {[o EXCEPT !.at = (x :> here) @@ [k \in lack |-> have - 1 + CHOOSE i \in DOMAIN f : f[i] = k] @@ @] : f \in Orders(lack)}
      [] op = "find" -> Only(o, Fits(r, IF x \in DOMAIN o.at THEN o.at[x] ELSE -1))
(* one object per key, the same for all, and the same whoever reads it and when *)
OnceStep(o, op, x, r) ==
    CASE op = "make"  -> IF x \in DOMAIN o.made THEN Only(o, Fits(r, o.made[x]))
                         ELSE Only([o EXCEPT !.made = (x :> r) @@ @], \A k \in DOMAIN o.made : o.made[k] # r)
      [] op = "count" -> IF x \in DOMAIN o.sum THEN Only(o, Fits(r, o.sum[x])) ELSE Only([o EXCEPT !.sum = (x :> r) @@ @], r >= 0)
Step(kind, o, op, x, r, early) ==
    CASE kind = "queue" -> QueueStep(o, op, x, r, early) [] kind = "store" -> StoreStep(o, op, x, r)
      [] kind = "system" -> SystemStep(o, op, x, r) [] kind = "once" -> OnceStep(o, op, x, r)

(* ------- configurations: the object, and for each thread nothing, an operation called, or one that was done *)
Idle == <<"idle">>
(* <<"open", operation, argument, result, was it called before the queue was stopped?>> and <<"done", result>> *)
Next1(kind, c, t, n) ==
    LET u == c.p[t] IN
    [o |-> n, p |-> [v \in DOMAIN c.p |-> IF v = t THEN <<"done", u[4]>>
                                          ELSE IF u[2] = "abort" /\ c.p[v][1] = "open" THEN [c.p[v] EXCEPT ![5] = TRUE] ELSE c.p[v]]]
Steps(kind, c) == UNION {{Next1(kind, c, t, n) : n \in Step(kind, c.o, c.p[t][2], c.p[t][3], c.p[t][4], c.p[t][5])}
                         : t \in {u \in DOMAIN c.p : c.p[u][1] = "open"}}
RECURSIVE Closed(_, _, _)
Closed(kind, C, new) == IF new = {} THEN C
                        ELSE LET more == (UNION {Steps(kind, c) : c \in new}) \ C IN Closed(kind, C \cup more, more)
(* one recorded entry: <<thread, 0 call or 1 return, operation, argument, result>> *)
After(kind, C, e) ==
    IF e[2] = 0 THEN LET D == {[c EXCEPT !.p[e[1]] = <<"open", e[3], e[4], e[5], FALSE>>] : c \in C} IN Closed(kind, D, D)
    ELSE {[c EXCEPT !.p[e[1]] = Idle] : c \in {d \in C : d.p[e[1]] = <<"done", e[5]>>}}
RECURSIVE Configs(_, _, _, _)
Configs(kind, C, h, k) == IF k > Len(h) \/ C = {} THEN C ELSE Configs(kind, After(kind, C, h[k]), h, k + 1)
Start(kind, needs, n) == {[o |-> First(kind, needs), p |-> [t \in 1..n |-> Idle]]}
(* the first entry that no order of steps explains, or 0 *)
RECURSIVE Unexplained(_, _, _, _)
Unexplained(kind, C, h, k) == IF k > Len(h) THEN 0
                              ELSE LET D == After(kind, C, h[k]) IN IF D = {} THEN k ELSE Unexplained(kind, D, h, k + 1)
(* nothing more can happen: every operation called is waiting, and none can step *)
Waits(kind, c) == Steps(kind, c) = {} /\ \A t \in DOMAIN c.p : c.p[t][1] # "done"
=============================================================================
