--------------------------- MODULE TraceContainers ---------------------------
(* Validates recorded histories of collections, and enumerations.            *)
EXTENDS Containers, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, st, bad
vars == <<s, i, st, bad>>

Range(q) == {q[k] : k \in 1..Len(q)}
Lists(l, S) == Strictly(l) /\ Range(l) = S

(* ------- sequences: st.v *)
VecAfter(v, e) ==
    LET q == v[e.a] IN
    CASE e.op = "push"   -> [v EXCEPT ![e.a] = Append(q, e.x[1])]
      [] e.op = "pop"    -> [v EXCEPT ![e.a] = SubSeq(q, 1, Len(q) - 1)]
      [] e.op = "insert" -> [v EXCEPT ![e.a] = Insert(q, e.lo, e.x)]
      [] e.op = "erase"  -> [v EXCEPT ![e.a] = Erase(q, e.lo, e.hi)]
      [] e.op = "clear"  -> [v EXCEPT ![e.a] = <<>>]
      [] e.op = "new"    -> [v EXCEPT ![e.a] = e.x]
      [] e.op = "fill"   -> [v EXCEPT ![e.a] = Force([k \in 1..e.lo |-> e.x[1]])]
      [] e.op = "copy"   -> [v EXCEPT ![e.a] = v[e.b]]
      [] e.op = "move"   -> [v EXCEPT ![e.a] = v[e.b], ![e.b] = e.x]
      [] e.op = "swap"   -> [v EXCEPT ![e.a] = v[e.b], ![e.b] = q]
      [] e.op = "set"    -> [v EXCEPT ![e.a] = [q EXCEPT ![e.lo + 1] = e.x[1]]]
      [] e.op \in {"reserve", "same"} -> v
JudgeVec(v, e) ==
    LET q == v[e.a] IN
    IF e.all # v THEN "elements of a vector"
    ELSE IF e.rev # Reverse(q) THEN "elements of a vector, backwards"
    ELSE IF e.at # q \/ e.span # q \/ e.size # Len(q) \/ e.empty # (q = <<>>) \/ ~e.room THEN "size or view of a vector"
    ELSE IF q # <<>> /\ e.ends # <<q[1], q[1], Last(q), Last(q), q[1]>> THEN "ends of a vector"
    ELSE IF e.eq # Force([k \in 1..3 |-> q = v[k]]) \/ e.ne # Force([k \in 1..3 |-> q # v[k]]) THEN "comparison of vectors"
    ELSE ""

(* ------- sets of numbers: st.v, st.n *)
BitAfter(v, n, e) ==
    LET B == v[e.a] IN
    CASE e.op = "set"   -> [v EXCEPT ![e.a] = B \cup {e.i}]
      [] e.op = "unset" -> [v EXCEPT ![e.a] = B \ {e.i}]
      [] e.op = "clear" -> [v EXCEPT ![e.a] = {}]
      [] e.op = "and"   -> [v EXCEPT ![e.a] = B \cap v[e.b]]
      [] e.op = "or"    -> [v EXCEPT ![e.a] = B \cup v[e.b]]
      [] e.op = "not"   -> [v EXCEPT ![e.a] = Below(n) \ B]
      [] e.op = "copy"  -> [v EXCEPT ![e.a] = v[e.b]]
      [] e.op = "swap"  -> [v EXCEPT ![e.a] = v[e.b], ![e.b] = B]
      [] e.op = "subset" -> v
JudgeBit(v, n, e) ==
    LET B == v[e.a] IN
    IF \E k \in 1..3 : ~Lists(e.all[k], v[k]) THEN "elements of a bitset"
    ELSE IF ~Lists(e.each, B) THEN "iteration over a bitset"
    ELSE IF ~Lists(e.on, B) THEN "membership in a bitset"
    ELSE IF e.count # Cardinality(B) \/ e.empty # (B = {}) \/ e.first # First(B, n) THEN "count or first element of a bitset"
    ELSE IF e.eq # Force([k \in 1..3 |-> B = v[k]]) \/ e.ne # Force([k \in 1..3 |-> B # v[k]]) THEN "comparison of bitsets"
    ELSE IF e.op = "subset" /\ ~Lists(e.sub, Window(B, e.i, e.len)) THEN "window of a bitset"
    ELSE ""

(* ------- maps over words: st.v[k] = [val, nodes] *)
EmptyTree == [val |-> <<>> :> -1, nodes |-> {<<>>}]
Value(t, w) == IF w \in DOMAIN t.val THEN t.val[w] ELSE -1
With(t, w, x) == [val |-> (w :> x) @@ t.val, nodes |-> t.nodes \cup Prefixes(w)]
IsLeaf(t, w) == \A u \in t.nodes : ~(Len(u) = Len(w) + 1 /\ SubSeq(u, 1, Len(w)) = w)
Deepest(t, w) == CHOOSE k \in 0..Len(w) : SubSeq(w, 1, k) \in t.nodes /\ \A j \in (k + 1)..Len(w) : SubSeq(w, 1, j) \notin t.nodes
Valued(t) == {w \in DOMAIN t.val : t.val[w] # -1}
TreeAfter(v, e) ==
    LET t == v[e.a] u == v[3 - e.a] IN
    CASE e.op = "add"  -> [v EXCEPT ![e.a] = With(t, e.key, e.x)]
      [] e.op = "new"  -> [v EXCEPT ![e.a] = IF Value(t, e.key) = -1 THEN With(t, e.key, e.x) ELSE t]
      [] e.op = "node" -> [v EXCEPT ![e.a] = [t EXCEPT !.nodes = @ \cup Prefixes(e.key)]]
      [] e.op = "merge" -> [v EXCEPT ![e.a] = [val |-> [w \in Valued(u) |-> u.val[w]] @@ t.val, nodes |-> t.nodes \cup u.nodes], ![3 - e.a] = EmptyTree]
      [] OTHER -> v
JudgeTree(old, v, e) ==
    LET was == old[e.a] t == v[e.a] IN
    CASE e.op = "new" -> IF e.fresh # (Value(was, e.key) = -1) \/ e.got # Value(t, e.key) THEN "adding to a tree" ELSE ""
      [] e.op = "find" -> IF e.got # Value(t, e.key) THEN "value in a tree"
                          ELSE IF e.node # (e.key \in t.nodes) THEN "node of a tree"
                          ELSE IF e.node /\ (e.there # Value(t, e.key) \/ e.leaf # IsLeaf(t, e.key)) THEN "node of a tree" ELSE ""
      [] e.op = "hint" -> LET k == Deepest(t, e.key) IN
                          IF e.rest # SubSeq(e.key, k + 1, Len(e.key)) \/ e.got # Value(t, SubSeq(e.key, 1, k)) THEN "nearest node of a tree" ELSE ""
      [] e.op = "node" -> IF e.fresh # (e.key \notin was.nodes) \/ e.got # Value(t, e.key) THEN "adding a node to a tree" ELSE ""
      [] e.op = "list" -> LET words == Force([k \in 1..Len(e.items) |-> e.items[k][1]]) IN
                          IF ~(Ordered(words) /\ Range(words) = t.nodes) THEN "nodes of a tree"
                          ELSE IF \E k \in 1..Len(e.items) : e.items[k][2] # Value(t, words[k]) \/ e.items[k][3] # Len(words[k]) \/ (e.items[k][4] = 1) # IsLeaf(t, words[k])
                          THEN "values in a tree" ELSE ""
      [] OTHER -> ""

(* ------- enumerations *)
Column(items, c) == Force([k \in 1..Len(items) |-> items[k][c]])
JudgeEnum(e) ==
    LET p == e.p q == e.items
        right == CASE e.kind = "comb"    -> OnceEach(q, Choices(p[1], p[2])) /\ ReverseOrdered(q)
                   [] e.kind = "commute" -> OnceEach(q, NonDecreasing(0, p[1], p[2])) /\ Ordered(q)
                   [] e.kind = "nondec"  -> OnceEach(q, NonDecreasing(0, p[1], p[2])) /\ Ordered(q)
                   [] e.kind = "split"   -> /\ OnceEach(Column(q, 1), Choices(p[1], p[2]))
                                            /\ \A k \in 1..Len(q) :
                                                 LET x == q[k] IN
                                                 /\ Lists(x[2], Below(p[1]) \ Range(x[1]))
                                                 /\ x[3] = Force([j \in 1..p[1] |-> IF (j - 1) \in Range(x[1]) THEN 1 ELSE 0])
                                                 /\ x[4] = x[1] /\ x[5] = x[2]
                   [] e.kind = "sums"    -> OnceEach(q, Sums(p[1], p[2])) /\ (IF p[3] = 1 THEN Backward(q) ELSE Ordered(q))
                   [] e.kind = "tri"     -> Ordered(q) /\ OnceEach(q, IF p[1] = 0 \/ p[2] = 0 THEN {} ELSE IF p[3] = 1 THEN NonDecreasing(0, p[1], p[2]) ELSE Choices(p[1], p[2]))
                   [] e.kind = "box"     -> OnceEach(q, IF p[2] = <<>> THEN {} ELSE Box([k \in 1..Len(p[2]) |-> 0], p[2])) /\ (IF p[1] = 1 THEN ReverseOrdered(q) ELSE Ordered(q))
                   [] e.kind = "span"    -> OnceEach(q, IF p[2] = <<>> THEN {} ELSE Box(p[2], p[3])) /\ (IF p[1] = 1 THEN ReverseOrdered(q) ELSE Ordered(q))
    IN IF ~right THEN "enumeration: " \o e.kind ELSE IF ~e.placed THEN "position in an enumeration: " \o e.kind ELSE ""
JudgeFn(e) ==
    LET x == e.x
        y == CASE e.f = "binom"    -> <<Binomial(x[1], x[2]), Binomial(x[1], x[2])>>
               [] e.f = "power"    -> <<Power(x[1], x[2])>>
               [] e.f = "rotation" -> <<LeastRotation(x)>>
               [] e.f = "meet"     -> <<Meet(x[1], x[2])>>
               [] e.f = "merge"    -> Merged(x[1], x[2])
               [] e.f = "chunks"   -> Chunks(x[1], x[2])
               [] e.f = "parts"    -> Parts(x[1], x[2], Len(x[2]))
               [] e.f = "hash"     -> <<Hash(x[1], 1, x[2])>>
               [] e.f = "kron"     -> Kronecker(x[2], x[1])
               [] e.f = "order"    -> <<IF Shorter(x[1], x[2]) THEN -1 ELSE IF Shorter(x[2], x[1]) THEN 1 ELSE 0>>
    IN IF e.y # y THEN "function: " \o e.f ELSE ""
JudgeTensor(e) ==
    IF e.count # Size(e.dims) THEN "number of elements of a tensor"
    ELSE IF \E k \in 1..Len(e.offs) : e.offs[k][2] # (IF Within(e.dims, e.offs[k][1]) THEN Offset(e.dims, e.last, e.offs[k][1]) ELSE -1) THEN "offset in a tensor"
    ELSE IF \E k \in 1..Len(e.back) :
              IF k > Size(e.dims) THEN e.back[k] # <<-1>> ELSE ~Within(e.dims, e.back[k]) \/ Offset(e.dims, e.last, e.back[k]) # k - 1 THEN "index in a tensor"
    ELSE IF ~e.refused \/ e.range # (\A d \in 1..Len(e.dims) : e.dims[d] > 0) \/ ~(e.beyond \/ ~e.range) THEN "bounds of a tensor"
    ELSE ""
JudgeFlat(e) ==
    LET n == Len(e.dims) D == [k \in 1..n |-> Len(e.pick[k])]
        at == IF \E k \in 1..n : D[k] = 0 THEN {} ELSE Box([k \in 1..n |-> 0], D)
        Picked(ix) == Force([k \in 1..n |-> e.pick[k][ix[k] + 1]])
        count == Product([k \in 1..n |-> D[k]])
    IN IF e.size # count \/ e.empty # (count = 0) \/ Len(e.items) # count THEN "size of a part of a tensor"
       ELSE IF \E k \in 1..count :
                 LET (* the k-th place of the box, first index fastest *)
                     place == Force([d \in 1..n |-> ((k - 1) \div Product(SubSeq([j \in 1..n |-> D[j]], 1, d - 1))) % D[d]])
                 IN e.items[k][1] # Picked(place) \/ e.items[k][2] # Offset(e.dims, TRUE, Picked(place))
       THEN "part of a tensor" ELSE ""
Triangle(e, want(_, _)) ==
    LET d == e.d
        cells == {<<r, c>> \in Below(d) \X Below(d) : want(r, c)}
    IN cells
RightTriangle(e, q, want(_, _)) ==
    /\ OnceEach([k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>], Triangle(e, want))
    /\ ReverseOrdered([k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>])
    /\ \A k \in 1..Len(q) : /\ q[k][3] = q[k][1] + q[k][2] * e.d
                            /\ q[k][4] = Cell(e.data, e.d, q[k][1], q[k][2])
                            /\ (q[k][5] = 1) = (q[k][1] = q[k][2])
                            /\ q[k][6] = q[k][1] /\ q[k][7] = q[k][2]
JudgeSquare(e) ==
    LET d == e.d n == e.d + e.pad
        Rows(t) == Force([r \in 1..d |-> Force([c \in 1..d |-> IF t THEN Cell(e.data, d, c - 1, r - 1) ELSE Cell(e.data, d, r - 1, c - 1)])])
        UI(r, c) == r <= c
        UE(r, c) == r < c
        LI(r, c) == r >= c
        LE(r, c) == r > c
    IN IF e.rows # Rows(FALSE) \/ e.each # e.data THEN "element of a matrix"
       ELSE IF e.trans # Rows(TRUE) \/ e.order # Force([k \in 1..(d * d) |-> Cell(e.data, d, (k - 1) \div d, (k - 1) % d)]) THEN "transposed matrix"
       ELSE IF ~RightTriangle(e, e.ui, UI) \/ ~RightTriangle(e, e.cui, UI) THEN "upper triangle of a matrix"
       ELSE IF ~RightTriangle(e, e.ue, UE) \/ ~RightTriangle(e, e.cue, UE) THEN "upper triangle of a matrix, without diagonal"
       ELSE IF ~RightTriangle(e, e.li, LI) \/ ~RightTriangle(e, e.cli, LI) THEN "lower triangle of a matrix"
       ELSE IF ~RightTriangle(e, e.le, LE) \/ ~RightTriangle(e, e.cle, LE) THEN "lower triangle of a matrix, without diagonal"
       ELSE IF e.pd # n \/ e.padded # Force([k \in 1..(n * n) |-> LET r == (k - 1) % n c == (k - 1) \div n IN IF r < d /\ c < d THEN Cell(e.data, d, r, c) ELSE -7]) THEN "padded matrix"
       ELSE ""

(* ------- stores: st = [sig, live, used], queues: st = [q, stop] *)
KeyError(S, key) == IF key[1] # S.sig THEN "sig" ELSE IF key[2] \notin DOMAIN S.live THEN "none" ELSE ""
StoreAfter(S, e) ==
    CASE e.op = "store" -> [S EXCEPT !.live = (e.key[2] :> e.x) @@ @, !.used = @ \cup {e.key[2]}]
      [] e.op = "free"  -> IF KeyError(S, e.key) # "" THEN S ELSE [S EXCEPT !.live = [k \in DOMAIN S.live \ {e.key[2]} |-> S.live[k]]]
      [] e.op = "clear" -> [S EXCEPT !.live = <<>>, !.used = {}]
      [] OTHER -> S
JudgeStore(old, S, e) ==
    IF e.size # Cardinality(DOMAIN S.live) \/ e.empty # (DOMAIN S.live = {}) THEN "size of a store"
    ELSE CASE e.op = "store" -> IF e.key[1] # S.sig \/ e.key[2] \in old.used THEN "key of a stored object" ELSE ""
           [] e.op = "get"   -> IF e.err # KeyError(S, e.key) \/ (e.err = "" /\ e.x # S.live[e.key[2]]) THEN "object with a key" ELSE ""
           [] e.op = "free"  -> IF e.err # KeyError(old, e.key) THEN "release of an object" ELSE ""
           [] e.op = "list"  -> IF ~(Lists(Column(e.items, 1), DOMAIN S.live) /\ \A k \in 1..Len(e.items) : e.items[k][2] = S.live[e.items[k][1]]) THEN "objects in a store" ELSE ""
           [] OTHER -> ""
JudgeOne(e) == IF e.now # (CASE e.op = "set" -> e.x [] e.op = "reset" -> -1 [] OTHER -> e.was) \/ e.empty # (e.now = -1) THEN "single stored object" ELSE ""
QueueAfter(S, e) ==
    CASE e.op = "push" -> [S EXCEPT !.q = Append(@, e.x)]
      [] e.op = "pop"  -> IF S.q = <<>> \/ S.stop THEN S ELSE [S EXCEPT !.q = Tail(@)]
      [] e.op = "abort" -> [S EXCEPT !.stop = TRUE]
JudgeQueue(old, S, e) ==
    IF e.stop # S.stop THEN "stop of a queue"
    ELSE IF e.op = "pop" /\ e.x # (IF old.q = <<>> \/ old.stop THEN -1 ELSE old.q[1]) THEN "head of a queue" ELSE ""

(* ------- fixed trees: st = [w, d, val] *)
RecAt(S, w) == IF w \in DOMAIN S.val THEN S.val[w] ELSE <<-1, 7>>
RECURSIVE AllPaths(_, _)
AllPaths(w, d) == IF d = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o q : x \in Below(w), q \in AllPaths(w, d - 1)}
JudgeRec(S, e) ==
    CASE e.op = "get" -> IF e.x # RecAt(S, e.at) \/ e.kids # (IF Len(e.at) < S.d THEN S.w ELSE 0) THEN "value in a fixed tree" ELSE ""
      [] e.op = "visit" -> LET words == Column(e.items, 1) IN
                           IF ~(Ordered(words) /\ Range(words) = AllPaths(S.w, S.d) /\ \A k \in 1..Len(words) : e.items[k][2] = RecAt(S, words[k])) THEN "visit of a fixed tree" ELSE ""
      [] OTHER -> ""
JudgeUtf(e) ==
    IF e.u8 # Utf8(e.cp) \/ e.n8 # Len(Utf8(e.cp)) THEN "text in UTF-8"
    ELSE IF e.u16 # Utf16(e.cp) \/ e.n16 # Len(Utf16(e.cp)) THEN "text in UTF-16" ELSE ""

Init == s \in 1..Len(Sessions) /\ i = 0 /\ st = <<>> /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
After(S, e) ==
    CASE e.e = "vecs"  -> <<<<>>, <<>>, <<>>>>
      [] e.e = "vec"   -> VecAfter(S, e)
      [] e.e = "bits"  -> [n |-> e.n, v |-> Force([k \in 1..3 |-> IF e.full[k] = 1 THEN Below(e.n) ELSE {}])]
      [] e.e = "bit"   -> [S EXCEPT !.v = BitAfter(S.v, S.n, e)]
      [] e.e = "trees" -> <<EmptyTree, EmptyTree>>
      [] e.e = "tree"  -> TreeAfter(S, e)
      [] e.e = "store" -> [sig |-> e.sig, live |-> <<>>, used |-> {}]
      [] e.e = "keep"  -> StoreAfter(S, e)
      [] e.e = "queue" -> [q |-> <<>>, stop |-> FALSE]
      [] e.e = "que"   -> QueueAfter(S, e)
      [] e.e = "rdi"   -> [w |-> e.width, d |-> e.depth, val |-> <<>>]
      [] e.e = "rec"   -> IF e.op = "set" THEN [S EXCEPT !.val = (e.at :> e.x) @@ @] ELSE S
      [] OTHER -> S
Judge(old, S, e) ==
    CASE e.e = "vec"   -> JudgeVec(S, e)
      [] e.e = "bit"   -> JudgeBit(S.v, S.n, e)
      [] e.e = "tree"  -> JudgeTree(old, S, e)
      [] e.e = "enum"  -> JudgeEnum(e)
      [] e.e = "fn"    -> JudgeFn(e)
      [] e.e = "tensor" -> JudgeTensor(e)
      [] e.e = "flat"  -> JudgeFlat(e)
      [] e.e = "square" -> JudgeSquare(e)
      [] e.e = "utf"   -> JudgeUtf(e)
      [] e.e = "keep"  -> JudgeStore(old, S, e)
      [] e.e = "one"   -> JudgeOne(e)
      [] e.e = "que"   -> JudgeQueue(old, S, e)
      [] e.e = "rec"   -> JudgeRec(S, e)
      [] e.e \in {"vecs", "bits", "trees", "store", "queue", "rdi"} -> ""
      [] OTHER -> "event not allowed by the specification: " \o e.e

Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET e == Sessions[s].ev[i + 1] IN
       /\ st' = After(st, e)
       /\ LET why == Judge(st, st', e) IN
          /\ bad' = (bad \/ why # "")
          /\ why # "" => Reject(why)

TraceSpec == Init /\ [][Next]_vars
=============================================================================
