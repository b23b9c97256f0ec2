----------------------------- MODULE Containers -----------------------------
(* What the collections and enumerations everything else is built on mean:   *)
(* sequences, sets of numbers below a bound, maps over words, boxes of       *)
(* indices, choices, and functions on them.  Numbers count from 0.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Force(q) == q \o <<>>
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Last(q) == q[Len(q)]
Reverse(q) == Force([k \in 1..Len(q) |-> q[Len(q) + 1 - k]])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))

(* ------- sequences *)
Insert(q, at, x) == SubSeq(q, 1, at) \o x \o SubSeq(q, at + 1, Len(q))
Erase(q, from, to) == SubSeq(q, 1, from) \o SubSeq(q, to + 1, Len(q))

(* ------- sets of numbers *)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
Below(n) == 0..(n - 1)
Window(S, from, len) == {x - from : x \in {y \in S : y >= from /\ y < from + len}}
First(S, n) == IF S = {} THEN n ELSE CHOOSE x \in S : \A y \in S : x <= y

(* ------- words *)
(* words by first difference, a prefix comes before its extensions *)
RECURSIVE Earlier(_, _)
Earlier(u, v) == IF u = <<>> THEN v # <<>> ELSE IF v = <<>> THEN FALSE
                 ELSE u[1] < v[1] \/ (u[1] = v[1] /\ Earlier(Tail(u), Tail(v)))
Shorter(u, v) == Len(u) < Len(v) \/ (Len(u) = Len(v) /\ Earlier(u, v))
Prefixes(w) == {SubSeq(w, 1, k) : k \in 0..Len(w)}
Hash(radix, offset, w) == offset + Sum([k \in 1..Len(w) |-> (w[k] + 1) * Power(radix, Len(w) - k)])
(* all parts of a word, from the last end to the first, longer ones later *)
RECURSIVE PartsEnding(_, _, _, _)
PartsEnding(radix, w, end, start) == IF start = 0 THEN <<>> ELSE << <<start - 1, Hash(radix, 1, SubSeq(w, start, end))>> >> \o PartsEnding(radix, w, end, start - 1)
RECURSIVE Parts(_, _, _)
Parts(radix, w, end) == IF end = 0 THEN <<>> ELSE PartsEnding(radix, w, end, end) \o Parts(radix, w, end - 1)

(* ------- choices *)
Strictly(q) == \A k \in 1..(Len(q) - 1) : q[k] < q[k + 1]
Weakly(q) == \A k \in 1..(Len(q) - 1) : q[k] <= q[k + 1]
Choices(n, k) == {Ascending(S) : S \in {T \in SUBSET Below(n) : Cardinality(T) = k}}
RECURSIVE NonDecreasing(_, _, _)
NonDecreasing(lo, n, k) == IF k = 0 THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in NonDecreasing(x, n, k - 1)} : x \in lo..(n - 1)}
RECURSIVE Sums(_, _)
Sums(total, parts) == IF parts = 1 THEN {<<total>>} ELSE UNION {{<<x>> \o q : q \in Sums(total - x, parts - 1)} : x \in 0..total}
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)
RECURSIVE Box(_, _)
Box(lo, hi) == IF lo = <<>> THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Box(Tail(lo), Tail(hi))} : x \in lo[1]..(hi[1] - 1)}
OnceEach(items, S) == Len(items) = Cardinality(S) /\ {items[k] : k \in 1..Len(items)} = S
Ordered(items) == \A k \in 1..(Len(items) - 1) : Earlier(items[k], items[k + 1])
Backward(items) == \A k \in 1..(Len(items) - 1) : Earlier(items[k + 1], items[k])
ReverseOrdered(items) == \A k \in 1..(Len(items) - 1) : Earlier(Reverse(items[k]), Reverse(items[k + 1]))

(* ------- tensors *)
Stride(dims, last, d) == IF last THEN Product(SubSeq(dims, 1, d - 1)) ELSE Product(SubSeq(dims, d + 1, Len(dims)))
Offset(dims, last, ix) == Sum([d \in 1..Len(ix) |-> ix[d] * Stride(dims, last, d)])
Within(dims, ix) == Len(ix) = Len(dims) /\ \A d \in 1..Len(ix) : ix[d] < dims[d]
Size(dims) == IF dims = <<>> THEN 0 ELSE Product(dims)
Cell(M, d, r, c) == M[r + c * d + 1]

(* ------- encodings *)
Utf8One(x) == IF x < 128 THEN <<x>>
              ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
              ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
              ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Utf16One(x) == IF x < 65536 THEN <<x>> ELSE <<55296 + (x - 65536) \div 1024, 56320 + ((x - 65536) % 1024)>>
RECURSIVE Utf8(_)
Utf8(q) == IF q = <<>> THEN <<>> ELSE Utf8One(q[1]) \o Utf8(Tail(q))
RECURSIVE Utf16(_)
Utf16(q) == IF q = <<>> THEN <<>> ELSE Utf16One(q[1]) \o Utf16(Tail(q))

(* ------- functions *)
Rotated(q, k) == SubSeq(q, k + 1, Len(q)) \o SubSeq(q, 1, k)
(* smallest number of steps that rotates a word into its least rotation *)
LeastRotation(q) == CHOOSE k \in Below(Len(q)) : /\ \A j \in Below(Len(q)) : ~Earlier(Rotated(q, j), Rotated(q, k))
                                                 /\ \A j \in Below(k) : Rotated(q, j) # Rotated(q, k)
Meet(a, b) == LET common == {k \in 1..Len(b) : \E j \in 1..Len(a) : a[j] = b[k]} IN IF common = {} THEN -1 ELSE First(common, 0) - 1
Chunks(data, at) == Force([k \in 1..Len(at) |-> SubSeq(data, at[k] + 1, IF k < Len(at) THEN at[k + 1] ELSE Len(data))])
KeysOf(m) == {m[k][1] : k \in 1..Len(m)}
Merged(a, b) == LET keys == Ascending(KeysOf(a) \cup KeysOf(b))
                    ValueIn(m, x) == m[CHOOSE k \in 1..Len(m) : m[k][1] = x][2]
                IN Force([k \in 1..Len(keys) |-> <<keys[k], IF keys[k] \in KeysOf(a) THEN ValueIn(a, keys[k]) ELSE ValueIn(b, keys[k])>>])
RECURSIVE Digit(_, _, _)
Digit(x, base, k) == IF k = 0 THEN x % base ELSE Digit(x \div base, base, k - 1)
(* entries of a Kronecker power are products over the digits of row and column *)
Kronecker(M, p) == LET R == Len(M) C == Len(M[1]) IN
    Force([r \in 1..Power(R, p) |-> Force([c \in 1..Power(C, p) |-> Product([k \in 1..p |-> M[Digit(r - 1, R, p - k) + 1][Digit(c - 1, C, p - k) + 1]])])])
=============================================================================
