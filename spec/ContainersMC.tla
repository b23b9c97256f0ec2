---------------------------- MODULE ContainersMC ----------------------------
(* How collections are kept and enumerations stepped, checked against what   *)
(* they mean: a set of numbers in pages of a few bits, a sequence kept       *)
(* in place while short and on the heap when long, and the successor         *)
(* functions of the enumerations.                                            *)
EXTENDS Containers
CONSTANTS Top, Page, Place, Longest

VARIABLES what, n, m, cur, abs
vars == <<what, n, m, cur, abs>>

(* ------- sets in pages *)
Two(k) == Power(2, k)
Bit(x, k) == (x \div Two(k)) % 2
RECURSIVE Bits(_, _)
Bits(f, k) == IF k = 0 THEN 0 ELSE Bits(f, k - 1) + f[k] * Two(k - 1)
PageAnd(x, y) == Bits([k \in 1..Page |-> Bit(x, k - 1) * Bit(y, k - 1)], Page)
PageOr(x, y) == Bits([k \in 1..Page |-> IF Bit(x, k - 1) + Bit(y, k - 1) > 0 THEN 1 ELSE 0], Page)
PageNot(x) == Two(Page) - 1 - x
Pages(bits) == (bits + Page - 1) \div Page
LastMask(bits) == IF bits % Page = 0 THEN Two(Page) - 1 ELSE Two(bits % Page) - 1
Trim(r, bits) == IF r = <<>> THEN r ELSE [r EXCEPT ![Len(r)] = PageAnd(@, LastMask(bits))]
Empty(bits) == Force([p \in 1..Pages(bits) |-> 0])
Put(r, x) == [r EXCEPT ![(x \div Page) + 1] = PageOr(@, Two(x % Page))]
Drop(r, x) == [r EXCEPT ![(x \div Page) + 1] = PageAnd(@, PageNot(Two(x % Page)))]
Flip(r, bits) == Trim(Force([p \in 1..Len(r) |-> PageNot(r[p])]), bits)
(* a window, put together from two neighbouring pages *)
Part(r, from, len) ==
    LET p == from \div Page + 1 k == from % Page
        PageAt(q) == IF q <= Len(r) THEN r[q] ELSE 0
        cells == Force([q \in 1..Pages(len) |-> (PageAt(p + q - 1) \div Two(k)) + ((PageAt(p + q) * Two(Page - k)) % Two(Page))])
    IN Trim(cells, len)
Meaning(r) == {x \in 0..(Len(r) * Page - 1) : Bit(r[(x \div Page) + 1], x % Page) = 1}
FirstOf(r, bits) == LET full == {p \in 1..Len(r) : r[p] # 0} IN
    IF full = {} THEN bits
    ELSE LET p == CHOOSE y \in full : \A z \in full : y <= z
             k == CHOOSE y \in 0..(Page - 1) : Bit(r[p], y) = 1 /\ \A z \in 0..(y - 1) : Bit(r[p], z) = 0
         IN (p - 1) * Page + k
BitsRight == /\ Meaning(cur[1]) = abs[1] /\ Meaning(cur[2]) = abs[2]
             /\ FirstOf(cur[1], n) = First(abs[1], n)
             /\ (cur[1] = cur[2]) = (abs[1] = abs[2])
             /\ \A from \in 0..n : \A len \in 0..(n - from) : Meaning(Part(cur[1], from, len)) = Window(abs[1], from, len)
BitsInit == what = "bits" /\ n \in 0..Top /\ m = 0 /\ cur = <<Empty(n), Empty(n)>> /\ abs = <<{}, {}>>
Both(r, A) == cur' = [cur EXCEPT ![1] = r] /\ abs' = [abs EXCEPT ![1] = A]
BitsNext ==
    /\ what = "bits" /\ UNCHANGED <<what, n, m>>
    /\ \/ \E x \in Below(n) : Both(Put(cur[1], x), abs[1] \cup {x})
       \/ \E x \in Below(n) : Both(Drop(cur[1], x), abs[1] \ {x})
       \/ Both(Force([p \in 1..Pages(n) |-> PageAnd(cur[1][p], cur[2][p])]), abs[1] \cap abs[2])
       \/ Both(Force([p \in 1..Pages(n) |-> PageOr(cur[1][p], cur[2][p])]), abs[1] \cup abs[2])
       \/ Both(Flip(cur[1], n), Below(n) \ abs[1])
       \/ cur' = Reverse(cur) /\ abs' = Reverse(abs)

(* ------- sequences in place or on the heap: [own, size, here, heap] *)
Nothing == [own |-> FALSE, size |-> 0, cells |-> Force([k \in 1..Place |-> 0])]
Content(v) == SubSeq(v.cells, 1, v.size)
Grown(v, room) == IF room <= Len(v.cells) THEN v
                  ELSE [v EXCEPT !.own = TRUE, !.cells = Content(v) \o Force([k \in 1..(room - v.size) |-> 0])]
(* move the tail up, then write: what was beyond the end is never read *)
PutIn(v, at, x) ==
    LET g == Grown(v, v.size + Len(x))
    IN [g EXCEPT !.size = @ + Len(x),
                 !.cells = Force([k \in 1..Len(g.cells) |-> IF k <= at THEN g.cells[k] ELSE IF k <= at + Len(x) THEN x[k - at]
                                                         ELSE IF k <= g.size + Len(x) THEN g.cells[k - Len(x)] ELSE g.cells[k]])]
TakeOut(v, from, to) == [v EXCEPT !.size = @ - (to - from),
                                  !.cells = Force([k \in 1..Len(@) |-> IF k <= from \/ k + to - from > v.size THEN @[k] ELSE @[k + to - from]])]
VecRight == /\ Content(cur[1]) = abs[1] /\ Content(cur[2]) = abs[2]
            /\ \A k \in 1..2 : cur[k].size <= Len(cur[k].cells) /\ (cur[k].own <=> Len(cur[k].cells) > Place)
VecInit == what = "vec" /\ n = 0 /\ m = 0 /\ cur = <<Nothing, Nothing>> /\ abs = <<<<>>, <<>>>>
VecNext ==
    /\ what = "vec" /\ UNCHANGED <<what, n, m>>
    /\ \/ \E at \in 0..cur[1].size : \E x \in {<<1>>, <<2>>, <<1, 2>>} :
             Len(abs[1]) + Len(x) <= Longest /\ Both(PutIn(cur[1], at, x), Insert(abs[1], at, x))
       \/ \E lo \in 0..cur[1].size : \E hi \in lo..cur[1].size : Both(TakeOut(cur[1], lo, hi), Erase(abs[1], lo, hi))
       \/ Both([cur[1] EXCEPT !.size = 0], <<>>)
       (* copy: room is kept if enough; move: the heap changes hands, else as copy *)
       \/ Both([Grown(cur[1], cur[2].size) EXCEPT !.size = cur[2].size, !.cells = Force([k \in 1..Len(@) |-> IF k <= cur[2].size THEN cur[2].cells[k] ELSE @[k]])], abs[2])
       \/ cur' = (IF cur[2].own THEN <<cur[2], Nothing>> ELSE <<[Grown(cur[1], cur[2].size) EXCEPT !.size = cur[2].size, !.cells = Force([k \in 1..Len(@) |-> IF k <= cur[2].size THEN cur[2].cells[k] ELSE @[k]])], [cur[2] EXCEPT !.size = 0]>>)
          /\ abs' = <<abs[2], <<>>>>
       \/ cur' = Reverse(cur) /\ abs' = Reverse(abs)

(* ------- enumerations: cur is the present item, abs the items so far, or done *)
Done == <<-1>>
Up(q, j, low(_)) == Force([k \in 1..Len(q) |-> IF k < j THEN low(k) ELSE IF k = j THEN q[j] + 1 ELSE q[k]])
NextChoice(q, top) == LET free == {j \in 1..Len(q) : q[j] + 1 < (IF j = Len(q) THEN top ELSE q[j + 1])} IN
                      IF free = {} THEN Done ELSE LET j == First(free, 0) low(k) == k - 1 IN Up(q, j, low)
NextWeak(q, top) == LET free == {j \in 1..Len(q) : q[j] + 1 < top} IN
                    IF free = {} THEN Done
                    ELSE LET j == CHOOSE x \in free : \A y \in free : x >= y
                         IN Force([k \in 1..Len(q) |-> IF k < j THEN q[k] ELSE q[j] + 1])
(* sums ascending: the last but one place from which something can be borrowed *)
NextSum(q) == LET full == {j \in 2..Len(q) : q[j] > 0} IN
              IF full = {} THEN Done
              ELSE LET j == CHOOSE x \in full : \A y \in full : x >= y
                   IN Force([k \in 1..Len(q) |-> IF k = j - 1 THEN q[k] + 1 ELSE IF k < j - 1 THEN q[k] ELSE IF k = Len(q) THEN q[j] - 1 ELSE 0])
StepOf(q) == CASE what = "choices" -> NextChoice(q, n) [] what = "weak" -> NextWeak(q, n) [] what = "sums" -> NextSum(q)
All == CASE what = "choices" -> Choices(n, m) [] what = "weak" -> NonDecreasing(0, n, m) [] what = "sums" -> Sums(n, m)
EnumInit == /\ what \in {"choices", "weak", "sums"} /\ n \in 0..Top /\ m \in 0..Top
            /\ (what = "choices" => m <= n) /\ (what = "weak" => n > 0) /\ (what = "sums" => m > 0)
            /\ cur = Force([k \in 1..m |-> IF what = "choices" THEN k - 1 ELSE IF what = "sums" /\ k = m THEN n ELSE 0])
            /\ abs = <<>>
EnumNext == /\ what \in {"choices", "weak", "sums"} /\ cur # Done
            /\ abs' = Append(abs, cur) /\ cur' = StepOf(cur) /\ UNCHANGED <<what, n, m>>
EnumRight == /\ cur # Done => cur \in All /\ ~(\E k \in 1..Len(abs) : abs[k] = cur)
             /\ cur = Done => OnceEach(abs, All) /\ (IF what = "choices" THEN ReverseOrdered(abs) ELSE Ordered(abs))
             /\ (cur = Done /\ what = "choices") => Len(abs) = Binomial(n, m)

Init == BitsInit \/ VecInit \/ EnumInit
Next == BitsNext \/ VecNext \/ EnumNext
Spec == Init /\ [][Next]_vars
Right == CASE what = "bits" -> BitsRight [] what = "vec" -> VecRight [] OTHER -> EnumRight
=============================================================================
