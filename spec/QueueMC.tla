------------------------------- MODULE QueueMC -------------------------------
(* The queue as the code makes it: a list that ends with an empty node, a    *)
(* lock for each end, a flag that stops it, and a condition to wait on; one  *)
(* step per lock, unlock, read or write.  Every behaviour must be one that   *)
(* Threads allows of a queue, and nobody may wait who could go on.           *)
EXTENDS Threads
CONSTANTS Guarded,      \* does a thread pass the lock of the head before it wakes others?
          Spurious,     \* may a thread wake up without reason?
          Large         \* larger programs
Small == { << <<<<"push", 1>>>>, <<<<"wait", 0>>>> >>,
           << <<<<"abort", 0>>>>, <<<<"wait", 0>>>>, <<<<"wait", 0>>>> >>,
           << <<<<"abort", 0>>, <<"push", 1>>>>, <<<<"try", 0>>>>, <<<<"wait", 0>>>> >>,
           << <<<<"push", 1>>>>, <<<<"wait", 0>>>>, <<<<"wait", 0>>>> >>,
           << <<<<"push", 1>>, <<"push", 2>>>>, <<<<"wait", 0>>, <<"wait", 0>>>> >>,
           << <<<<"push", 1>>, <<"try", 0>>>>, <<<<"push", 2>>, <<"try", 0>>>> >>,
           << <<<<"push", 1>>, <<"abort", 0>>>>, <<<<"wait", 0>>>>, <<<<"try", 0>>>> >> }
Wide == { << <<<<"push", 1>>, <<"push", 2>>>>, <<<<"wait", 0>>>>, <<<<"wait", 0>>>> >>,
          << <<<<"push", 1>>>>, <<<<"push", 2>>>>, <<<<"wait", 0>>, <<"wait", 0>>>> >>,
          << <<<<"push", 1>>, <<"abort", 0>>>>, <<<<"wait", 0>>, <<"try", 0>>>>, <<<<"wait", 0>>>> >>,
          << <<<<"push", 1>>>>, <<<<"push", 2>>>>, <<<<"wait", 0>>>>, <<<<"wait", 0>>>> >>,
          << <<<<"abort", 0>>>>, <<<<"push", 1>>>>, <<<<"wait", 0>>>>, <<<<"wait", 0>>>> >> }
Programs == Small \cup (IF Large THEN Wide ELSE {})
Values == {1, 2}

VARIABLES prog,          \* the program: for each thread, operations with arguments
          pc, at,        \* where each thread is, and in which operation of its own
          seen,          \* the tail each thread read
          got,           \* what each thread took
          data, next, head, tail, last,      \* nodes 1..last
          headLock, tailLock,                \* who holds it, or 0
          stop, asleep,
          C                                  \* what the queue of Threads may be, given all calls and returns
vars == <<prog, pc, at, seen, got, data, next, head, tail, last, headLock, tailLock, stop, asleep, C>>
T == DOMAIN prog
Op(t) == prog[t][at[t]][1]
Arg(t) == prog[t][at[t]][2]
Init == /\ prog \in Programs
        /\ pc = [t \in DOMAIN prog |-> "idle"] /\ at = [t \in DOMAIN prog |-> 1]
        /\ seen = [t \in DOMAIN prog |-> 0] /\ got = [t \in DOMAIN prog |-> -1]
        /\ data = <<0>> /\ next = <<0>> /\ head = 1 /\ tail = 1 /\ last = 1
        /\ headLock = 0 /\ tailLock = 0 /\ stop = FALSE /\ asleep = {}
        /\ C = Start("queue", <<>>, Len(prog))
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Same(v) == UNCHANGED v
Nodes == <<data, next, head, tail, last>>
Locks == <<headLock, tailLock>>

Results(t) == IF Op(t) \in {"push", "abort"} THEN {0} ELSE {-1, Pending} \cup Values
Call(t) == /\ pc[t] = "idle" /\ at[t] <= Len(prog[t])
           /\ C' = UNION {After("queue", C, <<t, 0, Op(t), Arg(t), r>>) : r \in Results(t)}
           /\ got' = [got EXCEPT ![t] = IF Op(t) \in {"push", "abort"} THEN 0 ELSE -1]
           /\ Go(t, CASE Op(t) = "push" -> "lockTail" [] Op(t) = "abort" -> "setStop" [] OTHER -> "lockHead")
           /\ Same(<<prog, at, seen, Nodes, Locks, stop, asleep>>)
Return(t) == /\ pc[t] = "return"
             /\ C' = After("queue", C, <<t, 1, Op(t), Arg(t), got[t]>>)
             /\ at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "idle")
             /\ Same(<<prog, seen, got, Nodes, Locks, stop, asleep>>)
(* push *)
LockTail(t) == /\ pc[t] = "lockTail" /\ tailLock = 0 /\ tailLock' = t /\ Go(t, "put")
               /\ Same(<<prog, at, seen, got, Nodes, headLock, stop, asleep, C>>)
Put(t) == /\ pc[t] = "put" /\ data' = [data EXCEPT ![tail] = Arg(t)] /\ Go(t, "link")
          /\ Same(<<prog, at, seen, got, next, head, tail, last, Locks, stop, asleep, C>>)
Link(t) == /\ pc[t] = "link" /\ last' = last + 1 /\ next' = Append([next EXCEPT ![tail] = last + 1], 0) /\ data' = Append(data, 0)
           /\ Go(t, "advance") /\ Same(<<prog, at, seen, got, head, tail, Locks, stop, asleep, C>>)
Advance(t) == /\ pc[t] = "advance" /\ tail' = next[tail] /\ Go(t, "freeTail")
              /\ Same(<<prog, at, seen, got, data, next, head, last, Locks, stop, asleep, C>>)
FreeTail(t) == /\ pc[t] = "freeTail" /\ tailLock' = 0 /\ Go(t, IF Guarded THEN "passHead" ELSE "wake")
               /\ Same(<<prog, at, seen, got, Nodes, headLock, stop, asleep, C>>)
SetStop(t) == /\ pc[t] = "setStop" /\ stop' = TRUE /\ Go(t, IF Guarded THEN "passHead" ELSE "wake")
              /\ Same(<<prog, at, seen, got, Nodes, Locks, asleep, C>>)
PassHead(t) == /\ pc[t] = "passHead" /\ headLock = 0 /\ headLock' = t /\ Go(t, "passed")
               /\ Same(<<prog, at, seen, got, Nodes, tailLock, stop, asleep, C>>)
Passed(t) == /\ pc[t] = "passed" /\ headLock' = 0 /\ Go(t, "wake")
             /\ Same(<<prog, at, seen, got, Nodes, tailLock, stop, asleep, C>>)
Wake(t) == /\ pc[t] = "wake"
           /\ IF asleep = {} THEN Go(t, "return") /\ Same(asleep)
              ELSE \E W \in (IF Op(t) = "abort" THEN {asleep} ELSE {{u} : u \in asleep}) :
                     /\ asleep' = asleep \ W
                     /\ pc' = [u \in T |-> IF u = t THEN "return" ELSE IF u \in W THEN "lockHead" ELSE pc[u]]
           /\ Same(<<prog, at, seen, got, Nodes, Locks, stop, C>>)
(* try, wait *)
LockHead(t) == /\ pc[t] = "lockHead" /\ headLock = 0 /\ headLock' = t
               /\ Go(t, IF Op(t) = "try" THEN "askStop" ELSE "askTail")
               /\ Same(<<prog, at, seen, got, Nodes, tailLock, stop, asleep, C>>)
AskStop(t) == /\ pc[t] = "askStop" /\ Go(t, IF stop THEN "freeHead" ELSE IF Op(t) = "try" THEN "askTail" ELSE "pop")
              /\ Same(<<prog, at, seen, got, Nodes, Locks, stop, asleep, C>>)
AskTail(t) == /\ pc[t] = "askTail" /\ tailLock = 0 /\ tailLock' = t /\ Go(t, "readTail")
              /\ Same(<<prog, at, seen, got, Nodes, headLock, stop, asleep, C>>)
ReadTail(t) == /\ pc[t] = "readTail" /\ seen' = [seen EXCEPT ![t] = tail] /\ tailLock' = 0 /\ Go(t, "compare")
               /\ Same(<<prog, at, got, Nodes, headLock, stop, asleep, C>>)
Compare(t) == /\ pc[t] = "compare"
              /\ Go(t, IF head # seen[t] THEN (IF Op(t) = "try" THEN "pop" ELSE "askStop")
                       ELSE IF Op(t) = "try" THEN "freeHead" ELSE "orStop")
              /\ Same(<<prog, at, seen, got, Nodes, Locks, stop, asleep, C>>)
OrStop(t) == /\ pc[t] = "orStop" /\ Go(t, IF stop THEN "askStop" ELSE "sleep")
             /\ Same(<<prog, at, seen, got, Nodes, Locks, stop, asleep, C>>)
Sleep(t) == /\ pc[t] = "sleep" /\ headLock' = 0 /\ asleep' = asleep \cup {t} /\ Go(t, "asleep")
            /\ Same(<<prog, at, seen, got, Nodes, tailLock, stop, C>>)
Stir(t) == /\ Spurious /\ pc[t] = "asleep" /\ asleep' = asleep \ {t} /\ Go(t, "lockHead")
           /\ Same(<<prog, at, seen, got, Nodes, Locks, stop, C>>)
Pop(t) == /\ pc[t] = "pop" /\ got' = [got EXCEPT ![t] = data[head]] /\ head' = next[head] /\ Go(t, "freeHead")
          /\ Same(<<prog, at, seen, data, next, tail, last, Locks, stop, asleep, C>>)
FreeHead(t) == /\ pc[t] = "freeHead" /\ headLock' = 0 /\ Go(t, "return")
               /\ Same(<<prog, at, seen, got, Nodes, tailLock, stop, asleep, C>>)
Move(t) == Call(t) \/ Return(t) \/ LockTail(t) \/ Put(t) \/ Link(t) \/ Advance(t) \/ FreeTail(t) \/ SetStop(t) \/ PassHead(t) \/ Passed(t)
           \/ Wake(t) \/ LockHead(t) \/ AskStop(t) \/ AskTail(t) \/ ReadTail(t) \/ Compare(t) \/ OrStop(t) \/ Sleep(t) \/ Stir(t) \/ Pop(t) \/ FreeHead(t)
Next == \E t \in T : Move(t)
Spec == Init /\ [][Next]_vars

Explained == C # {}
Finished(t) == pc[t] = "idle" /\ at[t] > Len(prog[t])
Blocked(t) == \/ Finished(t) \/ (pc[t] = "asleep" /\ ~Spurious)
              \/ (pc[t] \in {"lockTail", "askTail"} /\ tailLock # 0) \/ (pc[t] \in {"lockHead", "passHead"} /\ headLock # 0)
Stuck == (\A t \in T : Blocked(t)) /\ \E t \in T : ~Finished(t)
Waiting == Stuck => \E c \in C : (\A t \in T : c.p[t][1] = "open" => c.p[t][4] = Pending) /\ Waits("queue", c)
(* the list: from head to tail, data in all nodes but the last; the end is touched by one thread at a time *)
RECURSIVE Chain(_, _)
Chain(n, k) == IF n = 0 \/ k = 0 THEN <<>> ELSE <<n>> \o Chain(next[n], k - 1)
List == LET q == Chain(head, last) IN
    /\ head > 0 /\ q # <<>> /\ next[q[Len(q)]] = 0
    /\ \E k \in 1..Len(q) : q[k] = tail
    /\ \A k \in 1..(Len(q) - 1) : data[q[k]] # 0
    /\ tailLock = 0 => (q[Len(q)] = tail /\ data[tail] = 0)
Held == /\ Cardinality({t \in T : pc[t] \in {"put", "link", "advance", "freeTail", "readTail"}}) <= 1
        /\ Cardinality({t \in T : pc[t] \in {"passed", "askStop", "askTail", "readTail", "compare", "orStop", "sleep", "pop", "freeHead"}}) <= 1
        /\ asleep = {t \in T : pc[t] = "asleep"}
Right == Explained /\ Waiting /\ List /\ Held
=============================================================================
