-------------------------------- MODULE KeptMC --------------------------------
(* Things made on first request and kept, as the code does it: look with a   *)
(* shared lock; if absent, make one (outside of the lock, or within), take   *)
(* the exclusive lock, look again, and only then insert.  Every behaviour    *)
(* must be one that Threads allows of things made once, resp. numbered.      *)
EXTENDS Threads
CONSTANTS Again,       \* does it look again once it has the exclusive lock?
          Within,      \* are things made within the exclusive lock, and numbered?
          Keys, Each   \* keys, and requests per thread
Threads3 == 1..3
Kind == IF Within THEN "system" ELSE "once"
VARIABLES prog, pc, at, found, mine, index, objects, readers, writer, C
vars == <<prog, pc, at, found, mine, index, objects, readers, writer, C>>
Programs == [Threads3 -> UNION {[1..n -> Keys] : n \in 1..Each}]
Key(t) == prog[t][at[t]]
Init == /\ prog \in Programs /\ pc = [t \in Threads3 |-> "idle"] /\ at = [t \in Threads3 |-> 1]
        /\ found = [t \in Threads3 |-> -1] /\ mine = [t \in Threads3 |-> -1]
        /\ index = <<>> /\ objects = 0 /\ readers = {} /\ writer = 0
        /\ C = Start(Kind, [k \in Keys |-> <<>>], 3)
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Most == 3 * Each
Look(t) == IF Key(t) \in DOMAIN index THEN index[Key(t)] ELSE -1
Call(t) == /\ pc[t] = "idle" /\ at[t] <= Len(prog[t])
           /\ C' = UNION {After(Kind, C, <<t, 0, "make", Key(t), r>>) : r \in 0..Most}
           /\ Go(t, "shared") /\ UNCHANGED <<prog, at, found, mine, index, objects, readers, writer>>
Shared(t) == /\ pc[t] = "shared" /\ writer = 0 /\ readers' = readers \cup {t} /\ Go(t, "look")
             /\ UNCHANGED <<prog, at, found, mine, index, objects, writer, C>>
LookFirst(t) == /\ pc[t] = "look" /\ found' = [found EXCEPT ![t] = Look(t)] /\ Go(t, "unshare")
                /\ UNCHANGED <<prog, at, mine, index, objects, readers, writer, C>>
Unshare(t) == /\ pc[t] = "unshare" /\ readers' = readers \ {t}
              /\ Go(t, IF found[t] >= 0 THEN "return" ELSE IF Within THEN "lock" ELSE "make")
              /\ UNCHANGED <<prog, at, found, mine, index, objects, writer, C>>
Make(t) == /\ pc[t] = "make" /\ mine' = [mine EXCEPT ![t] = objects] /\ objects' = objects + 1 /\ Go(t, "lock")
           /\ UNCHANGED <<prog, at, found, index, readers, writer, C>>
Lock(t) == /\ pc[t] = "lock" /\ writer = 0 /\ readers = {} /\ writer' = t /\ Go(t, "again")
           /\ UNCHANGED <<prog, at, found, mine, index, objects, readers, C>>
LookAgain(t) == /\ pc[t] = "again" /\ found' = [found EXCEPT ![t] = IF Again THEN Look(t) ELSE -1]
                /\ Go(t, IF found'[t] >= 0 THEN "unlock" ELSE "insert")
                /\ UNCHANGED <<prog, at, mine, index, objects, readers, writer, C>>
Insert(t) == /\ pc[t] = "insert" /\ Go(t, "unlock")
             /\ LET new == IF Within THEN objects ELSE mine[t] IN
                /\ index' = (Key(t) :> new) @@ index /\ found' = [found EXCEPT ![t] = new]
                /\ objects' = IF Within THEN objects + 1 ELSE objects
             /\ UNCHANGED <<prog, at, mine, readers, writer, C>>
Unlock(t) == /\ pc[t] = "unlock" /\ writer' = 0 /\ Go(t, "return")
             /\ UNCHANGED <<prog, at, found, mine, index, objects, readers, C>>
Return(t) == /\ pc[t] = "return" /\ C' = After(Kind, C, <<t, 1, "make", Key(t), found[t]>>)
             /\ at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "idle")
             /\ UNCHANGED <<prog, found, mine, index, objects, readers, writer>>
Next == \E t \in Threads3 : \/ Call(t) \/ Shared(t) \/ LookFirst(t) \/ Unshare(t) \/ Make(t) \/ Lock(t) \/ LookAgain(t)
                            \/ Insert(t) \/ Unlock(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

Finished(t) == pc[t] = "idle" /\ at[t] > Len(prog[t])
Blocked(t) == Finished(t) \/ (pc[t] = "shared" /\ writer # 0) \/ (pc[t] = "lock" /\ (writer # 0 \/ readers # {}))
Right == /\ C # {}
         /\ (\A t \in Threads3 : Blocked(t)) => (\A t \in Threads3 : Finished(t))
         /\ writer # 0 => readers = {}
         /\ Within => Cardinality(DOMAIN index) = objects
=============================================================================
