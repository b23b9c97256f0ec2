---------------------------- MODULE TraceThreads ----------------------------
(* Validates recorded histories of threads on shared objects.                *)
EXTENDS Threads, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
vars == <<s, i, bad>>

JudgeHistory(e) ==
    LET C == Configs(e.kind, Start(e.kind, e.needs, e.threads), e.h, 1) IN
    IF C = {} THEN "no order of operations gives these results: " \o e.kind
    ELSE IF e.stuck /\ ~(\E c \in C : Waits(e.kind, c)) THEN "threads wait for ever: " \o e.kind
    ELSE ""
Judge(e) ==
    CASE e.e = "hist" -> JudgeHistory(e)
      [] e.e = "explored" -> IF e.runs > 0 /\ e.different > 0 /\ e.different <= e.runs THEN "" ELSE "nothing explored"
      [] OTHER -> "event not allowed by the specification: " \o e.e
Init == s \in 1..Len(Sessions) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT(<<"REJECT", Sessions[s].name, i + 1, why>>)
Next ==
    /\ i < Len(Sessions[s].ev)
    /\ s' = s /\ i' = i + 1
    /\ LET why == Judge(Sessions[s].ev[i + 1]) IN
       /\ bad' = (bad \/ why # "")
       /\ why # "" => Reject(why)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
