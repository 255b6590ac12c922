---------------------------- MODULE TraceHandlers ----------------------------
(* Judges log messages recorded around real monitors.                         *)
EXTENDS Handlers, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged
Clauses(X) == HandlerClauses(X.ms, X.seen) \cup (IF X.exc THEN {"C24.log_raised"} ELSE {})
Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
