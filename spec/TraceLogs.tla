------------------------------ MODULE TraceLogs ------------------------------
(* Judges where the output of real worker processes was found.                *)
EXTENDS Logs, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged
Clauses(X) ==
    LogClauses(X.writes, X.files, X.own, X.logged, 1..X.nw)
    \cup (IF X.missing > 0 THEN {"C25.unstarted"} ELSE {})
Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
