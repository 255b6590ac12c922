------------------------------ MODULE TraceIdent -----------------------------
(* Judges block identities as seen by several processes (Identity.tla).       *)
EXTENDS Identity, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged
Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, IdentityClauses(Traces[tid].views)>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
