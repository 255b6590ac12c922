-------------------------- MODULE TraceTaskFunction --------------------------
(***************************************************************************)
(* Judges recorded use of task functions of all kinds.                       *)
(*   n     arguments left to fill in; made: whether the task was created     *)
(*   runs  per worker: sent (blocks), calls (blocks, 0 for a call without    *)
(*         argument, -1 for a call with something else), exc                  *)
(*   serial  calls in a serial run of all blocks 1..nb (if any)              *)
(*   kept  whether the task reports what it was created with                 *)
(***************************************************************************)
EXTENDS TaskFunction, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged
RangeOf(q) == { q[i] : i \in DOMAIN q }
Clauses(X) ==
     (IF X.made # (Role(X.n) # "refused") THEN {"C27.refused"} ELSE {})
\cup (IF ~X.made THEN {} ELSE
         (IF \E i \in DOMAIN X.runs : X.runs[i].calls # Calls(X.n, X.runs[i].sent) THEN {"C27.calls"} ELSE {})
    \cup (IF \E i \in DOMAIN X.runs : X.runs[i].exc # "" THEN {"C27.raised"} ELSE {})
    \cup (IF ~X.kept THEN {"C27.kept"} ELSE {})
    \cup (IF X.ran /\ (Len(X.serial) # X.nb \/ RangeOf(X.serial) # 1..X.nb) THEN {"C27.serial"} ELSE {}))
Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
