------------------------------ MODULE TraceGrid ------------------------------
(* Judges recorded region expansions: the smallest aligned cover.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged

(* r is the smallest region with corners on the grid org + w * Int that       *)
(* contains <<b, e>>, after adding lo below and hi above                      *)
Cover(r, b, e, org, w, lo, hi) ==
    \A d \in 1..Len(w) :
        LET rb == r.b[d] + lo[d]
            re == r.e[d] - hi[d]
        IN  /\ (rb - org[d]) % w[d] = 0
            /\ (re - org[d]) % w[d] = 0
            /\ rb <= b[d] /\ b[d] < rb + w[d]
            /\ re >= e[d] /\ e[d] > re - w[d]

Clauses(X) ==
    LET Z == [d \in 1..Len(X.w) |-> 0]
        exc == { X.exc[i] : i \in DOMAIN X.exc }
    IN  (IF ~Cover(X.roi, X.sb, X.se, X.org, X.w, Z, Z) THEN {"C07.roi"} ELSE {})
   \cup (IF ~Cover(X.write, X.sb, X.se, Z, X.w, Z, Z) THEN {"C07.write"} ELSE {})
   \cup (IF ~Cover(X.request, X.sb, X.se, X.org, X.w, X.c0, X.c1) THEN {"C07.request"} ELSE {})
   \cup (IF X.roi2 # X.roi \/ X.write2 # X.write THEN {"C07.idempotent"} ELSE {})
   \cup (IF exc # {} THEN {"C07.exception"} ELSE {})

Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
