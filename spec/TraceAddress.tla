---------------------------- MODULE TraceAddress -----------------------------
(***************************************************************************)
(* Judges the addresses that real servers announced.  Per server: host and   *)
(* det ("" for none), works: whether the detected address works, ip and port *)
(* announced, heard: whether a message of a client that connects to that     *)
(* address arrives, and at this server only; answered: and so does the reply.*)
(* ports: searches for a port (attempts allowed, attempts that fail, outcome). *)
(***************************************************************************)
EXTENDS Address, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged
One(s) ==
     (IF s.ip # Announced(s.host, s.det, s.works) THEN {"C26.address"} ELSE {})
\cup (IF s.reachable /\ ~(s.heard /\ s.answered) THEN {"C26.unreachable"} ELSE {})
Clauses(X) ==
     UNION { One(X.servers[i]) : i \in DOMAIN X.servers }
\cup (IF \E i, j \in DOMAIN X.servers : i # j /\ X.servers[i].port = X.servers[j].port
      THEN {"C26.shared_port"} ELSE {})
\cup (IF \E i \in DOMAIN X.ports : X.ports[i].what # PortSearch(X.ports[i].tries, X.ports[i].no)
      THEN {"C26.port"} ELSE {})
Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
