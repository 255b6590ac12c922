------------------------------ MODULE AddressMC ------------------------------
(***************************************************************************)
(* How the address is found: detect (which may fail), test the result with a *)
(* connection of one's own (every step of which may fail if the address does  *)
(* not work), fall back.  Every order of failures; the loopback address       *)
(* always works.                                                             *)
(***************************************************************************)
EXTENDS Address
CONSTANTS Ips, MaxTries
VARIABLES host, det, works, pc, ip,
          tries, no, i0          \* attempts allowed, attempts that fail, attempts made
vars == <<host, det, works, pc, ip, tries, no, i0>>
Steps == <<"bind", "connect", "send", "accept", "recv", "compare">>
Init == /\ host \in {""} \cup Ips /\ det \in {"", Loopback} \cup Ips
        /\ works \in [Ips \cup {Loopback} -> {0} \cup DOMAIN Steps]   \* step that fails, 0: none
        /\ works[Loopback] = 0
        /\ pc = "port" /\ ip = ""
        /\ tries \in 1..MaxTries /\ no \in 0..(MaxTries + 1) /\ i0 = 0
Port == /\ pc = "port" /\ i0' = i0 + 1
        /\ pc' = (IF i0 >= no THEN "start" ELSE IF i0 + 1 = tries THEN "none" ELSE "port")
        /\ UNCHANGED <<host, det, works, ip, tries, no>>
Find == /\ UNCHANGED <<tries, no, i0>>
     /\ \/ pc = "start" /\ host # "" /\ ip' = host /\ pc' = "done" /\ UNCHANGED <<host, det, works>>
        \/ pc = "start" /\ host = "" /\ ip' = det
           /\ pc' = (IF det \in {"", Loopback} THEN "fall" ELSE Steps[1]) /\ UNCHANGED <<host, det, works>>
        \/ \E i \in DOMAIN Steps : pc = Steps[i]
           /\ ip' = (IF works[ip] = i THEN "" ELSE ip)
           /\ pc' = (IF works[ip] = i THEN "fall" ELSE IF i = Len(Steps) THEN "done" ELSE Steps[i + 1])
           /\ UNCHANGED <<host, det, works>>
        \/ pc = "fall" /\ ip' = (IF ip = "" THEN Loopback ELSE ip) /\ pc' = "done" /\ UNCHANGED <<host, det, works>>
Next == Port \/ Find
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == pc = "done" => /\ ip = Announced(host, det, IF det = "" THEN FALSE ELSE works[det] = 0)
                        /\ host = "" => works[ip] = 0
RightPort == /\ pc = "none" => PortSearch(tries, no) = "none"
             /\ pc \notin {"port", "none"} => PortSearch(tries, no) = "made"
Ends == <>(pc \in {"done", "none"})
=============================================================================
