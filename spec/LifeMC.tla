------------------------------- MODULE LifeMC --------------------------------
(***************************************************************************)
(* Processes and sockets around a run, as far as it matters for who is left  *)
(* behind.  A server process S forks workers; forked processes inherit every *)
(* socket of their parent: the one S listens on, and the ends of open        *)
(* connections.  Workers may fork processes of their own that never end.     *)
(* Remote workers are not children of S.  S can be killed at any moment, or  *)
(* end its run.  A connection breaks when nobody holds its other end.        *)
(*                                                                           *)
(* Closes: forked processes close what they inherit.                         *)
(* Stops:  S stops listening when the run ends (its process lives on).       *)
(*                                                                           *)
(* Required (C15): once the run is over, whichever way, every worker ends;   *)
(* (C13, C14): while it is not, a connection is closed for S soon after its  *)
(* worker died, whatever processes the worker left behind.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Local, Remote, Closes, Stops
Workers == Local \cup Remote
Kids == { "kid" }                    \* a process forked by a worker
Procs == {"S"} \cup Workers \cup Kids

VARIABLES srv,      \* "up", "ended", "killed"
          wk,       \* of each worker: "none", "up", "gone"
          conn,     \* of each worker: "none", "backlog", "open", "over"
          listen,   \* processes that hold the listening socket
          send,     \* processes that hold the server's end of a connection
          cend,     \* processes that hold the worker's end
          kid       \* whether the kid lives
vars == <<srv, wk, conn, listen, send, cend, kid>>

Init == /\ srv = "up" /\ listen = {"S"} /\ kid = FALSE
        /\ wk = [w \in Workers |-> "none"]
        /\ conn = [w \in Workers |-> "none"]
        /\ send = [w \in Workers |-> {}]
        /\ cend = [w \in Workers |-> {}]

Inherit(H, p, c) == IF p \in H /\ ~Closes THEN H \cup {c} ELSE H

Start(w) == /\ wk[w] = "none"
            /\ w \in Local => srv = "up"
            /\ wk' = [wk EXCEPT ![w] = "up"]
            /\ listen' = IF w \in Local THEN Inherit(listen, "S", w) ELSE listen
            /\ send' = IF w \in Local THEN [v \in Workers |-> Inherit(send[v], "S", w)] ELSE send
            /\ UNCHANGED <<srv, conn, cend, kid>>

UserFork(w) == /\ wk[w] = "up" /\ ~kid /\ kid' = TRUE
               /\ listen' = Inherit(listen, w, "kid")
               /\ send' = [v \in Workers |-> Inherit(send[v], w, "kid")]
               /\ cend' = [v \in Workers |-> Inherit(cend[v], w, "kid")]
               /\ UNCHANGED <<srv, wk, conn>>

Drop(w) == /\ wk' = [wk EXCEPT ![w] = "gone"]
           /\ listen' = listen \ {w}
           /\ send' = [v \in Workers |-> send[v] \ {w}]
           /\ cend' = [v \in Workers |-> cend[v] \ {w}]

Connect(w) == /\ wk[w] = "up" /\ conn[w] = "none"
              /\ IF listen # {}
                 THEN /\ conn' = [conn EXCEPT ![w] = "backlog"]
                      /\ cend' = [cend EXCEPT ![w] = {w}]
                      /\ UNCHANGED <<wk, listen, send>>
                 ELSE Drop(w) /\ conn' = [conn EXCEPT ![w] = "over"]      \* refused
              /\ UNCHANGED <<srv, kid>>

Accept(w) == /\ srv # "killed" /\ "S" \in listen /\ conn[w] = "backlog"
             /\ conn' = [conn EXCEPT ![w] = "open"]
             /\ send' = [send EXCEPT ![w] = {"S"}]
             /\ UNCHANGED <<srv, wk, listen, cend, kid>>

Crash(w) == /\ wk[w] = "up" /\ Drop(w) /\ UNCHANGED <<srv, conn, kid>>

(* the worker's end notices that it was left alone *)
Alone(w) == /\ wk[w] = "up"
            /\ \/ conn[w] = "open" /\ send[w] = {}
               \/ conn[w] = "backlog" /\ listen = {}
            /\ Drop(w) /\ conn' = [conn EXCEPT ![w] = "over"]
            /\ UNCHANGED <<srv, kid>>

(* S notices that the worker is gone *)
Notice(w) == /\ srv = "up" /\ conn[w] = "open" /\ cend[w] = {}
             /\ conn' = [conn EXCEPT ![w] = "over"]
             /\ send' = [send EXCEPT ![w] = @ \ {"S"}]
             /\ UNCHANGED <<srv, wk, listen, cend, kid>>

Kill == /\ srv # "killed" /\ srv' = "killed"
        /\ listen' = listen \ {"S"}
        /\ send' = [v \in Workers |-> send[v] \ {"S"}]
        /\ UNCHANGED <<wk, conn, cend, kid>>

(* the run ends: local workers are stopped, connections closed *)
End == /\ srv = "up" /\ srv' = "ended"
       /\ wk' = [w \in Workers |-> IF w \in Local /\ wk[w] = "up" THEN "gone" ELSE wk[w]]
       /\ listen' = (IF Stops THEN listen \ {"S"} ELSE listen) \ Local
       /\ send' = [v \in Workers |-> send[v] \ ({"S"} \cup Local)]
       /\ cend' = [v \in Workers |-> cend[v] \ Local]
       /\ UNCHANGED <<conn, kid>>

Next == \/ \E w \in Workers : \/ Start(w) \/ UserFork(w) \/ Connect(w) \/ Accept(w)
                              \/ Crash(w) \/ Alone(w) \/ Notice(w)
        \/ Kill \/ End

Spec == Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(Connect(w)) /\ WF_vars(Accept(w))
                              /\ WF_vars(Alone(w)) /\ WF_vars(Notice(w))
        /\ WF_vars(srv = "up" /\ (Kill \/ End))

TypeOK == /\ listen \subseteq Procs
          /\ \A w \in Workers : send[w] \subseteq Procs /\ cend[w] \subseteq Procs
(* nobody who has not been told to may end up with somebody else's sockets *)
Owned == Closes => /\ listen \subseteq {"S"}
                   /\ \A w \in Workers : send[w] \subseteq {"S"} /\ cend[w] \subseteq {w}
NobodyLeft == \A w \in Workers : (srv # "up" /\ wk[w] = "up") ~> wk[w] = "gone"
Noticed == \A w \in Workers : (srv = "up" /\ wk[w] = "gone" /\ conn[w] = "open")
                              ~> (srv # "up" \/ conn[w] = "over")
=============================================================================
