--------------------------------- MODULE Tcp ---------------------------------
(***************************************************************************)
(* What users of the message layer see.  State k: for every connection c     *)
(*   st    "none", "open", "left" (the client disconnected), "gone" (the     *)
(*         client disappeared), "cut" (the server closed its connections)    *)
(*   up    messages sent to the server and not yet received, in order        *)
(*   down  messages sent to the client and not yet received, in order        *)
(*   told  the server was told that the client is gone                       *)
(* A message is received exactly once and in order; on connections that      *)
(* ended otherwise than by a graceful disconnect the last messages may be    *)
(* missing.  What(..) of a call is the set of clauses that its result breaks.*)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Conn0 == [st |-> "none", up |-> <<>>, down |-> <<>>, told |-> FALSE]
TcpInit(N) == [c \in 1..N |-> Conn0]
Elems(q) == { q[i] : i \in DOMAIN q }

(* -- calls whose result does not matter *)
AfterConnect(k, c)  == [k EXCEPT ![c] = [Conn0 EXCEPT !.st = "open"]]
AfterCSend(k, c, d) == IF k[c].st \in {"open", "cut"} THEN [k EXCEPT ![c].up = Append(@, d)] ELSE k
AfterSSend(k, c, d) == [k EXCEPT ![c].down = Append(@, d)]
AfterLeave(k, c)    == IF k[c].st = "open" THEN [k EXCEPT ![c].st = "left"] ELSE k
AfterKill(k, S)     == [c \in DOMAIN k |-> IF c \in S /\ k[c].st \in {"open", "cut"}
                                           THEN [k[c] EXCEPT !.st = IF @ = "open" THEN "gone" ELSE @]
                                           ELSE k[c]]
AfterClose(k)       == [c \in DOMAIN k |-> IF k[c].st \in {"open", "gone"} THEN [k[c] EXCEPT !.st = "cut"] ELSE k[c]]

(* -- receiving: q is what was sent and not yet received *)
RecvBad(q, d) == IF q = <<>> THEN {"C20.duplicate"}
                 ELSE IF Head(q) = d THEN {}
                 ELSE IF d \in Elems(q) THEN {"C20.order"}
                 ELSE {"C20.corrupt"}
RecvRest(q, d) == IF q # <<>> /\ Head(q) = d THEN Tail(q) ELSE q

SGetMsg(k, c, d)  == IF c \notin DOMAIN k \/ k[c].st = "none" THEN {"C20.misrouted"} ELSE RecvBad(k[c].up, d)
AfterSGetMsg(k, c, d) == IF c \in DOMAIN k THEN [k EXCEPT ![c].up = RecvRest(@, d)] ELSE k
CGetMsg(k, c, d)  == RecvBad(k[c].down, d)
AfterCGetMsg(k, c, d) == [k EXCEPT ![c].down = RecvRest(@, d)]

(* -- nothing arrives any more *)
SGetNone(k) == (IF \E c \in DOMAIN k : k[c].st \in {"open", "left"} /\ k[c].up # <<>> THEN {"C20.lost"} ELSE {})
               \cup (IF \E c \in DOMAIN k : k[c].st = "gone" /\ ~k[c].told THEN {"C20.unnoticed"} ELSE {})
CGetNone(k, c) == CASE k[c].st = "open" /\ k[c].down # <<>> -> {"C20.lost"}
                    [] k[c].st = "cut" -> {"C20.client_not_told"}
                    [] OTHER -> {}

(* -- errors: c is the connection that the error belongs to *)
CanFail(k, c) == k[c].st \in {"gone", "cut"} /\ ~k[c].told
SGetErr(k, c) == IF c \in DOMAIN k /\ CanFail(k, c) THEN {} ELSE {"C20.error"}
AfterSGetErr(k, c) == IF c \in DOMAIN k THEN [k EXCEPT ![c].told = TRUE] ELSE k
CGetErr(k, c) == IF k[c].st = "open" THEN {"C20.error"} ELSE {}
CSendErr(k, c) == IF k[c].st = "open" THEN {"C20.error"} ELSE {}
SSendErr(k, c) == IF k[c].st = "open" THEN {"C20.error"} ELSE {}

(* -- whether the server considers a connection closed *)
Closed(k, c, r) == CASE k[c].st = "open" /\ r -> {"C20.error"}
                     [] k[c].st = "gone" /\ k[c].told /\ ~r -> {"C20.reported_open"}
                     [] k[c].st \in {"cut", "left"} /\ ~r -> {"C20.reported_open"}
                     [] OTHER -> {}
=============================================================================
