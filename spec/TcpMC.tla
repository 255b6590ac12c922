-------------------------------- MODULE TcpMC --------------------------------
(***************************************************************************)
(* The protocol of daisy.tcp: queues of callbacks in front of the sockets,   *)
(* the sockets, the read loops, the queues behind them, and the graceful     *)
(* disconnect (Notify/Ack).  k is what its users know (module Tcp); bad      *)
(* collects the clauses that the protocol breaks (none).                     *)
(***************************************************************************)
EXTENDS Tcp, Json
CONSTANTS N, MaxM, Kills, LEN
VARIABLES k, bad, nm,
          cb, up, dn, sb,     \* per connection: client callbacks, wires, server callbacks
          cs, ss, reading,    \* client stream, server stream, server's read loop
          mq, eq, cq, ce,     \* server's queues of messages and errors, clients' queues
          hist
impl == <<cb, up, dn, sb, cs, ss, reading, mq, eq, cq, ce>>
vars == <<k, bad, nm, impl, hist>>
C == 1..N
No == [c \in C |-> <<>>]
Init == /\ k = TcpInit(N) /\ bad = {} /\ nm = 0
        /\ cb = No /\ up = No /\ dn = No /\ sb = No /\ mq = <<>> /\ eq = <<>> /\ cq = No /\ ce = No
        /\ cs = [c \in C |-> "none"] /\ ss = [c \in C |-> "none"] /\ reading = [c \in C |-> FALSE]
        /\ hist = <<>>

GEN == LEN > 0
H(op, c) == hist' = IF GEN THEN Append(hist, [op |-> op, c |-> c]) ELSE <<>>
More == ~GEN \/ Len(hist) < LEN
Bad(x) == bad' = bad \cup x
NOTIFY == 0
Busy(c) == cs[c] = "leaving"

(* ---------------- inside ---------------- *)
ClientSends(c) == /\ cb[c] # <<>> /\ cs[c] \in {"open", "leaving"}
                  /\ up' = [up EXCEPT ![c] = Append(@, Head(cb[c]))] /\ cb' = [cb EXCEPT ![c] = Tail(@)]
                  /\ UNCHANGED <<k, bad, nm, dn, sb, cs, ss, reading, mq, eq, cq, ce, hist>>
ServerSends(c) == /\ sb[c] # <<>>
                  /\ dn' = IF ss[c] = "open" THEN [dn EXCEPT ![c] = Append(@, Head(sb[c]))] ELSE dn
                  /\ sb' = [sb EXCEPT ![c] = Tail(@)]
                  /\ UNCHANGED <<k, bad, nm, cb, up, cs, ss, reading, mq, eq, cq, ce, hist>>
ServerReads(c) ==
    /\ reading[c] /\ ss[c] = "open" /\ up[c] # <<>>
    /\ up' = [up EXCEPT ![c] = Tail(@)]
    /\ IF Head(up[c]) = NOTIFY
       THEN /\ dn' = [dn EXCEPT ![c] = Append(@, NOTIFY)] /\ reading' = [reading EXCEPT ![c] = FALSE]
            /\ ss' = [ss EXCEPT ![c] = "closed"] /\ UNCHANGED mq
       ELSE mq' = Append(mq, <<c, Head(up[c])>>) /\ UNCHANGED <<dn, ss, reading>>
    /\ UNCHANGED <<k, bad, nm, cb, sb, cs, eq, cq, ce, hist>>
(* the server's read loop finds the connection closed: by the other side      *)
(* (after what is still on the wire), or by itself                            *)
ServerFails(c) == /\ reading[c]
                  /\ \/ ss[c] = "closed"
                     \/ cs[c] = "dead" /\ up[c] = <<>>
                  /\ eq' = Append(eq, c) /\ reading' = [reading EXCEPT ![c] = FALSE]
                  /\ ss' = [ss EXCEPT ![c] = "closed"]
                  /\ UNCHANGED <<k, bad, nm, cb, up, dn, sb, cs, mq, cq, ce, hist>>
ClientReads(c) ==
    /\ cs[c] \in {"open", "leaving"} /\ dn[c] # <<>>
    /\ dn' = [dn EXCEPT ![c] = Tail(@)]
    /\ IF Head(dn[c]) = NOTIFY
       THEN cs' = [cs EXCEPT ![c] = "closed"] /\ k' = AfterLeave(k, c) /\ UNCHANGED cq   \* the call returns
       ELSE cq' = [cq EXCEPT ![c] = Append(@, Head(dn[c]))] /\ UNCHANGED <<cs, k>>
    /\ UNCHANGED <<bad, nm, cb, up, sb, ss, reading, mq, eq, ce, hist>>
ClientFails(c) == /\ cs[c] \in {"open", "leaving"} /\ ss[c] = "closed" /\ dn[c] = <<>>
                  /\ ce' = [ce EXCEPT ![c] = Append(@, 1)] /\ cs' = [cs EXCEPT ![c] = "closed"]
                  /\ UNCHANGED <<k, bad, nm, cb, up, dn, sb, ss, reading, mq, eq, cq, hist>>
Inside == \E c \in C : \/ ClientSends(c) \/ ServerSends(c) \/ ServerReads(c) \/ ServerFails(c)
                       \/ ClientReads(c) \/ ClientFails(c)
Quiet == ~ ENABLED Inside

(* ---------------- calls ---------------- *)
Connect(c) == /\ More /\ cs[c] = "none"
              /\ cs' = [cs EXCEPT ![c] = "open"] /\ ss' = [ss EXCEPT ![c] = "open"]
              /\ reading' = [reading EXCEPT ![c] = TRUE]
              /\ k' = AfterConnect(k, c) /\ H("connect", c)
              /\ UNCHANGED <<bad, nm, cb, up, dn, sb, mq, eq, cq, ce>>
CSend(c) == /\ More /\ ~Busy(c) /\ k[c].st = "open" /\ nm < MaxM
            /\ nm' = nm + 1
            /\ IF cs[c] = "open" THEN cb' = [cb EXCEPT ![c] = Append(@, nm + 1)] /\ bad' = bad
               ELSE Bad(CSendErr(k, c)) /\ UNCHANGED cb
            /\ k' = AfterCSend(k, c, nm + 1) /\ H("csend", c)
            /\ UNCHANGED <<up, dn, sb, cs, ss, reading, mq, eq, cq, ce>>
SSend(c) == /\ More /\ k[c].st \in {"open", "gone"} /\ nm < MaxM
            /\ nm' = nm + 1
            /\ IF ss[c] = "open" THEN sb' = [sb EXCEPT ![c] = Append(@, nm + 1)] /\ bad' = bad
               ELSE Bad(IF Busy(c) THEN {} ELSE SSendErr(k, c)) /\ UNCHANGED sb   \* (the client is leaving)
            /\ k' = AfterSSend(k, c, nm + 1) /\ H("ssend", c)
            /\ UNCHANGED <<cb, up, dn, cs, ss, reading, mq, eq, cq, ce>>
SGet == /\ More /\ H("sget", 0)
        /\ CASE eq # <<>> -> /\ Bad(SGetErr(k, Head(eq))) /\ k' = AfterSGetErr(k, Head(eq))
                             /\ eq' = Tail(eq) /\ UNCHANGED mq
             [] eq = <<>> /\ mq # <<>> ->
                             /\ Bad(SGetMsg(k, mq[1][1], mq[1][2])) /\ k' = AfterSGetMsg(k, mq[1][1], mq[1][2])
                             /\ mq' = Tail(mq) /\ UNCHANGED eq
             [] OTHER -> Quiet /\ Bad(SGetNone(k)) /\ UNCHANGED <<k, mq, eq>>
        /\ UNCHANGED <<nm, cb, up, dn, sb, cs, ss, reading, cq, ce>>
CGet(c) == /\ More /\ ~Busy(c) /\ k[c].st \in {"open", "cut"} /\ H("cget", c)
           /\ CASE ce[c] # <<>> -> Bad(CGetErr(k, c)) /\ ce' = [ce EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<k, cq>>
                [] ce[c] = <<>> /\ cs[c] # "open" -> Bad(CGetErr(k, c)) /\ UNCHANGED <<k, cq, ce>>
                [] ce[c] = <<>> /\ cs[c] = "open" /\ cq[c] # <<>> ->
                       /\ Bad(CGetMsg(k, c, Head(cq[c]))) /\ k' = AfterCGetMsg(k, c, Head(cq[c]))
                       /\ cq' = [cq EXCEPT ![c] = Tail(@)] /\ UNCHANGED ce
                [] OTHER -> Quiet /\ Bad(CGetNone(k, c)) /\ UNCHANGED <<k, cq, ce>>
           /\ UNCHANGED <<nm, cb, up, dn, sb, cs, ss, reading, mq, eq>>
Leave(c) == /\ More /\ cs[c] = "open" /\ k[c].st = "open" /\ H("leave", c)
            /\ cb' = [cb EXCEPT ![c] = Append(@, NOTIFY)] /\ cs' = [cs EXCEPT ![c] = "leaving"]
            /\ UNCHANGED <<k, bad, nm, up, dn, sb, ss, reading, mq, eq, cq, ce>>
Kill(c) == /\ More /\ cs[c] = "open" /\ k[c].st = "open"
           /\ Cardinality({ x \in C : k[x].st = "gone" }) < Kills /\ H("kill", c)
           /\ cs' = [cs EXCEPT ![c] = "dead"] /\ cb' = [cb EXCEPT ![c] = <<>>]
           /\ \E n \in 0..Len(up[c]) : up' = [up EXCEPT ![c] = SubSeq(@, 1, n)]
           /\ k' = AfterKill(k, {c})
           /\ UNCHANGED <<bad, nm, dn, sb, ss, reading, mq, eq, cq, ce>>
CloseAll == /\ More /\ (\E c \in C : ss[c] = "open") /\ (GEN => Len(hist) > LEN - 4) /\ H("close", 0)
            /\ ss' = [c \in C |-> IF reading[c] /\ ss[c] = "open" THEN "closed" ELSE ss[c]]
            /\ k' = AfterClose(k)
            /\ UNCHANGED <<bad, nm, cb, up, dn, sb, cs, reading, mq, eq, cq, ce>>
Call == \/ \E c \in C : Connect(c) \/ CSend(c) \/ SSend(c) \/ CGet(c) \/ Leave(c) \/ Kill(c)
        \/ SGet \/ CloseAll
Next == Inside \/ Call
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in C : /\ WF_vars(ClientSends(c)) /\ WF_vars(ServerSends(c)) /\ WF_vars(ServerReads(c))
                                 /\ WF_vars(ServerFails(c)) /\ WF_vars(ClientReads(c)) /\ WF_vars(ClientFails(c))

Sound == bad = {}
(* once nothing happens any more, the server is right about what is closed *)
ClosedRight == Quiet => \A c \in C : Closed(k, c, ss[c] = "closed") = {}
(* disconnecting terminates *)
Leaves == \A c \in C : (cs[c] = "leaving") ~> (cs[c] = "closed")
Emit == (GEN /\ Len(hist) = LEN) => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
