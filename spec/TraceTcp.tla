------------------------------- MODULE TraceTcp -------------------------------
(* Judges recorded use of real servers and clients over real sockets.         *)
EXTENDS Tcp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, k, viol
X == Traces[tid]
Ev == X.events
R(v, kk) == [v |-> v, k |-> kk]

(* events: op, c (connection), d (content of the message), res: "ok", "msg",   *)
(* "none" (nothing arrived although there was ample time), "err"; sget: c is   *)
(* the connection that the message says it was sent over, via that over which  *)
(* it came                                                                    *)
Step(e) ==
    CASE e.op = "connect" -> R(IF e.res = "ok" THEN {} ELSE {"C20.connect"}, AfterConnect(k, e.c))
      [] e.op = "csend" -> R(IF e.res = "ok" THEN {} ELSE CSendErr(k, e.c),
                             IF e.res = "ok" THEN AfterCSend(k, e.c, e.d) ELSE k)
      [] e.op = "ssend" -> R(IF e.res = "ok" THEN {} ELSE SSendErr(k, e.c),
                             IF e.res = "ok" THEN AfterSSend(k, e.c, e.d) ELSE k)
      [] e.op = "sget" /\ e.res = "msg" ->
            R(SGetMsg(k, e.c, e.d) \cup (IF e.via # e.c THEN {"C20.misrouted"} ELSE {}), AfterSGetMsg(k, e.c, e.d))
      [] e.op = "sget" /\ e.res = "none" -> R(SGetNone(k), k)
      [] e.op = "sget" /\ e.res = "err" -> R(SGetErr(k, e.c), AfterSGetErr(k, e.c))
      [] e.op = "cget" /\ e.res = "msg" -> R(CGetMsg(k, e.c, e.d), AfterCGetMsg(k, e.c, e.d))
      [] e.op = "cget" /\ e.res = "none" -> R(CGetNone(k, e.c), k)
      [] e.op = "cget" /\ e.res = "err" -> R(CGetErr(k, e.c), k)
      [] e.op = "leave" -> R(IF e.res = "ok" THEN {} ELSE {"C20.disconnect"}, AfterLeave(k, e.c))
      [] e.op = "kill" -> R({}, AfterKill(k, { e.which[i] : i \in DOMAIN e.which }))
      [] e.op = "close" -> R({}, AfterClose(k))
      [] e.op = "closed" -> R(Closed(k, e.c, e.res = "yes"), k)
      [] OTHER -> R({"C20.harness"}, k)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {} /\ k = TcpInit(X.n)
Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A x \in viol : x[1] # c } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ k' = r.k
               /\ viol' = Note(r.v)
               /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, k, viol>>
=============================================================================
