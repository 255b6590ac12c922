----------------------------- MODULE TraceClient -----------------------------
(* Judges recorded sessions of the real client.                               *)
EXTENDS Client, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, c, viol
X == Traces[tid]
Ev == X.events
R(v, cc) == [v |-> v, c |-> cc]

Step(e) ==
    CASE e.op = "open" -> R(IF e.ok THEN {} ELSE {"C19.address", "C21.address"}, c)
      [] e.op = "ask" -> R(AskClauses(c, e.ok), AfterAsk(c))
      [] e.op = "answer" -> R({}, AfterAnswer(c, e.k, e.b))
      [] e.op = "gone" -> R({}, [c EXCEPT !.up = FALSE])        \* while the user has the block
      [] e.op = "yield" -> R(YieldClauses(c, e.b), AfterYield(c))
      [] e.op = "user" -> R({}, AfterUser(c, e.k))
      [] e.op = "report" -> R(ReportClauses(c, e.b, e.ok), AfterReport(c))
      [] e.op = "return" -> R(ReturnClauses(c, e.b, e.k), AfterReturn(c))
      [] e.op = "other" -> R({"C19.other"}, c)
      [] e.op = "leave" -> R(LeaveClauses(c, e.k), AfterLeave(c))
      [] e.op = "loopend" ->      \* a worker loop ends when it got no block, or was interrupted
            R(IF c.up /\ c.ans = "block" /\ c.u \notin Interrupts THEN {"C19.loop_ended"} ELSE {}, c)
      [] e.op = "hang" -> R({"C19.hang"}, c)
      [] OTHER -> R({"C19.harness"}, c)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {} /\ c = ClientInit
Note(v) == viol \cup { <<x, l>> : x \in { x \in v : \A y \in viol : y[1] # x } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ c' = r.c
               /\ viol' = Note(r.v)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, c, viol>>
=============================================================================
