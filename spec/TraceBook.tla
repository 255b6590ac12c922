------------------------------ MODULE TraceBook ------------------------------
(* Judges recorded use of the real record of sent blocks.                     *)
EXTENDS Bookkeeper, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, k, viol
X == Traces[tid]
Ev == X.events
R(v, kk) == [v |-> v, k |-> kk]
Range(f) == { f[x] : x \in DOMAIN f }

(* events: sent(b, c); ret(b, c): asked whether the return is valid (res), and *)
(* if it was, returned it: started, stopped; lost: list of blocks; close(c);   *)
(* tick(d); exc: the call raised                                               *)
Step(e) ==
    CASE e.exc -> R({"C22.exception"}, k)
      [] e.op = "sent" -> R({}, AfterSent(k, e.b, e.c))
      [] e.op = "ret" ->
            LET v == Valid(k, e.b, e.c)
            IN  R((IF e.res # v THEN {IF v THEN "C22.refused" ELSE "C22.accepted"} ELSE {})
                  \cup (IF v /\ e.res /\ <<e.start, e.stop>> # <<k.out[e.b].at, k.now>>
                        THEN {"C22.times"} ELSE {}),
                  IF v THEN AfterReturned(k, e.b) ELSE k)
      [] e.op = "lost" ->
            R((IF Range(e.list) \ LostNow(k, X.to) # {} THEN {"C22.not_lost"} ELSE {})
              \cup (IF LostNow(k, X.to) \ Range(e.list) # {} THEN {"C22.overlooked"} ELSE {})
              \cup (IF Len(e.list) # Cardinality(Range(e.list)) THEN {"C22.twice"} ELSE {}),
              AfterLost(k, X.to))
      [] e.op = "close" -> R({}, AfterClose(k, e.c))
      [] e.op = "tick" -> R({}, AfterTick(k, e.d))
      [] e.op = "given_up" ->    \* a block of a task with a timeout was out for longer than that
            R(IF e.res THEN {} ELSE {"C22.task_timeout"}, k)
      [] OTHER -> R({"C22.harness"}, k)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {} /\ k = BookInit
Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A x \in viol : x[1] # c } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ k' = r.k
               /\ viol' = Note(r.v)
               /\ l' = IF Ev[l].exc THEN Len(Ev) + 1 ELSE l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, k, viol>>
=============================================================================
