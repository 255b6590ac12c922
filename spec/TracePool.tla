------------------------------ MODULE TracePool ------------------------------
(***************************************************************************)
(* Judges recorded use of real pools.  X.n[i] is the configured number of    *)
(* workers of pool i, X.max the number of failures that are tolerated.       *)
(* Events: op, pool i, argument n, worker w, and what was seen:              *)
(* new (workers started, in order, as <<worker, pool>>), term (running       *)
(* workers that were stopped), live, ids (whether all ids are new and known  *)
(* to the worker), exc (worker whose error was raised, 0 none, -1 other),    *)
(* ret (returned number)                                                     *)
(***************************************************************************)
EXTENDS WorkerPool, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, ps, viol
X == Traces[tid]
Ev == X.events
I == DOMAIN X.n
R(v, pp) == [v |-> v, p |-> pp]
SetOf(q) == { q[i] : i \in DOMAIN q }

NewOf(e, i) == LET f == SelectSeq(e.new, LAMBDA x : x[2] = i)
               IN  [j \in DOMAIN f |-> f[j][1]]
(* ops: pool -> operation *)
Common(e, ops, qs) ==
     (IF ~e.ids THEN {"C17.identity"} ELSE {})
\cup (IF e.exc = -1 THEN {"C17.exception"} ELSE {})
\cup UNION { (IF Len(NewOf(e, i)) > ops[i].start THEN {"C17.started_more"} ELSE {})
             \cup (IF Len(NewOf(e, i)) < ops[i].start THEN {"C17.started_less"} ELSE {}) : i \in I }
\cup (IF SetOf(e.term) # UNION { ops[i].stop : i \in I } THEN {"C17.stopped"} ELSE {})
\cup (IF SetOf(e.live) # UNION { Alive(qs[i]) : i \in I } THEN {"C17.running"} ELSE {})

Apply(e, ops, pre) ==
    LET qs == [i \in I |-> AfterOp(pre[i], ops[i], NewOf(e, i))]
    IN  R(Common(e, ops, qs), qs)
None == [i \in I |-> NoOp(ps[i])]
Errs == UNION { ps[i].errs : i \in I }
Surfaced(qs, w) == [i \in I |-> [qs[i] EXCEPT !.errs = @ \ {w}]]

Quiet(e) == IF e.exc # 0 THEN {"C17.exception"} ELSE {}
Step(e) ==
    LET one(op) == [None EXCEPT ![e.i] = op]
        q(r) == R(r.v \cup Quiet(e), r.p)
    IN
    CASE e.op = "set" -> q(Apply(e, one(OpSet(ps[e.i], e.n)), ps))
      [] e.op = "inc" -> q(Apply(e, one(OpInc(ps[e.i], e.n)), ps))
      [] e.op = "stop" -> q(Apply(e, one(OpStop(ps[e.i], e.w)), ps))
      [] e.op = "stopall" -> q(Apply(e, [i \in I |-> OpSet(ps[i], 0)], ps))
      [] e.op = "recruit" ->
            q(Apply(e, [i \in I |-> IF i \in SetOf(e.which) THEN OpSet(ps[i], X.n[i]) ELSE NoOp(ps[i])], ps))
      [] e.op = "reap" ->
            LET r == Apply(e, one(OpReap(ps[e.i])), ps)
            IN  R(r.v \cup Quiet(e) \cup (IF e.ret # Cardinality(DeadSlots(ps[e.i])) THEN {"C17.reaped"} ELSE {}), r.p)
      [] e.op = "errors" ->
            LET r == Apply(e, None, ps)
            IN  IF ps[e.i].errs = {} THEN R(r.v \cup Quiet(e), r.p)
                ELSE R(r.v \cup (IF e.exc \notin ps[e.i].errs THEN {"C17.error_lost"} ELSE {}),
                       Surfaced(r.p, e.exc))
      [] e.op = "health" ->
            IF Errs = {} THEN q(Apply(e, [i \in I |-> OpHealth(ps[i])], ps))
            ELSE (* raises the error of one pool; others may have been looked after before *)
                 LET ops == [i \in I |-> IF Len(NewOf(e, i)) > 0 THEN OpHealth(ps[i]) ELSE NoOp(ps[i])]
                     r == Apply(e, ops, ps)
                 IN  R(r.v \cup (IF e.exc \notin Errs THEN {"C17.error_lost"} ELSE {}), Surfaced(r.p, e.exc))
      [] e.op = "failure" ->
            LET pre == [ps EXCEPT ![e.i] = AfterCount(@, e.w, X.max)]
            IN  q(Apply(e, one(OpFailure(ps[e.i], e.w, X.max)), pre))
      [] e.op = "exit" -> Apply(e, [None EXCEPT ![e.i].keep = SetState(ps[e.i], e.w, "exited").slots], ps)
      [] e.op = "crash" -> Apply(e, [None EXCEPT ![e.i].keep = SetState(ps[e.i], e.w, "dead").slots], ps)
      [] e.op = "raise" -> Apply(e, [None EXCEPT ![e.i].keep = SetState(ps[e.i], e.w, "exited").slots],
                                 [ps EXCEPT ![e.i].errs = @ \cup {e.w}])
      [] OTHER -> R({"C17.harness"}, ps)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {}
        /\ ps = [i \in DOMAIN Traces[tid].n |-> PoolInit]
Note(v) == viol \cup { <<x, l>> : x \in { x \in v : \A y \in viol : y[1] # x } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ ps' = r.p
               /\ viol' = Note(r.v)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, ps, viol>>
=============================================================================
