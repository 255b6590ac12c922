----------------------------- MODULE TraceServer -----------------------------
(* Judges recorded runs of the real server (harness/serversim.py).            *)
EXTENDS Server, Summary, Observers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, q, viol
X == Traces[tid]
W == X.world

R(v, qq) == [v |-> v, q |-> qq]

Acq(e) ==
    LET sk == SkipAll(W, q.s, e.chk)
        q1 == [q EXCEPT !.s = sk.s, !.prog = @ \/ sk.n > 0]
    IN  IF e.b < 0 THEN R({"C02.handed", "C08.unknown_block"}, q1)
        ELSE IF e.b = 0 THEN R(sk.v \cup NoneClauses(W, sk.s, e.t), q1)
        ELSE R(sk.v \cup AcquireClauses(W, sk.s, e.b)
                    \cup (IF SaysDone(X.chk, sk.s, e.b) THEN {"C12.processed"} ELSE {}),
               [q1 EXCEPT !.s = AfterAcquire(W, sk.s, e.b)])

In(e) ==
    CASE e.k = "acq" -> R({}, [q EXCEPT !.reqs[e.w] = @ + 1,
                                        !.cur = [NoMsg EXCEPT !.k = "acq", !.w = e.w]])
      [] e.k \in {"rel", "fail"} ->
            R({}, [q EXCEPT !.cur = [k |-> e.k, w |-> e.w, b |-> e.b, ok |-> e.ok,
                                     valid |-> ValidReturn(W, q, e.w, e.b), used |-> FALSE]])
      [] e.k = "none" ->
            R({}, [q EXCEPT !.idle = TRUE,
                     !.ans = { w \in q.open : q.reqs[w] > 0 /\ Answerable(W, q, q.ptask[w]) }])
      [] e.k = "bad" -> R({}, [q EXCEPT !.injR = q.round, !.inj = "raise"])
      [] OTHER -> R({}, q)

Send(e) ==
    CASE e.k = "block" /\ e.b > 0 -> R(SendBlockClauses(W, q, e.w, e.b), AfterSend(W, q, e.w, e.b))
      [] e.k = "closed" /\ e.b >= 0 ->
            R(SendClosedClauses(W, q, e.w, e.b), AfterSendClosed(W, q, e.w, e.b))
      [] e.k = "shutdown" -> R(ShutdownClauses(W, q, e.w), Answer(q, e.w))
      [] OTHER -> R({"C02.sent", "C13.other"}, q)

Close(e) == R({}, [q EXCEPT !.open = @ \ {e.w}, !.closedR[e.w] = q.round])

Exit(e) ==
    R({}, [q EXCEPT !.live = @ \ {e.w}, !.gone0[e.t] = IF e.ok THEN @ + 1 ELSE @])

Notes == LET ns == SelectSeq(X.events, LAMBDA e : e.op = "note")
         IN  [i \in DOMAIN ns |-> <<ns[i].k, ns[i].t>>]
(* the end of the run: what it says, and what is left *)
End(e) ==
    LET normal == X.exc = ""
        byItself == normal /\ q.stopR = 0
    IN  R((IF normal /\ q.injR = 0 THEN RoundEnd(W, q) ELSE {})
     \cup (IF byItself /\ ~AllDone(W, q.s) THEN {"C14.early_end"} ELSE {})
     \cup (IF byItself /\ \E t \in Tasks(W) : t \notin q.done THEN {"C16.done_missing"} ELSE {})
     \cup (IF normal /\ CounterClauses(W, q.s, e.cnt) # {} THEN {"C18.final"} ELSE {})
     \cup (IF X.exc = "hang" THEN {"C15.stop_ignored", "C14.hang"} ELSE {})
     \cup (IF ~normal /\ X.exc # "hang" /\ q.injR = 0
           THEN {"C13.exception", "C14.exception", "C15.exception", "C16.exception", "C18.exception"} ELSE {})
     \cup (IF normal /\ q.injR > 0 /\ (q.inj = "raise" \/ q.round > q.injR) THEN {"C15.swallowed"} ELSE {})
     \cup (IF Len(X.live) > 0 THEN {"C15.left_running", "C17.left_running"} ELSE {})
     \cup (IF Len(X.open) > 0 THEN {"C15.left_open"} ELSE {})
     \cup (IF X.mon THEN SummaryClauses(W, q.s, q.started \cup q.done, q.fails, X.nsum, X.sum) ELSE {})
     \cup (IF X.mon /\ ~normal /\ X.exc # "hang" /\ q.injR = 0 THEN {"C24.exception"} ELSE {})
     \cup ObserverClauses(Notes, X.wit)
     \cup (IF q.exits # 1 THEN {"C15.exit_note", "C16.exit"} ELSE {}), q)

Step(e) ==
    CASE e.op = "round" ->
            R((IF q.round > 0 /\ q.injR = 0 THEN RoundEnd(W, q) ELSE {})
              \cup (IF q.stopR > 0 /\ q.round >= q.stopR THEN {"C15.stop_ignored"} ELSE {}),
              NextRound(W, q))
      [] e.op = "in" -> In(e)
      [] e.op = "acq" -> Acq(e)
      [] e.op = "rel" -> IF e.b <= 0 THEN R({"C02.sent", "C13.other"}, q)
                         ELSE R(ReleaseClauses(W, q, e.b, e.ok), AfterServerRelease(W, q, e.b, e.ok, e.post))
      [] e.op = "send" -> Send(e)
      [] e.op = "connect" -> R({}, [q EXCEPT !.open = @ \cup {e.w}])
      [] e.op = "close" -> Close(e)
      [] e.op = "spawn" -> IF e.t = 0 THEN R({"C17.identity", "C21.worker"}, q)
                           ELSE R(SpawnClauses(W, q, e.t, e.ok), AfterSpawn(W, q, e.w, e.t))
      [] e.op = "term" -> R({}, [q EXCEPT !.live = @ \ {e.w}])
      [] e.op = "pexit" -> Exit(e)
      [] e.op = "note" -> R(NoteClauses(W, q, e.k, e.t, e.cnt), AfterNote(q, e.k, e.t, e.b, e.w))
      [] e.op = "init" -> R(InitClauses(q, e.t, e.ok), [q EXCEPT !.inits = @ \cup {e.t}])
      [] e.op = "stop" -> R({}, [q EXCEPT !.stopR = q.round])
      [] e.op = "inject" -> R({}, [q EXCEPT !.injR = Max(1, q.round), !.inj = e.k])
      [] e.op = "stuck" -> R({"C14.stuck"}, [q EXCEPT !.stopR = q.round + 1])
      [] e.op = "end" -> End(e)
      [] OTHER -> R({"C13.harness"}, q)

Ev == X.events
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {}
        /\ q = ServerInit(Traces[tid].world, Traces[tid].nproc)
Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A p \in viol : p[1] # c } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ q' = r.q
               /\ viol' = Note(r.v)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, q, viol>>
=============================================================================
