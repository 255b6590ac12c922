------------------------------ MODULE TraceE2E -------------------------------
(***************************************************************************)
(* Judges real runs with real worker processes: what workers did with which  *)
(* block, in the order in which they wrote it down.                          *)
(*   events  hello/bye (a worker starts/ends), start(b), end(b, ok),         *)
(*           kill(b): the worker dies while it holds b                       *)
(*   told[b] attempts that raise (and are reported), sum[i].badlogs: failures *)
(*           for which the summary does not name the right log file          *)
(*   raw[b]  outcomes of successive attempts, done: blocks the check skips   *)
(*   cut     number of events before the user interrupted the run (or killed *)
(*           the process that serves: exc = "killed"), or -1                 *)
(*   left    workers that still run long after the serving process was killed*)
(*   late    what happened to a client that came after the run: it may not   *)
(*           wait or get a block                                             *)
(***************************************************************************)
EXTENDS Sched, Json, IOUtils
LOCAL SE == INSTANCE SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged

StepOne(W, skips, a, e) ==
    IF e.op = "start" THEN
        IF e.b \notin Blocks(W) THEN [a EXCEPT !.v = @ \cup {"C02.e2e", "C13.e2e_unknown"}]
        ELSE [a EXCEPT
           !.run = @ \cup {e.b}, !.att[e.b] = @ + 1,
           !.v = @ \cup (IF ConflictsWith(W, e.b) \cap a.run # {} THEN {"C03.e2e_conflict"} ELSE {})
                   \cup (IF ~(ReadsFrom(W, e.b) \subseteq (a.fin \cup skips)) THEN {"C04.e2e_early"} ELSE {})
                   \cup (IF e.b \in a.run THEN {"C13.e2e_twice"} ELSE {})
                   \cup (IF e.b \in a.fin \cup skips THEN {"C13.e2e_again"} ELSE {})
                   \cup (IF TaskOf(W, e.b) # e.t THEN {"C17.e2e_task"} ELSE {})
                   \cup (IF Cardinality({ b \in a.run : TaskOf(W, b) = TaskOf(W, e.b) })
                              >= W.tasks[TaskOf(W, e.b)].nw THEN {"C17.e2e_many"} ELSE {})]
    ELSE IF e.op = "end" THEN
        [a EXCEPT !.run = @ \ {e.b}, !.fin = IF e.ok THEN @ \cup {e.b} ELSE @]
    ELSE IF e.op = "kill" THEN [a EXCEPT !.run = @ \ {e.b}, !.live = @ \ {e.w}]
    ELSE IF e.op = "hello" THEN
        IF e.t \notin Tasks(W) THEN [a EXCEPT !.v = @ \cup {"C17.e2e_task", "C21.e2e_task"}]
        ELSE [a EXCEPT !.live = @ \cup {e.w}, !.task[e.w] = e.t,
           !.v = @ \cup (IF Cardinality({ w \in a.live : a.task[w] = e.t }) >= W.tasks[e.t].nw
                         THEN {"C17.e2e_many"} ELSE {})]
    ELSE [a EXCEPT !.live = @ \ {e.w}]

Clauses(X) ==
    LET W == X.world
        skips == { X.done[i] : i \in DOMAIN X.done }
        fin == TLCEval(FinalState(W, X.raw, skips))
        ev == IF X.cut < 0 THEN X.events ELSE SubSeq(X.events, 1, X.cut)
        a == SE!FoldLeft(LAMBDA acc, e : TLCEval(StepOne(W, fin.skipped, acc, e)),
                [run |-> {}, fin |-> {}, live |-> {}, v |-> {},
                 task |-> [w \in 1..Len(X.events) |-> 0], att |-> [b \in Blocks(W) |-> 0]], ev)
        n(S, t) == Cardinality({ b \in S : TaskOf(W, b) = t })
        full == X.cut < 0
        summed == { X.sum[i].t : i \in DOMAIN X.sum }
        whole == \A t \in Tasks(W) : \E i \in DOMAIN X.sum : X.sum[i].t = t /\ X.sum[i].c = X.sum[i].n
    IN  a.v
   \cup (IF X.exc = "stuck" THEN {IF full THEN "C14.e2e_stuck" ELSE "C15.e2e_stuck"} ELSE {})
   \cup (IF X.left > 0 THEN {"C15.e2e_orphans"} ELSE {})
   \cup (IF X.late \in {"waits", "block"} THEN {"C15.e2e_late"} ELSE {})
   \cup (IF X.exc \notin {"", "stuck", "killed"} THEN {"C14.e2e_exception", "C15.e2e_exception"} ELSE {})
   \cup (IF X.live > 0 THEN {"C15.e2e_live", "C17.e2e_live"} ELSE {})
   \cup (IF X.exc # "" THEN {} ELSE
            (IF X.nsum # 1 THEN {"C24.e2e_printed"} ELSE {})
       \cup (IF full /\ \E b \in Blocks(W) :
                    a.att[b] # (IF b \in fin.orphaned THEN 0 ELSE Attempts(W, X.raw, skips, b))
             THEN {"C18.e2e_attempts"} ELSE {})
       \cup (IF full /\ \E i \in DOMAIN X.sum :
                    \/ X.sum[i].t \notin Tasks(W)
                    \/ LET s == X.sum[i]
                           t == s.t
                       IN  <<s.n, s.c, s.s, s.f, s.o>> #
                             <<Cardinality(BlocksOfTask(W, t)), n(fin.completed, t), n(fin.skipped, t),
                               n(fin.failed, t), n(fin.orphaned, t)>>
             THEN {"C18.e2e_counts", "C24.e2e_numbers"} ELSE {})
       \cup (IF full /\ \E i \in DOMAIN X.sum :
                    \/ \E b \in BlocksOfTask(W, X.sum[i].t) :
                         Cardinality({ j \in DOMAIN X.sum[i].fails : X.sum[i].fails[j][1] = b })
                           # Cardinality({ k \in DOMAIN X.told[b] : k <= a.att[b] /\ X.told[b][k] })
                    \/ \E j \in DOMAIN X.sum[i].fails :
                         X.sum[i].fails[j][1] \notin BlocksOfTask(W, X.sum[i].t)
             THEN {"C24.e2e_failures"} ELSE {})
       \cup (IF full /\ \E i \in DOMAIN X.sum : X.sum[i].badlogs > 0 THEN {"C24.e2e_logs", "C21.e2e_logs"} ELSE {})
       \cup (IF full /\ summed # Tasks(W) THEN {"C24.e2e_tasks"} ELSE {})
       \cup (IF X.res >= 0 /\ full /\ (X.res = 1) # (fin.completed = Blocks(W)) THEN {"C18.e2e_result"} ELSE {})
       \cup (IF X.res = 1 /\ ~full /\ ~whole THEN {"C18.e2e_result"} ELSE {}))

Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
