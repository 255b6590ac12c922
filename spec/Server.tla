-------------------------------- MODULE Server --------------------------------
(***************************************************************************)
(* The server as workers, observers and the caller see it, on top of the     *)
(* scheduler (Sched): custody of blocks, requests and answers, the pools of  *)
(* worker processes, notifications, and the end of a run.                    *)
(*                                                                           *)
(* The state q has                                                           *)
(*   s       scheduler state                                                 *)
(*   cust    block -> connection that holds it (0: none)                     *)
(*   open    open connections;  closedR: round in which one was closed       *)
(*   reqs    connection -> unanswered requests                               *)
(*   ptask   process -> task it was started for (0: not started)             *)
(*   live    running worker processes; gone0: task -> workers that ended     *)
(*           normally; short: task -> rounds with too few workers            *)
(*   started, done, inits   tasks for which that was notified                *)
(*   nAcq, nRel  notifications per task; nSent, nSentBad, nAcc, nLost        *)
(*   fails   failures that workers reported, <<block, worker>>               *)
(*   exits   notifications of the server's exit                              *)
(*   stopR, injR   round in which a stop was requested / an error injected   *)
(*   cur     the message in work                                             *)
(*   round, idle, ans, prog, noProg   progress within rounds                 *)
(*   owed    tasks that had blocks to process when the run began or when a   *)
(*           block was returned                                              *)
(* Steps are events; each event has a set of violated requirements and an    *)
(* effect.  ServerMC uses the same state to check the design; TraceServer    *)
(* judges recorded runs of the real server.                                  *)
(***************************************************************************)
EXTENDS Sched

NoMsg == [k |-> "none", w |-> 0, b |-> 0, ok |-> FALSE, valid |-> FALSE, used |-> FALSE]

ServerInit(W, np) ==
    LET T == Tasks(W)
        z == [t \in T |-> 0]
    IN  [s |-> SchedInit(W), cust |-> [b \in Blocks(W) |-> 0],
         open |-> {}, closedR |-> [w \in 1..np |-> 0], reqs |-> [w \in 1..np |-> 0],
         ptask |-> [w \in 1..np |-> 0], live |-> {}, gone0 |-> z, short |-> z,
         started |-> {}, done |-> {}, inits |-> {},
         nAcq |-> z, nRel |-> z, nSent |-> z, nSentBad |-> z, nAcc |-> z, nLost |-> z,
         fails |-> <<>>, exits |-> 0, stopR |-> 0, injR |-> 0, inj |-> "", cur |-> NoMsg, round |-> 0, idle |-> FALSE,
         ans |-> {}, prog |-> FALSE, noProg |-> 0,
         owed |-> { t \in T : ReadyOf(W, SchedInit(W), t) # {} }]

LiveOf(q, t) == { w \in q.live : q.ptask[w] = t }
Waiting(W, s, t) == Counters(W, s, t)[7]      \* blocks whose dependencies are not complete yet

(* a request of a worker of task t can be answered: with a block, or with a   *)
(* request to shut down                                                       *)
Answerable(W, q, t) == ReadyOf(W, q.s, t) # {} \/ Waiting(W, q.s, t) = 0

(* a return of block b over connection w is the one that counts *)
ValidReturn(W, q, w, b) == b \in Blocks(W) /\ q.cust[b] = w

-----------------------------------------------------------------------------
(* requirements at the end of a round of the event loop *)
RoundEnd(W, q) ==
     (IF \E b \in Blocks(W) : q.s.st[b] = "processing" /\ q.cust[b] = 0
      THEN {"C13.unsent", "C14.forgotten"} ELSE {})
\cup (IF q.cur.valid /\ ~q.cur.used /\ q.cur.w \in q.open THEN {"C13.ignored", "C14.ignored"} ELSE {})
\cup (IF \E b \in Blocks(W) : /\ q.cust[b] # 0 /\ q.cust[b] \notin q.open
                              /\ q.closedR[q.cust[b]] < q.round
      THEN {"C13.not_lost", "C14.not_lost", "C22.not_lost"} ELSE {})
\cup (IF q.noProg > 2 + Cardinality({ w \in DOMAIN q.reqs : q.reqs[w] > 0 /\ w \notin q.open })
      THEN {"C14.unanswered", "C28.unanswered"} ELSE {})
\cup (IF q.owed \subseteq q.started THEN {} ELSE {"C28.not_started"})
\cup (IF \E t \in Tasks(W) : q.nAcq[t] < q.nSent[t] \/ q.nAcq[t] > q.nSent[t] + q.nSentBad[t]
      THEN {"C16.acquire_notes"} ELSE {})
\cup (IF \E t \in Tasks(W) : q.nRel[t] < q.nAcc[t] \/ q.nRel[t] > q.nAcc[t] + q.nLost[t]
      THEN {"C16.release_notes"} ELSE {})
\cup (IF \E t \in Tasks(W) : q.short[t] > 2 THEN {"C17.not_replaced", "C14.not_replaced", "C28.too_few"} ELSE {})

(* the state after the end of a round *)
Started(q, t) == \E w \in DOMAIN q.ptask : q.ptask[w] = t
NextRound(W, q) ==
    [q EXCEPT !.round = @ + 1, !.cur = NoMsg, !.idle = FALSE, !.ans = {}, !.prog = FALSE,
              !.noProg = IF q.idle /\ q.ans # {} /\ ~q.prog THEN @ + 1
                         ELSE IF q.prog THEN 0 ELSE @,
              !.short = [t \in Tasks(W) |->
                  IF (t \in q.started \/ Started(q, t)) /\ Cardinality(LiveOf(q, t)) + q.gone0[t] < W.tasks[t].nw
                  THEN q.short[t] + 1 ELSE 0]]

-----------------------------------------------------------------------------
(* sending *)
SendBlockClauses(W, q, w, b) ==
     (IF q.reqs[w] = 0 THEN {"C13.unrequested", "C14.unrequested"} ELSE {})
\cup (IF q.ptask[w] # TaskOf(W, b) THEN {"C13.wrong_task"} ELSE {})
\cup (IF q.cust[b] # 0 THEN {"C13.double"} ELSE {})
\cup (IF q.s.st[b] # "processing" THEN {"C13.not_acquired"} ELSE {})
\cup (IF q.stopR > 0 /\ q.round > q.stopR THEN {"C15.sent_after_stop"} ELSE {})

SendClosedClauses(W, q, w, b) ==     \* a block for a connection known to be closed
    IF b > 0 /\ w \notin q.open THEN {"C13.sent_to_closed"} ELSE {}

ShutdownClauses(W, q, w) ==
     (IF q.reqs[w] = 0 THEN {"C14.unrequested"} ELSE {})
\cup (IF ReadyOf(W, q.s, q.ptask[w]) # {} \/ Waiting(W, q.s, q.ptask[w]) > 0
      THEN {"C14.early_shutdown"} ELSE {})

Answer(q, w) == [q EXCEPT !.reqs[w] = IF @ > 0 THEN @ - 1 ELSE 0, !.prog = TRUE]
AfterSend(W, q, w, b) ==
    [Answer(q, w) EXCEPT !.cust[b] = w, !.nSent[TaskOf(W, b)] = @ + 1]
AfterSendClosed(W, q, w, b) ==
    IF b = 0 THEN [q EXCEPT !.prog = TRUE]
    ELSE [Answer(q, w) EXCEPT !.cust[b] = w, !.nSentBad[TaskOf(W, b)] = @ + 1]

(* returning a block to the scheduler *)
Lost(q, b) == q.cust[b] # 0 /\ q.cust[b] \notin q.open
Accepts(q, b, ok) == q.cur.valid /\ ~q.cur.used /\ q.cur.b = b
ReleaseClauses(W, q, b, ok) ==
    IF Accepts(q, b, ok)
    THEN IF q.cur.ok = ok \/ (Lost(q, b) /\ ~ok) THEN {} ELSE {"C13.status"}
    ELSE IF Lost(q, b) THEN IF ok THEN {"C13.lost_success"} ELSE {}
    ELSE IF q.cust[b] = 0 THEN {"C13.twice"} ELSE {"C13.unjustified"}
AfterServerRelease(W, q, b, ok, post) ==
    LET t == TaskOf(W, b)
        acc == Accepts(q, b, ok)
        s1 == IF q.s.st[b] = "processing" THEN AfterRelease(W, q.s, b, ok /\ post = 1) ELSE q.s
    IN  [q EXCEPT !.s = s1,
                  !.owed = @ \cup { u \in Tasks(W) : ReadyOf(W, s1, u) # {} },
                  !.cust[b] = 0, !.prog = TRUE,
                  !.cur.used = @ \/ acc,
                  !.nAcc[t] = IF acc THEN @ + 1 ELSE @,
                  !.nLost[t] = IF acc THEN @ ELSE @ + 1]

-----------------------------------------------------------------------------
(* processes *)
SpawnClauses(W, q, t, good) ==
     (IF ~good THEN {"C17.identity", "C21.worker"} ELSE {})
\cup (IF t \notin q.inits THEN {"C16.spawn_before_init"} ELSE {})
\cup (IF Cardinality(LiveOf(q, t)) >= W.tasks[t].nw THEN {"C17.too_many"} ELSE {})
\cup (IF Cardinality(LiveOf(q, t)) + q.gone0[t] >= W.tasks[t].nw
         /\ (LiveOf(q, t) # {} \/ q.nLost[t] = 0)
      THEN {"C17.respawned"} ELSE {})
\cup (IF q.exits > 0 THEN {"C15.after_exit"} ELSE {})
AfterSpawn(W, q, w, t) ==
    [q EXCEPT !.ptask[w] = t, !.live = @ \cup {w},
              !.gone0[t] = IF Cardinality(LiveOf(q, t)) + @ >= W.tasks[t].nw /\ @ > 0 THEN @ - 1 ELSE @]

-----------------------------------------------------------------------------
(* notifications *)
NoteClauses(W, q, k, t, cnt) ==
     (IF q.exits > 0 THEN {"C15.note_after_exit", "C16.after_exit"} ELSE {})
\cup (IF k \in {"start", "acquire", "release", "done"} /\ cnt # Counters(W, q.s, t)
      THEN {"C16.state"} ELSE {})
\cup (IF k \in {"start", "acquire", "release"} /\ t \in q.done THEN {"C16.after_done"} ELSE {})
\cup (CASE k = "start" -> IF t \in q.started THEN {"C16.start_twice"} ELSE {}
        [] k = "acquire" -> IF t \notin q.started THEN {"C16.acquire_before_start"} ELSE {}
        [] k = "release" -> IF q.nRel[t] >= q.nAcq[t] THEN {"C16.release_unacquired"} ELSE {}
        [] k = "done" -> (IF t \in q.done THEN {"C16.done_twice"} ELSE {})
                         \cup (IF ~TaskDone(W, q.s, t) THEN {"C16.done_early"} ELSE {})
        [] OTHER -> {})
AfterNote(q, k, t, b, w) ==
    CASE k = "failure" -> [q EXCEPT !.fails = Append(@, <<b, w>>)]
      [] k = "start" -> [q EXCEPT !.started = @ \cup {t}]
      [] k = "acquire" -> [q EXCEPT !.nAcq[t] = @ + 1]
      [] k = "release" -> [q EXCEPT !.nRel[t] = @ + 1]
      [] k = "done" -> [q EXCEPT !.done = @ \cup {t}]
      [] k = "exit" -> [q EXCEPT !.exits = @ + 1]
      [] OTHER -> q

InitClauses(q, t, good) ==
     (IF t \in q.inits THEN {"C16.init_twice"} ELSE {})
\cup (IF ~good THEN {"C16.init_context"} ELSE {})
=============================================================================
