-------------------------------- MODULE Serial --------------------------------
(***************************************************************************)
(* The serial server: one block at a time is acquired, announced, processed, *)
(* released, announced.  The state p has                                     *)
(*   s       scheduler state                                                 *)
(*   cur     the block in work (0: none), ph its phase, ok its outcome       *)
(*   started, done   tasks announced; nAcq, nOut, nRel, nBack  notifications *)
(*           and what they are about; exits                                  *)
(*   raised  processing raised an exception                                  *)
(***************************************************************************)
EXTENDS Sched

SerialInit(W) ==
    LET z == [t \in Tasks(W) |-> 0]
    IN  [s |-> SchedInit(W), cur |-> 0, ph |-> "idle", ok |-> TRUE,
         started |-> {}, done |-> {}, nAcq |-> z, nOut |-> z, nRel |-> z, nBack |-> z,
         exits |-> 0, raised |-> FALSE, runs |-> [b \in Blocks(W) |-> 0]]

(* between two blocks: everything announced that was to be announced *)
Between(W, p) ==
     (IF p.cur # 0 THEN {"C18.dropped", "C16.dropped"} ELSE {})
\cup (IF p.nAcq # p.nOut THEN {"C16.acquire_notes"} ELSE {})
\cup (IF p.nRel # p.nBack THEN {"C16.release_notes"} ELSE {})

AfterSerialAcquire(W, p, b) ==
    [p EXCEPT !.s = AfterAcquire(W, p.s, b), !.cur = b, !.ph = "acquired", !.nOut[TaskOf(W, b)] = @ + 1]
ProcessClauses(W, p, b) ==
    IF p.cur # b \/ p.ph # "acquired" THEN {"C18.processed"}
    ELSE IF TaskOf(W, b) \notin p.started THEN {"C16.start"} ELSE {}
AfterProcess(p, b, ok, raised) ==
    [p EXCEPT !.ph = "processed", !.ok = ok, !.raised = raised, !.runs[b] = @ + 1]
SerialReleaseClauses(W, p, b, ok) ==
     (IF p.cur # b \/ p.ph # "processed" THEN {"C18.released"} ELSE {})
\cup (IF ok # p.ok THEN {"C18.status"} ELSE {})
AfterSerialRelease(W, p, b, ok, post) ==
    [p EXCEPT !.s = IF p.s.st[b] = "processing" THEN AfterRelease(W, p.s, b, ok /\ post = 1) ELSE @,
              !.cur = 0, !.ph = "idle", !.nBack[TaskOf(W, b)] = @ + 1]

SerialNoteClauses(W, p, k, t, cnt) ==
     (IF p.exits > 0 THEN {"C16.after_exit"} ELSE {})
\cup (IF k \in {"start", "acquire", "release", "done"} /\ cnt # Counters(W, p.s, t)
      THEN {"C16.state"} ELSE {})
\cup (IF k \in {"start", "acquire", "release"} /\ t \in p.done THEN {"C16.after_done"} ELSE {})
\cup (CASE k = "start" -> IF t \in p.started THEN {"C16.start_twice"} ELSE {}
        [] k = "acquire" -> (IF t \notin p.started THEN {"C16.acquire_before_start"} ELSE {})
                            \cup (IF p.nAcq[t] >= p.nOut[t] THEN {"C16.acquire_notes"} ELSE {})
        [] k = "release" -> IF p.nRel[t] >= p.nBack[t] THEN {"C16.release_notes"} ELSE {}
        [] k = "done" -> (IF t \in p.done THEN {"C16.done_twice"} ELSE {})
                         \cup (IF ~TaskDone(W, p.s, t) THEN {"C16.done_early"} ELSE {})
        [] OTHER -> {})
AfterSerialNote(p, k, t) ==
    CASE k = "start" -> [p EXCEPT !.started = @ \cup {t}]
      [] k = "acquire" -> [p EXCEPT !.nAcq[t] = @ + 1]
      [] k = "release" -> [p EXCEPT !.nRel[t] = @ + 1]
      [] k = "done" -> [p EXCEPT !.done = @ \cup {t}]
      [] k = "exit" -> [p EXCEPT !.exits = @ + 1]
      [] OTHER -> p

SerialEndClauses(W, p, exc, cnt) ==
    LET normal == exc = ""
    IN  (IF normal THEN Between(W, p) ELSE {})
   \cup (IF normal /\ ~AllDone(W, p.s) THEN {"C18.unfinished", "C12.unfinished"} ELSE {})
   \cup (IF normal /\ p.done # Tasks(W) THEN {"C16.done_missing"} ELSE {})
   \cup (IF normal /\ CounterClauses(W, p.s, cnt) # {} THEN {"C18.final"} ELSE {})
   \cup (IF normal /\ p.raised THEN {"C18.swallowed"} ELSE {})
   \cup (IF ~normal /\ ~p.raised THEN {"C16.exception", "C18.exception", "C12.exception"} ELSE {})
   \cup (IF p.exits # 1 THEN {"C16.exit"} ELSE {})
=============================================================================
