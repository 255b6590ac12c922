------------------------------ MODULE TraceSched ------------------------------
(***************************************************************************)
(* Judges recorded scheduler sessions.  A session is a world and a sequence  *)
(* of calls:                                                                 *)
(*   op "acq": task t asked for a block; b is the block handed out (0: none) *)
(*   op "rel": block b was released; ok: outcome reported by the user, post: *)
(*             result of the post check (1 true or none, 0 false, 2 raised)  *)
(*   op "end": nothing is available and nothing is in processing             *)
(* with, for each: chk  check-function calls <<block, result>> (1 true,      *)
(* 0 false, 2 raised), cnt  counters of all tasks afterwards, rt  tasks      *)
(* reported to have work, upd  tasks reported as changed by a release,       *)
(* exc  whether the call raised.                                             *)
(***************************************************************************)
EXTENDS Sched, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, s, viol

W == Traces[tid].world
Ev == Traces[tid].events

(* which properties an exception in a call breaks *)
ExcClauses(e) ==
    LET x == {"C08.exception", "C11.exception"}
    IN  IF e.op = "acq" THEN x \cup {"C12.exception"}
        ELSE IF e.op = "rel" /\ e.ok THEN x \cup {"C10.exception", "C12.exception"}
        ELSE x \cup {"C09.exception", "C10.exception"}

Step(e) ==   \* [s |-> state after, v |-> violated clauses]
    LET sk == SkipAll(W, s, e.chk)
        s1 == sk.s
    IN  CASE e.exc -> [s |-> s1, v |-> ExcClauses(e), stop |-> TRUE]
          [] e.op = "acq" /\ e.b > 0 ->
                LET s2 == AfterAcquire(W, s1, e.b)
                IN  [s |-> s2, stop |-> FALSE,
                     v |-> sk.v \cup AcquireClauses(W, s1, e.b)
                           \cup (IF TaskOf(W, e.b) # e.t THEN {"C08.wrong_task"} ELSE {})
                           \cup (IF SaysDone(Traces[tid].chk, s1, e.b) THEN {"C12.processed"} ELSE {})
                           \cup CounterClauses(W, s2, e.cnt)
                           \cup ReadyTaskClauses(W, s2, Range(e.rt))]
          [] e.op = "acq" /\ e.b = 0 ->
                [s |-> s1, stop |-> FALSE,
                 v |-> sk.v \cup NoneClauses(W, s1, e.t)
                       \cup CounterClauses(W, s1, e.cnt)
                       \cup ReadyTaskClauses(W, s1, Range(e.rt))]
          [] e.op = "acq" /\ e.b < 0 ->
                [s |-> s1, stop |-> TRUE, v |-> {"C02.handed", "C08.unknown_block"}]
          [] e.op = "rel" ->
                LET s2 == AfterRelease(W, s1, e.b, e.ok /\ e.post = 1)
                IN  [s |-> s2, stop |-> FALSE,
                     v |-> sk.v \cup CounterClauses(W, s2, e.cnt)
                           \cup ReadyTaskClauses(W, s2, Range(e.rt))
                           \cup ReportClauses(W, s1, s2, e.b, Range(e.upd))
                           \cup (IF e.post # 1 /\ CounterClauses(W, s2, e.cnt) # {}
                                 THEN {"C12.post"} ELSE {})]
          [] e.op = "end" -> [s |-> s1, stop |-> FALSE, v |-> EndClauses(W, s1)]
          [] e.op = "build" -> [s |-> s1, stop |-> TRUE, v |-> ExcClauses(e)]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ s = SchedInit(Traces[tid].world)
        /\ viol = {}

(* first step at which each clause was violated *)
Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A p \in viol : p[1] # c } }

Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ s' = r.s
               /\ viol' = Note(r.v)
               /\ l' = IF r.stop THEN Len(Ev) + 1 ELSE l + 1
               /\ UNCHANGED tid
               /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)

Spec == Init /\ [][Next]_<<tid, l, s, viol>>
=============================================================================
