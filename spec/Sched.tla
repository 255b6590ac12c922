-------------------------------- MODULE Sched --------------------------------
(***************************************************************************)
(* The scheduler as its users see it: blocks are acquired and released;     *)
(* what is available, orphaned and counted follows from the dependencies    *)
(* alone.  Operators take the world W and the scheduler state s, a record   *)
(*   s.st[b]   "pending" | "processing" | "done" | "failed"                 *)
(*   s.att[b]  failed attempts so far                                       *)
(*   s.skip    blocks completed without processing                          *)
(*   s.orph    blocks ruled out by permanent failures                       *)
(*                                                                          *)
(* Guards are given as sets of names of violated requirements ("clauses"),  *)
(* so that the same text serves model checking (enabled iff empty) and      *)
(* judging recorded runs (report the names).                                *)
(***************************************************************************)
EXTENDS WorldOps, TLC
LOCAL SX == INSTANCE SequencesExt

SchedInit(W) == [st   |-> TLCEval([b \in Blocks(W) |-> "pending"]),
                 att  |-> TLCEval([b \in Blocks(W) |-> 0]),
                 skip |-> {},
                 orph |-> {}]

Done(W, s)       == { b \in Blocks(W) : s.st[b] = "done" }
Processing(W, s) == { b \in Blocks(W) : s.st[b] = "processing" }
Failed(W, s)     == { b \in Blocks(W) : s.st[b] = "failed" }

IsReady(W, s, b) == /\ s.st[b] = "pending"
                    /\ b \notin s.orph
                    /\ \A u \in Up(W, b) : s.st[u] = "done"
ReadyOf(W, s, t) == { b \in BlocksOfTask(W, t) : IsReady(W, s, b) }
Ready(W, s)      == { b \in Blocks(W) : IsReady(W, s, b) }

Terminal(W, s, b) == s.st[b] \in {"done", "failed"} \/ b \in s.orph
TaskDone(W, s, t) == \A b \in BlocksOfTask(W, t) : Terminal(W, s, b)
AllDone(W, s)     == \A b \in Blocks(W) : Terminal(W, s, b)

-----------------------------------------------------------------------------
(* Requirements on handing out block b *)
AcquireClauses(W, s, b) ==
     (IF \E c \in ConflictsWith(W, b) : s.st[c] = "processing" THEN {"C03.conflict"} ELSE {})
  \cup (IF \E u \in ReadsFrom(W, b) : s.st[u] # "done" THEN {"C04.early"} ELSE {})
  \cup (IF \E u \in Up(W, b) : s.st[u] # "done" THEN {"C08.unready"} ELSE {})
  \cup (IF s.st[b] = "processing" THEN {"C09.twice"} ELSE {})
  \cup (IF s.st[b] = "done" THEN {"C09.after_success"} ELSE {})
  \cup (IF s.st[b] = "failed" THEN {"C09.after_failure"} ELSE {})
  \cup (IF s.att[b] > W.tasks[TaskOf(W, b)].maxr THEN {"C09.attempts"} ELSE {})
  \cup (IF b \in s.orph THEN {"C10.orphan_run"} ELSE {})

(* Skipping b as already done: it must have been available *)
SkipClauses(W, s, b) ==
     (IF \E u \in ReadsFrom(W, b) : s.st[u] # "done" THEN {"C04.skip_early"} ELSE {})
  \cup (IF ~IsReady(W, s, b) THEN {"C12.skip_unready"} ELSE {})

AfterSkip(W, s, b) == [s EXCEPT !.st[b] = "done", !.skip = @ \cup {b}]

(* what the check says about b: chk[b] lists its answers after 0, 1, ...      *)
(* failed attempts (1: done, 0: not done, 2: raises)                         *)
SaysDone(chk, s, b) == chk[b][Min(s.att[b] + 1, Len(chk[b]))] = 1

(* Calls of the check function <<block, answer>>, in order, and the skips    *)
(* that follow from them: s the state after, v broken clauses, n their number *)
SkipAll(W, s, calls) ==
    LET Next1(acc, x) ==
            LET b == x[1]
            IN  IF x[2] = 1 /\ b > 0 /\ acc.s.st[b] # "done"
                THEN TLCEval([s |-> AfterSkip(W, acc.s, b), n |-> acc.n + 1,
                              v |-> acc.v \cup SkipClauses(W, acc.s, b)])
                ELSE acc
    IN  SX!FoldLeft(Next1, [s |-> s, v |-> {}, n |-> 0], calls)

(* Handing out nothing for task t *)
NoneClauses(W, s, t) ==
     (IF ReadyOf(W, s, t) # {} THEN {"C08.withheld"} ELSE {})
  \cup (IF \E b \in ReadyOf(W, s, t) : s.att[b] > 0 THEN {"C09.no_retry"} ELSE {})

AfterAcquire(W, s, b) == [s EXCEPT !.st[b] = "processing"]

AfterRelease(W, s, b, ok) ==
    IF ok THEN [s EXCEPT !.st[b] = "done"]
    ELSE IF s.att[b] >= W.tasks[TaskOf(W, b)].maxr
         THEN [s EXCEPT !.st[b] = "failed", !.att[b] = @ + 1,
                        !.orph = @ \cup Dependents(W, {b})]
         ELSE [s EXCEPT !.st[b] = "pending", !.att[b] = @ + 1]

-----------------------------------------------------------------------------
(* Counters of a task: ready, processing, completed, skipped, failed,       *)
(* orphaned, pending, total, done                                            *)
Counters(W, s, t) ==
    LET B == BlocksOfTask(W, t)
        n(P(_)) == Cardinality({ b \in B : P(b) })
        isR(b) == IsReady(W, s, b)
        isP(b) == s.st[b] = "processing"
        isD(b) == s.st[b] = "done"
        isS(b) == b \in s.skip
        isF(b) == s.st[b] = "failed"
        isO(b) == b \in s.orph
        r == n(isR)
        p == n(isP)
        d == n(isD)
        f == n(isF)
        o == n(isO)
        tot == Cardinality(B)
    IN  << r, p, d, n(isS), f, o, tot - r - p - d - f - o, tot,
           IF tot = d + f + o THEN 1 ELSE 0 >>

CounterNames == <<"ready", "processing", "completed", "skipped", "failed", "orphaned",
                  "pending", "total", "done">>
CounterProp(i) == IF i = 4 THEN {"C11.", "C12."} ELSE IF i = 6 THEN {"C11.", "C10."}
                  ELSE IF i = 1 THEN {"C11.", "C08."} ELSE {"C11."}

CounterClauses(W, s, cnt) ==
    UNION { LET want == Counters(W, s, t)
            IN  UNION { { p \o CounterNames[i] : p \in CounterProp(i) }
                         : i \in { i \in 1..9 : cnt[t][i] # want[i] } }
            : t \in Tasks(W) }

ReadyTaskClauses(W, s, rt) ==
    IF rt # { t \in Tasks(W) : ReadyOf(W, s, t) # {} } THEN {"C08.ready_tasks"} ELSE {}

(* what the return of block b reports: all tasks that got something to do by   *)
(* it, and no task that it did not change (s: before, s2: after)               *)
ReportClauses(W, s, s2, b, upd) ==
    LET fed == { TaskOf(W, c) : c \in { c \in Down(W, b) \cup {b} : IsReady(W, s2, c) } }
        changed == {TaskOf(W, b)} \cup fed \cup { TaskOf(W, c) : c \in s2.orph \ s.orph }
    IN  (IF fed \subseteq upd THEN {} ELSE {"C08.report_missing"})
        \cup (IF upd \subseteq changed THEN {} ELSE {"C08.report_extra"})

EndClauses(W, s) ==   \* nothing is available and nothing is in processing
    (IF AllDone(W, s) THEN {} ELSE {"C08.stuck"})
    \cup (IF \E b \in Blocks(W) : s.st[b] = "pending" /\ s.att[b] > 0 THEN {"C09.no_retry"} ELSE {})
    \cup (IF \E b \in Blocks(W) : ~Terminal(W, s, b) /\ Failed(W, s) # {} THEN {"C10.rest"} ELSE {})
    \cup (IF \E b \in Blocks(W) : ~Terminal(W, s, b) /\ \E u \in Up(W, b) : u \in s.skip
          THEN {"C12.unblock"} ELSE {})

-----------------------------------------------------------------------------
(* The outcome of a run, independent of its schedule.  out[b] is the         *)
(* sequence of outcomes of successive attempts of b (BOOLEAN), chk whether    *)
(* the block is already done.                                                *)
SucceedsIfRun(W, out, chk, b) ==
    \/ b \in chk
    \/ \E k \in 1..(W.tasks[TaskOf(W, b)].maxr + 1) : out[b][k]

Attempts(W, out, chk, b) ==
    LET m == W.tasks[TaskOf(W, b)].maxr + 1
    IN  IF b \in chk THEN 0
        ELSE IF \E k \in 1..m : out[b][k]
             THEN CHOOSE k \in 1..m : out[b][k] /\ \A j \in 1..(k - 1) : ~out[b][j]
             ELSE m

FinalState(W, out, chk) ==
    LET bad  == { b \in Blocks(W) : ~SucceedsIfRun(W, out, chk, b) }
        orph == Dependents(W, bad)
        fail == bad \ orph
        good == Blocks(W) \ (fail \cup orph)
    IN  [completed |-> good, failed |-> fail, orphaned |-> orph, skipped |-> good \cap chk]
=============================================================================
