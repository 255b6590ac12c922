-------------------------------- MODULE Client --------------------------------
(***************************************************************************)
(* A client (the worker's side of the protocol).  State c:                   *)
(*   ph    "idle" | "asked" | "answered" | "user" (the user's code has       *)
(*         control) | "done" (the user's code has left the block)            *)
(*   ans   "" | "block" | "shutdown" | "closed"   what came back             *)
(*   b     the block received and not returned yet (0: none)                 *)
(*   u     how the user's code left                                          *)
(*   nf    failure reports sent for it; nr returns sent for it               *)
(*   up    whether the server can be reached                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Raises == {"raise", "raise_odd", "set_ok_raise", "set_fail_raise"}   \* ordinary exceptions
Interrupts == {"interrupt", "exit", "set_fail_interrupt"}            \* KeyboardInterrupt, SystemExit
Normal == {"ok", "set_ok", "set_fail"}
Outcomes == Raises \cup Interrupts \cup Normal
StatusOf(u) == IF u \in {"ok", "set_ok"} THEN "success" ELSE "failed"

ClientInit == [ph |-> "idle", ans |-> "", b |-> 0, u |-> "", nf |-> 0, nr |-> 0, up |-> TRUE]

AskClauses(c, goodTask) ==
     (IF c.ph # "idle" \/ c.b # 0 THEN {"C19.order"} ELSE {})
\cup (IF ~goodTask THEN {"C19.task"} ELSE {})
AfterAsk(c) == [c EXCEPT !.ph = "asked", !.ans = "", !.u = "", !.nf = 0, !.nr = 0]

AfterAnswer(c, k, b) ==
    IF k = "closed" THEN [c EXCEPT !.ph = "answered", !.ans = "closed", !.up = FALSE]
    ELSE [c EXCEPT !.ph = "answered", !.ans = k, !.b = IF k = "block" THEN b ELSE 0]

(* control is given to the user's code, with block b or none (0) *)
YieldClauses(c, b) ==
    IF c.ph # "answered" THEN {"C19.premature"}
    ELSE IF c.ans = "block" THEN IF b # c.b THEN {"C19.wrong_block"} ELSE {}
    ELSE IF b # 0 THEN {"C19.yielded"} ELSE {}
AfterYield(c) == [c EXCEPT !.ph = "user"]

AfterUser(c, u) == [c EXCEPT !.ph = "done", !.u = u]

ReportClauses(c, b, good) ==
    IF c.ph # "done" \/ c.b # b \/ c.u \notin Raises \/ c.nf > 0 \/ c.nr > 0 \/ ~good
    THEN {"C19.report"} ELSE {}
AfterReport(c) == [c EXCEPT !.nf = @ + 1]

ReturnClauses(c, b, status) ==
     (IF c.ph # "done" \/ c.b # b \/ c.nr > 0 THEN {"C19.returned"} ELSE {})
\cup (IF c.ph = "done" /\ c.b = b /\ status # StatusOf(c.u) THEN {"C19.status"} ELSE {})
AfterReturn(c) == [c EXCEPT !.nr = @ + 1, !.b = 0]

(* the with statement is left; exc is what it raised ("" for nothing) *)
LeaveClauses(c, exc) ==
    IF c.ans = "block"
    THEN IF ~c.up THEN {}      \* nobody is left to return it to
         ELSE (IF c.nr # 1 THEN {"C19.unreturned"} ELSE {})
         \cup (IF c.u \in Raises /\ c.nf # 1 THEN {"C19.unreported"} ELSE {})
         \cup (IF c.u \notin Interrupts /\ exc # "" THEN {"C19.raised"} ELSE {})
    ELSE IF exc # "" THEN {"C19.raised"} ELSE {}
AfterLeave(c) == [c EXCEPT !.ph = "idle", !.b = IF ~c.up THEN 0 ELSE @]
=============================================================================
