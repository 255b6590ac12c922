------------------------------ MODULE WorkerPool ------------------------------
(***************************************************************************)
(* A pool of worker processes.  State p:                                     *)
(*   slots  the pool's workers in the order in which they were started,      *)
(*          [w, st] with st "alive", "exited" (ended normally), "dead"       *)
(*   errs   errors raised by worker functions that did not surface yet       *)
(*          (worker numbers)                                                 *)
(*   cnt    reported block failures per worker since its last restart        *)
(* Workers that exited normally keep their slot, workers that died lose it   *)
(* when the pool looks after them.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PoolInit == [slots |-> <<>>, errs |-> {}, cnt |-> <<>>]

Num(p) == Len(p.slots)
WorkersOf(p) == { p.slots[i].w : i \in DOMAIN p.slots }
AliveSet(q) == { q[i].w : i \in { i \in DOMAIN q : q[i].st = "alive" } }
Alive(p) == AliveSet(p.slots)
DeadSlots(p) == { i \in DOMAIN p.slots : p.slots[i].st = "dead" }
NewSlots(ws) == [i \in DOMAIN ws |-> [w |-> ws[i], st |-> "alive"]]

(* Every operation: how many workers it starts, which it stops, and the slots *)
(* that remain of those before                                                *)
NoOp(p) == [start |-> 0, stop |-> {}, keep |-> p.slots]
OpSet(p, n) ==
    IF n >= Num(p) THEN [NoOp(p) EXCEPT !.start = n - Num(p)]
    ELSE [start |-> 0, stop |-> AliveSet(SubSeq(p.slots, n + 1, Num(p))),     \* the youngest
          keep |-> SubSeq(p.slots, 1, n)]
OpInc(p, n) == [NoOp(p) EXCEPT !.start = n]
OpStop(p, w) == [start |-> 0, stop |-> Alive(p) \cap {w},
                 keep |-> SelectSeq(p.slots, LAMBDA s : s.w # w)]
OpReap(p) == [NoOp(p) EXCEPT !.keep = SelectSeq(p.slots, LAMBDA s : s.st # "dead")]
OpHealth(p) == [OpReap(p) EXCEPT !.start = Cardinality(DeadSlots(p))]

Count(p, w) == IF w \in DOMAIN p.cnt THEN p.cnt[w] ELSE 0
TooMany(p, w, max) == Count(p, w) + 1 > max
OpFailure(p, w, max) ==
    IF TooMany(p, w, max) /\ w \in WorkersOf(p)
    THEN [OpStop(p, w) EXCEPT !.start = 1]
    ELSE NoOp(p)
AfterCount(p, w, max) ==
    [p EXCEPT !.cnt = (w :> (IF TooMany(p, w, max) THEN 0 ELSE Count(p, w) + 1)) @@ @]

(* the effect, where new is the sequence of workers that were started *)
AfterOp(p, op, new) == [p EXCEPT !.slots = op.keep \o NewSlots(new)]

(* what processes do by themselves *)
SetState(p, w, st) == [p EXCEPT !.slots = [i \in DOMAIN @ |->
                          IF @[i].w = w /\ @[i].st = "alive" THEN [@[i] EXCEPT !.st = st] ELSE @[i]]]
=============================================================================
