------------------------------- MODULE SchedMC -------------------------------
(***************************************************************************)
(* All behaviours of the scheduler on a set of small worlds.  The worlds are *)
(* built with the implementation's level algorithm (LevelGraph) and its      *)
(* region queries; the scheduler only looks at these dependencies.  That     *)
(* conflicting blocks exclude each other, that reads come after writes, that *)
(* nothing gets stuck etc. are consequences to be checked.                   *)
(* With GEN = TRUE complete histories are printed for replay (see            *)
(* harness/schedrun.py).                                                     *)
(***************************************************************************)
EXTENDS Sched, Worlds, Json
CONSTANTS SIZE, GEN
VARIABLES W, s, outst, hist
vars == <<W, s, outst, hist>>

Ctx == { <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>> }
Worlds0 ==
    CASE SIZE = "tiny" ->     \* for generating histories
           { << Mk(2, 1, x[1], x[2], "valid", TRUE, 1, <<>>) >> : x \in Ctx }
      \cup { << Mk(2, 1, 0, 0, "valid", FALSE, r, <<>>),
                Mk(2, 2, x[1], x[2], "shrink", TRUE, 0, <<1>>) >> : x \in Ctx, r \in {0} }
      \cup { << Mk(1, 1, 0, 0, "valid", FALSE, 0, <<>>), Mk(1, 1, 0, 0, "valid", FALSE, 0, <<>>),
                Mk(1, 1, 0, 0, "valid", FALSE, 0, <<1, 2>>) >> }
      [] SIZE = "gen" ->
           { << Mk(3, 1, x[1], x[2], "valid", k, 1, <<>>) >> : x \in {<<0, 0>>, <<1, 0>>}, k \in BOOLEAN }
      \cup { << Mk(2, 1, 0, 0, "valid", FALSE, 1, <<>>),
                Mk(2, 2, x[1], x[2], "shrink", TRUE, 0, <<1>>) >> : x \in {<<0, 0>>, <<1, 1>>} }
      \cup { << Mk(2, 1, 0, 0, "valid", FALSE, 0, <<>>),
                Mk(2, 1, x[1], x[2], "overhang", TRUE, 0, <<1>>) >> : x \in Ctx }
      \cup { << Mk(1, 1, 0, 0, "valid", FALSE, 0, <<>>), Mk(1, 1, 0, 0, "valid", FALSE, 0, <<1>>),
                Mk(1, 1, 0, 0, "valid", FALSE, 0, <<1>>), Mk(1, 1, 0, 0, "valid", FALSE, 0, <<2, 3>>) >> }
      [] SIZE = "small" ->
           { << Mk(4, w, x[1], x[2], f, TRUE, r, <<>>) >>
               : w \in 1..2, x \in Ctx, f \in {"valid", "shrink"}, r \in 0..1 }
      \cup { << Mk(3, w1, x[1], x[2], "shrink", k1, 0, <<>>),
                Mk(3, w2, y[1], y[2], f, k2, r, <<1>>) >>
               : w1 \in {1, 2}, w2 \in {1, 2}, x \in {<<0, 0>>, <<1, 0>>}, y \in Ctx,
                 f \in {"overhang", "valid"}, k1 \in BOOLEAN, k2 \in BOOLEAN, r \in 0..1 }
      \cup { << Mk(2, 1, 0, 0, "valid", k1, r, <<>>), Mk(2, 1, x[1], x[2], "valid", TRUE, 0, <<1>>),
                Mk(2, 2, x[1], x[2], "valid", FALSE, 0, <<1>>),
                Mk(2, 2, 1, 1, "overhang", TRUE, 0, <<2, 3>>) >>
               : x \in Ctx, k1 \in BOOLEAN, r \in 0..1 }
      [] SIZE = "large" ->
           { << Mk(t, w, x[1], x[2], f, TRUE, r, <<>>) >>
               : t \in 5..6, w \in 1..2, x \in Ctx, f \in {"valid", "shrink"}, r \in 0..1 }
      \cup { << Mk(4, w1, x[1], x[2], "shrink", k1, r1, <<>>),
                Mk(3, w2, y[1], y[2], f, k2, 0, <<1>>) >>
               : w1 \in {1, 2}, w2 \in {1, 2, 3}, x \in {<<0, 0>>, <<1, 0>>, <<2, 0>>}, y \in Ctx,
                 f \in {"overhang", "shrink"}, k1 \in BOOLEAN, k2 \in {TRUE}, r1 \in 0..1 }
      \cup { << Mk(3, 1, 0, 0, "valid", k1, 0, <<>>), Mk(2, 1, x[1], x[2], "valid", TRUE, 0, <<1>>),
                Mk(3, 2, x[2], x[1], "shrink", FALSE, 0, <<1>>),
                Mk(2, 2, 1, 1, "overhang", TRUE, 0, <<2, 3>>) >>
               : x \in Ctx, k1 \in BOOLEAN }

Init == /\ \E ts \in Worlds0 : W = TLCEval(Full(TLCEval(WorldOf(ts))))
        /\ s = SchedInit(W)
        /\ outst = <<>>
        /\ hist = <<>>

H(e) == hist' = IF GEN THEN Append(hist, e) ELSE <<>>

Acquire(b) == /\ IsReady(W, s, b)
              /\ (GEN => b = CHOOSE c \in ReadyOf(W, s, TaskOf(W, b)) : TRUE)
              /\ s' = AfterAcquire(W, s, b)
              /\ outst' = IF GEN THEN Append(outst, b) ELSE <<>>
              /\ H([op |-> "acq", k |-> TaskOf(W, b), ok |-> TRUE])
              /\ UNCHANGED W
(* the check function says that the block is done already *)
Skip(b) == /\ ~GEN
           /\ IsReady(W, s, b)
           /\ s' = AfterSkip(W, s, b)
           /\ UNCHANGED <<W, outst, hist>>
Release(b, ok) ==
    /\ s.st[b] = "processing"
    /\ s' = AfterRelease(W, s, b, ok)
    /\ IF GEN THEN LET k == CHOOSE k \in DOMAIN outst : outst[k] = b
                   IN  /\ outst' = SubSeq(outst, 1, k - 1) \o SubSeq(outst, k + 1, Len(outst))
                       /\ H([op |-> "rel", k |-> k, ok |-> ok])
       ELSE UNCHANGED <<outst, hist>>
    /\ UNCHANGED W

Next == \E b \in Blocks(W) : Acquire(b) \/ Skip(b) \/ \E ok \in BOOLEAN : Release(b, ok)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C03 *) NoConflict == \A b \in Processing(W, s) : W.conf[b] \cap Processing(W, s) = {}
(* C04 *) ReadsDone == \A b \in Blocks(W) : s.st[b] \in {"processing", "done", "failed"}
                            => \A u \in W.reads[b] : s.st[u] = "done"
(* C08 *) NotStuck == (Ready(W, s) = {} /\ Processing(W, s) = {}) => AllDone(W, s)
(* C09 *) Bounded == \A b \in Blocks(W) :
                        LET m == W.tasks[TaskOf(W, b)].maxr
                        IN  /\ s.att[b] <= m + 1
                            /\ (s.att[b] = m + 1) <=> (s.st[b] = "failed")
(* C10 *) Orphans == s.orph = Dependents(W, Failed(W, s))
          OrphansUntouched == \A b \in s.orph : s.st[b] = "pending"
(* C11 *) Counts == \A t \in Tasks(W) : LET c == Counters(W, s, t)
                        IN  /\ \A i \in 1..9 : c[i] >= 0
                            /\ c[1] + c[2] + c[3] + c[5] + c[6] + c[7] = c[8]
                            /\ c[4] <= c[3]
                            /\ (c[9] = 1) <=> TaskDone(W, s, t)
(* C18: the end is determined by the outcomes of attempts alone, not by the order *)
OutOf(b) == [k \in 1..(W.tasks[TaskOf(W, b)].maxr + 1) |-> k > s.att[b] /\ s.st[b] = "done"]
Confluent == AllDone(W, s) =>
    LET out == [b \in Blocks(W) |-> IF b \in s.orph THEN [k \in 1..5 |-> TRUE] ELSE OutOf(b)]
        f == FinalState(W, out, s.skip)
    IN  /\ f.completed = Done(W, s) /\ f.failed = Failed(W, s)
        /\ f.orphaned = s.orph /\ f.skipped = s.skip
EmitHist == (GEN /\ AllDone(W, s)) =>
    PrintT(<<"GEN", ToJson([tasks |-> W.tasks, m |-> hist])>>)
Finishes == <>AllDone(W, s)
=============================================================================
