----------------------------- MODULE WorkerPoolMC -----------------------------
(* The pool of one task, as the server uses it: it never has more workers     *)
(* than configured, dead workers are replaced, others are not.  With LEN > 0  *)
(* histories (with additional direct uses of the pool) are printed.           *)
EXTENDS WorkerPool, Json
CONSTANTS N, MaxW, LEN, MaxFail
VARIABLES p, nw, hist
vars == <<p, nw, hist>>
Init == p = PoolInit /\ nw = 0 /\ hist = <<>>
GEN == LEN > 0
H(op, n, w) == hist' = IF GEN THEN Append(hist, [op |-> op, n |-> n, w |-> w]) ELSE <<>>
More == ~GEN \/ Len(hist) < LEN
Do(op) == LET new == [i \in 1..op.start |-> nw + i]
          IN  /\ nw + op.start <= MaxW
              /\ p' = AfterOp(p, op, new) /\ nw' = nw + op.start
Recruit == Do(OpSet(p, N)) /\ H("set", N, 0)
Health == /\ p.errs = {} /\ Do(OpHealth(p)) /\ H("health", 0, 0)
Surface == /\ p.errs # {} /\ \E w \in p.errs : p' = [p EXCEPT !.errs = @ \ {w}]
           /\ UNCHANGED nw /\ H("errors", 0, 0)
Failure(w) == LET op == OpFailure(p, w, MaxFail)
                  new == [i \in 1..op.start |-> nw + i]
              IN  /\ nw + op.start <= MaxW
                  /\ p' = AfterOp(AfterCount(p, w, MaxFail), op, new) /\ nw' = nw + op.start
                  /\ H("failure", 0, w)
Ends(w) == /\ w \in Alive(p) /\ UNCHANGED nw
           /\ \/ p' = SetState(p, w, "exited") /\ H("exit", 0, w)
              \/ p' = SetState(p, w, "dead") /\ H("crash", 0, w)
              \/ p' = [SetState(p, w, "exited") EXCEPT !.errs = @ \cup {w}] /\ H("raise", 0, w)
Direct == /\ GEN
          /\ \/ \E n \in 0..N + 1 : Do(OpSet(p, n)) /\ H("set", n, 0)
             \/ \E w \in 1..nw : Do(OpStop(p, w)) /\ H("stop", 0, w)
             \/ \E n \in 1..2 : Do(OpInc(p, n)) /\ H("inc", n, 0)
Next == More /\ (Recruit \/ Health \/ Surface \/ (\E w \in 1..nw : Failure(w) \/ Ends(w)) \/ Direct)
Spec == Init /\ [][Next]_vars
AtMost == Num(p) <= N /\ Cardinality(Alive(p)) <= N
Kept == nw > 0 => Num(p) = N        \* nobody disappears from the books
Replaced == (nw > 0 /\ nw + Cardinality(DeadSlots(p)) <= MaxW) =>
              Cardinality(AliveSet(OpHealth(p).keep)) + OpHealth(p).start
                 = N - Cardinality({ i \in DOMAIN p.slots : p.slots[i].st = "exited" })
Emit == (GEN /\ Len(hist) = LEN) => PrintT(<<"GEN", ToJson([max |-> MaxFail, m |-> hist])>>)
=============================================================================
