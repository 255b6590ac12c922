----------------------------- MODULE TraceFinal ------------------------------
(***************************************************************************)
(* Compares complete runs with the outcome that dependencies, check results, *)
(* retry limits and the outcomes of attempts determine (FinalState): a run   *)
(* of the serial server and a run of run_blockwise with simulated workers on *)
(* the same tasks and outcomes.                                              *)
(*   raw[b][k]   outcome of the k-th attempt of block b                      *)
(*   post[b][j]  verdict of the post check on the j-th successful attempt    *)
(*   chk[b]      check result of block b                                     *)
(*   runs        kind, att (times each block was given to processing), cnt,  *)
(*               res (reported result: 1 true, 0 false, -1 none), exc        *)
(***************************************************************************)
EXTENDS Sched, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, viol
X == Traces[tid]
W == X.world

Eff == [b \in Blocks(W) |-> [k \in DOMAIN X.raw[b] |->
            X.raw[b][k] /\ X.post[b][Cardinality({ j \in 1..k : X.raw[b][j] })] = 1]]
Skips == { b \in Blocks(W) : X.chk[b] = 1 }

Judge(r, out, fin) ==
    LET n(S, t) == Cardinality({ b \in S : TaskOf(W, b) = t })
        whole == \A t \in Tasks(W) : r.cnt[t][3] = Cardinality(BlocksOfTask(W, t))
    IN  (IF r.live > 0 THEN {"C15.live"} ELSE {}) \cup
        (IF r.early THEN {"C15.returned_early"} ELSE {}) \cup
        IF r.kind = "interrupted"
        THEN IF r.exc # "" THEN {"C15.interrupt", "C18.interrupt"}
             ELSE (IF (r.res = 1) # whole THEN {"C18.result"} ELSE {})
             \cup (IF r.nsum # 1 THEN {"C24.printed"} ELSE {})
             \cup (IF \E t \in Tasks(W) : r.cnt[t][3] > n(fin.completed, t)
                   THEN {"C18.interrupted_counts"} ELSE {})
        ELSE IF r.exc # "" THEN {"C18.exception"} \cup (IF r.exc = "stuck" THEN {"C14.stuck", "C18.stuck"} ELSE {})
        ELSE (IF \E b \in Blocks(W) :
                    r.att[b] # (IF b \in fin.orphaned THEN 0 ELSE Attempts(W, out, Skips, b))
              THEN {"C18.attempts"} ELSE {})
        \cup (IF \E t \in Tasks(W) :
                    <<r.cnt[t][3], r.cnt[t][4], r.cnt[t][5], r.cnt[t][6]>>
                      # <<n(fin.completed, t), n(fin.skipped, t), n(fin.failed, t), n(fin.orphaned, t)>>
              THEN {"C18.counts"} ELSE {})
        \cup (IF r.res >= 0 /\ (r.res = 1) # (fin.completed = Blocks(W)) THEN {"C18.result"} ELSE {})
        \cup (IF r.kind \in {"dist", "serial2"} /\ r.nsum # 1 THEN {"C24.printed"} ELSE {})

Init == tid \in 1..Len(Traces) /\ l = 1 /\ viol = {}
Next == /\ l = 1
        /\ LET out == TLCEval(Eff)
               fin == TLCEval(FinalState(W, out, Skips))
           IN  viol' = { <<c, 1>> : c \in UNION { Judge(X.runs[i], out, fin) : i \in DOMAIN X.runs } }
        /\ l' = 2
        /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, viol>>
=============================================================================
