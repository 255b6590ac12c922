------------------------------- MODULE Summary -------------------------------
(***************************************************************************)
(* The execution summary.  sum is a sequence of records, one per task that   *)
(* was printed: t, the numbers n c s f o (blocks, completed, skipped, failed,*)
(* orphaned), all (the claim that all blocks were processed successfully),   *)
(* fails (listed failures <<block, worker>>), more (number of failures that  *)
(* were not listed).  known is the set of tasks that were started or done,   *)
(* fails the sequence of failures that workers reported.                     *)
(***************************************************************************)
EXTENDS Sched
MaxListed == 100

Bag(q) == [x \in { q[i] : i \in DOMAIN q } |-> Cardinality({ i \in DOMAIN q : q[i] = x })]

SummaryClauses(W, s, known, fails, nsum, sum) ==
     (IF nsum # 1 THEN {"C24.printed"} ELSE {})
\cup (IF { sum[i].t : i \in DOMAIN sum } # known \/ Len(sum) # Cardinality(known)
      THEN {"C24.tasks"} ELSE {})
\cup UNION { LET r == sum[i]
                 c == Counters(W, s, r.t)
                 mine == SelectSeq(fails, LAMBDA x : TaskOf(W, x[1]) = r.t)
             IN  IF r.t \notin Tasks(W) THEN {"C24.tasks"}
                 ELSE (IF <<r.n, r.c, r.s, r.f, r.o>> # <<c[8], c[3], c[4], c[5], c[6]>>
                       THEN {"C24.numbers"} ELSE {})
                 \cup (IF r.all # (c[3] = c[8]) THEN {"C24.claim"} ELSE {})
                 \cup (IF Len(mine) <= MaxListed
                       THEN IF Bag(r.fails) # Bag(mine) \/ r.more # 0 THEN {"C24.failures"} ELSE {}
                       ELSE IF Bag(r.fails) # Bag(SubSeq(mine, 1, MaxListed)) \/ r.more # Len(mine) - MaxListed
                            THEN {"C24.failures"} ELSE {})
             : i \in DOMAIN sum }
=============================================================================
