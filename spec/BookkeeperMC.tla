----------------------------- MODULE BookkeeperMC -----------------------------
(* All short histories of the record; custody is ended exactly once.  With    *)
(* LEN > 0 histories of that length are printed for replay.                   *)
EXTENDS Bookkeeper, Json
CONSTANTS NB, NC, TO, MaxNow, LEN, MaxSent
VARIABLES k, sent, ended, hist
vars == <<k, sent, ended, hist>>
B == 1..NB
C == 1..NC
Init == k = BookInit /\ sent = [b \in B |-> 0] /\ ended = [b \in B |-> 0] /\ hist = <<>>
H(e) == hist' = IF LEN > 0 THEN Append(hist, e) ELSE <<>>
E(op, b, c, d) == [op |-> op, b |-> b, c |-> c, d |-> d]
More == LEN = 0 \/ Len(hist) < LEN

Send(b, c) == /\ More /\ ~IsOut(k, b) /\ sent[b] < MaxSent
              /\ k' = AfterSent(k, b, c) /\ sent' = [sent EXCEPT ![b] = @ + 1]
              /\ H(E("sent", b, c, 0)) /\ UNCHANGED ended
(* somebody tries to return a block *)
Return(b, c) == /\ More
                /\ IF Valid(k, b, c) THEN k' = AfterReturned(k, b) /\ ended' = [ended EXCEPT ![b] = @ + 1]
                   ELSE UNCHANGED <<k, ended>>
                /\ H(E("ret", b, c, 0)) /\ UNCHANGED sent
Close(c) == /\ More /\ c \notin k.closed /\ k' = AfterClose(k, c)
            /\ H(E("close", 0, c, 0)) /\ UNCHANGED <<sent, ended>>
Collect == /\ More
           /\ ended' = [b \in B |-> IF b \in LostNow(k, TO) THEN ended[b] + 1 ELSE ended[b]]
           /\ k' = AfterLost(k, TO)
           /\ H(E("lost", 0, 0, 0)) /\ UNCHANGED sent
Tick == /\ More /\ k.now < MaxNow /\ \E d \in 1..2 : k' = AfterTick(k, d) /\ H(E("tick", 0, 0, d))
        /\ UNCHANGED <<sent, ended>>
Next == \/ \E b \in B, c \in C : Send(b, c) \/ Return(b, c)
        \/ \E c \in C : Close(c)
        \/ Collect \/ Tick
Spec == Init /\ [][Next]_vars
(* every time a block was sent, custody ended at most once, and it ended unless it is out *)
Custody == \A b \in B : sent[b] - ended[b] = IF IsOut(k, b) THEN 1 ELSE 0
(* after collecting, nothing overdue is left *)
Collected == LostNow(AfterLost(k, TO), TO) = {}
Emit == (LEN > 0 /\ Len(hist) = LEN) => PrintT(<<"GEN", ToJson([to |-> TO, m |-> hist])>>)
=============================================================================
