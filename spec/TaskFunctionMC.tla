---------------------------- MODULE TaskFunctionMC ----------------------------
(***************************************************************************)
(* The worker loop: a block function is called with one block after the      *)
(* other, until the server has no more or is gone; a worker function is       *)
(* called once and may itself ask for blocks (which is its own affair).       *)
(***************************************************************************)
EXTENDS TaskFunction
CONSTANTS MaxArgs, MaxBlocks
VARIABLES n, pc, sent, calls, made
vars == <<n, pc, sent, calls, made>>
Init == n \in 0..MaxArgs /\ pc = "create" /\ sent = <<>> /\ calls = <<>> /\ made = FALSE
Create == /\ pc = "create" /\ made' = (n <= 1)
          /\ pc' = (IF n = 0 THEN "spawn" ELSE IF n = 1 THEN "ask" ELSE "end")
          /\ UNCHANGED <<n, sent, calls>>
Spawn == pc = "spawn" /\ calls' = Append(calls, 0) /\ pc' = "end" /\ UNCHANGED <<n, sent, made>>
Receive == /\ pc = "ask" /\ Len(sent) < MaxBlocks
           /\ \E b \in 1..MaxBlocks : sent' = Append(sent, b)     \* a block may come again
           /\ pc' = "call" /\ UNCHANGED <<n, calls, made>>
Call == pc = "call" /\ calls' = Append(calls, sent[Len(sent)]) /\ pc' = "ask" /\ UNCHANGED <<n, sent, made>>
NoMore == pc = "ask" /\ pc' = "end" /\ UNCHANGED <<n, sent, calls, made>>
Next == Create \/ Spawn \/ Receive \/ Call \/ NoMore
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == pc = "end" => /\ made = (Role(n) # "refused")
                       /\ made => calls = Calls(n, sent)
                       /\ ~made => calls = <<>>
Ends == <>(pc = "end")
=============================================================================
