---------------------------- MODULE TaskFunction -----------------------------
(***************************************************************************)
(* What a task does with the function it is given, by the number of          *)
(* arguments that are left for daisy to fill in.                              *)
(*   0   a worker function: called once in every worker                      *)
(*   1   a block function: a worker calls it with every block it receives,   *)
(*       until it receives no more                                           *)
(*   n   refused when the task is created                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Role(n) == IF n = 0 THEN "worker" ELSE IF n = 1 THEN "block" ELSE "refused"

(* calls that one worker makes if it is sent these blocks (0: no argument)    *)
Calls(n, sent) == IF Role(n) = "worker" THEN <<0>> ELSE sent
=============================================================================
