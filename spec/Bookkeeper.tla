------------------------------ MODULE Bookkeeper ------------------------------
(***************************************************************************)
(* The record of blocks that were sent out.  State k:                        *)
(*   out     block -> [c, at] of blocks that are out (function on a subset)  *)
(*   closed  connections that are closed                                     *)
(*   now     time                                                            *)
(* TO is the processing timeout, -1 for none.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

BookInit == [out |-> <<>>, closed |-> {}, now |-> 0]

IsOut(k, b) == b \in DOMAIN k.out
Valid(k, b, c) == IsOut(k, b) /\ k.out[b].c = c
LostNow(k, TO) == { b \in DOMAIN k.out : \/ k.out[b].c \in k.closed
                                         \/ TO >= 0 /\ k.now - k.out[b].at > TO }
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

AfterSent(k, b, c)   == [k EXCEPT !.out = @ @@ (b :> [c |-> c, at |-> k.now])]
AfterReturned(k, b)  == [k EXCEPT !.out = Without(@, {b})]
AfterLost(k, TO)     == [k EXCEPT !.out = Without(@, LostNow(k, TO))]
AfterClose(k, c)     == [k EXCEPT !.closed = @ \cup {c}]
AfterTick(k, d)      == [k EXCEPT !.now = @ + d]
=============================================================================
