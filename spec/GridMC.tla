------------------------------- MODULE GridMC -------------------------------
(* The floor/ceil arithmetic used to expand a region to a grid yields the     *)
(* smallest aligned cover (declared in TraceGrid), for all small values.      *)
EXTENDS Integers, Sequences
CONSTANT M
VARIABLES b, e, org, w
T == INSTANCE TraceGrid WITH tid <- 0, judged <- FALSE
CeilDiv(x, y) == -((-x) \div y)
Init == b \in -M..M /\ e \in (b + 1)..(M + 1) /\ org \in -M..M /\ w \in 1..M
Next == UNCHANGED <<b, e, org, w>>
Spec == Init /\ [][Next]_<<b, e, org, w>>
Alg == [b |-> << ((b - org) \div w) * w + org >>,
        e |-> << CeilDiv(e - org, w) * w + org >>]
Inv == T!Cover(Alg, <<b>>, <<e>>, <<org>>, <<w>>, <<0>>, <<0>>)
=============================================================================
