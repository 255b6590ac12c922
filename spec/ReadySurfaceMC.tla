--------------------------- MODULE ReadySurfaceMC ---------------------------
(* All DAGs over nodes 1..N (edges from smaller to larger), all marking       *)
(* orders, all outcomes.  With GEN = TRUE complete histories are printed, to  *)
(* be replayed into the implementation (harness/rs.py).                       *)
EXTENDS ReadySurface, TLC, Json
CONSTANTS N, GEN
VARIABLES edges, h, a, last, hist
vars == <<edges, h, a, last, hist>>
Nodes == 1..N
AllEdges == { e \in Nodes \X Nodes : e[1] < e[2] }
UpF == [n \in Nodes |-> { m \in Nodes : <<m, n>> \in edges }]
DownF == [n \in Nodes |-> { m \in Nodes : <<n, m>> \in edges }]

Init == /\ edges \in SUBSET AllEdges
        /\ h = AbsInit /\ a = AlgInit
        /\ last = [alg |-> {}, abs |-> {}]
        /\ hist = <<>>

Mark(n, ok) ==
    /\ n \in AbsMarkable(UpF, h)
    /\ LET r == IF ok THEN AlgSuccess(UpF, DownF, a, n) ELSE AlgFailure(UpF, DownF, a, n)
           want == IF ok THEN AbsFreed(DownF, UpF, h, n) ELSE AbsOrphaned(DownF, h, n)
       IN  /\ a' = r.a
           /\ last' = [alg |-> r.ret, abs |-> want]
           /\ h' = IF ok THEN AbsSuccess(h, n) ELSE AbsFailure(DownF, h, n)
           /\ hist' = IF GEN THEN Append(hist, [n |-> n, ok |-> ok, ret |-> want]) ELSE <<>>
    /\ UNCHANGED edges

Next == \E n \in Nodes, ok \in BOOLEAN : Mark(n, ok)
Spec == Init /\ [][Next]_vars

SameAnswer == last.alg = last.abs
(* the precondition the code asserts: upstream nodes of a markable node are in the surface *)
Precondition == \A n \in AbsMarkable(UpF, h) : UpF[n] \subseteq a.surface
(* everything is settled when nothing can be marked *)
Complete == AbsMarkable(UpF, h) = {} => h.ok \cup h.bad \cup h.orph = Nodes
EmitHist == (GEN /\ AbsMarkable(UpF, h) = {}) =>
            PrintT(<<"GEN", ToJson([e |-> edges, m |-> hist])>>)
=============================================================================
