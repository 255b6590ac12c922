----------------------------- MODULE HandlersMC ------------------------------
(* Chains of wrappers in front of handlers: a wrapper passes on its handler's *)
(* level and writes to its handler's stream.                                  *)
EXTENDS Handlers, TLC
TtyDef == <<TRUE, FALSE>>
CONSTANTS Tty, Levels, MaxM, MaxWrap
VARIABLES chain,    \* handler -> number of wrappers in front of it
          level, ms, seen
vars == <<chain, level, ms, seen>>
H == DOMAIN Tty
Init == /\ chain = [h \in H |-> 0] /\ level \in [H -> Levels] /\ ms = <<>> /\ seen = [h \in H |-> <<>>]
Monitor == /\ \E h \in H : chain[h] < MaxWrap
           /\ chain' = [h \in H |-> IF Tty[h] THEN chain[h] + 1 ELSE chain[h]]
           /\ \A h \in H : chain'[h] <= MaxWrap
           /\ UNCHANGED <<level, ms, seen>>
RECURSIVE LevelOf(_, _)
LevelOf(h, d) == IF d = 0 THEN level[h] ELSE LevelOf(h, d - 1)
Log(v) == /\ Len(ms) < MaxM
          /\ ms' = Append(ms, [n |-> Len(ms) + 1, level |-> v, lv |-> level])
          /\ seen' = [h \in H |-> IF v >= LevelOf(h, chain[h]) THEN Append(seen[h], Len(ms) + 1) ELSE seen[h]]
          /\ UNCHANGED <<chain, level>>
SetLevel(h, v) == level' = [level EXCEPT ![h] = v] /\ UNCHANGED <<chain, ms, seen>>
Next == Monitor \/ (\E v \in Levels : Log(v)) \/ (\E h \in H, v \in Levels : SetLevel(h, v))
Spec == Init /\ [][Next]_vars
Right == HandlerClauses(ms, seen) = {}
=============================================================================
