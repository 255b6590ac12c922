------------------------------ MODULE Handlers -------------------------------
(***************************************************************************)
(* Log messages while runs are monitored.  A monitor puts itself between     *)
(* the root logger and every log handler that writes to a terminal (so that  *)
(* progress bars and messages do not disturb each other), possibly several   *)
(* times.  Every handler still gets what it would get without: each message  *)
(* of at least its level, once, in order.                                    *)
(*   ms    sequence of [n, level, lv], lv[h]: level of handler h by then      *)
(*   seen  what handler h wrote                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Due(ms, h) == LET mine == SelectSeq(ms, LAMBDA e : e.level >= e.lv[h])
              IN  [i \in DOMAIN mine |-> mine[i].n]
Els(q) == { q[i] : i \in DOMAIN q }

HandlerClauses(ms, seen) ==
    UNION { LET due == Due(ms, h)
                got == seen[h]
            IN  IF got = due THEN {}
                ELSE (IF Els(due) \ Els(got) # {} THEN {"C24.log_lost"} ELSE {})
                     \cup (IF Els(got) \ Els(due) # {} THEN {"C24.log_unwanted"} ELSE {})
                     \cup (IF Cardinality(Els(got)) < Len(got) THEN {"C24.log_repeated"} ELSE {})
                     \cup (IF Els(got) = Els(due) /\ Len(got) = Len(due) THEN {"C24.log_order"} ELSE {})
            : h \in DOMAIN seen }
=============================================================================
