----------------------------- MODULE GeometryMC -----------------------------
(* Exhaustive check of Geometry and LevelGraph over all small tasks.        *)
EXTENDS LevelGraph
CONSTANTS MaxW, MaxC, MaxTot, NDim, MaxQ

VARIABLES task, other, stage

Vals(lo, hi) == [1..NDim -> lo..hi]
Fits == {"valid", "overhang", "shrink"}

Mk(b, t, w, a, c, f, k) == [beg |-> b, tot |-> t, w |-> w, c0 |-> a, c1 |-> c,
                            fit |-> f, conf |-> k, ups |-> {}]
Zero == [d \in 1..NDim |-> 0]

Init ==
    /\ stage = "one"
    /\ \E t \in Vals(0, MaxTot), w \in Vals(1, MaxW), a, c \in Vals(0, MaxC),
          f \in Fits, k \in BOOLEAN :
          task = Mk(Zero, t, w, a, c, f, k)
    /\ other = <<>>

(* a query region relative to the task, inside, across and outside *)
Next ==
    /\ stage = "one"
    /\ stage' = "two"
    /\ UNCHANGED task
    /\ \E b \in Vals(-MaxQ, MaxTot + MaxQ), s \in Vals(1, MaxQ) :
          other' = <<b, [d \in 1..NDim |-> b[d] + s[d]]>>

Spec == Init /\ [][Next]_<<task, other, stage>>

InvTiling == stage = "one" => TilingOK(task)
InvLevels == stage = "one" => LevelGraphOK(task)
InvQuery  == stage = "two" => QueryOK(task, other[1], other[2])
=============================================================================
