---------------------------- MODULE ObserversMC -----------------------------
(***************************************************************************)
(* How observers are told: a loop over the list of observers, any of which   *)
(* may unregister itself when it is told.  With Copy the loop runs over a    *)
(* copy of the list; without, over the list itself by position, so that the  *)
(* one after an observer that leaves is passed over.                         *)
(***************************************************************************)
EXTENDS Observers, FiniteSets, TLC
CONSTANTS N, MaxNotes, Copy
VARIABLES list,      \* registered observers
          loop,      \* what the loop runs over
          pos,       \* position in the loop (0: not in a loop)
          notes, seen, gone
vars == <<list, loop, pos, notes, seen, gone>>
Obs == 1..N
Init == /\ list = [i \in Obs |-> i] /\ loop = <<>> /\ pos = 0
        /\ notes = <<>> /\ seen = [o \in Obs |-> <<>>] /\ gone = [o \in Obs |-> FALSE]
Current == IF Copy THEN loop ELSE list
Notify == /\ pos = 0 /\ Len(notes) < MaxNotes
          /\ notes' = Append(notes, Len(notes) + 1)
          /\ loop' = list /\ pos' = 1 /\ UNCHANGED <<list, seen, gone>>
Tell == /\ pos > 0 /\ pos <= Len(Current)
        /\ LET o == Current[pos]
           IN  /\ seen' = [seen EXCEPT ![o] = Append(@, Len(notes))]
               /\ \/ UNCHANGED <<list, gone>>
                  \/ /\ ~gone[o]
                     /\ list' = SelectSeq(list, LAMBDA x : x # o)
                     /\ gone' = [gone EXCEPT ![o] = TRUE]
        /\ pos' = pos + 1 /\ UNCHANGED <<loop, notes>>
Finish == /\ pos > Len(Current) /\ pos' = 0 /\ UNCHANGED <<list, loop, notes, seen, gone>>
Next == Notify \/ Tell \/ Finish
Spec == Init /\ [][Next]_vars
AllTold == pos = 0 => \A o \in Obs : Told(notes, seen[o], gone[o], Len(seen[o]))
=============================================================================
