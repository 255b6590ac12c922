----------------------------- MODULE Observers ------------------------------
(***************************************************************************)
(* Several observers of one run.  Each of them is told everything, in the    *)
(* same order, for as long as it is registered.                              *)
(*   notes: what the run has to tell, in order                               *)
(*   seen:  what one observer was told                                       *)
(*   gone:  it was unregistered, in its n-th notification                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Told(notes, seen, gone, n) ==
    /\ IsPrefixOf(seen, notes)
    /\ IF gone THEN Len(seen) = n ELSE Len(seen) = Len(notes)
ObserverClauses(notes, wit) ==
    IF \A i \in DOMAIN wit : Told(notes, wit[i].notes, wit[i].gone, wit[i].n) THEN {} ELSE {"C16.observer"}
=============================================================================
