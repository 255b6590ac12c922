------------------------------- MODULE Identity ------------------------------
(***************************************************************************)
(* A block's id is a function of its task and position, and no two blocks    *)
(* share an id.  A view is what one process at one time sees: a sequence of  *)
(* [t, r, id] (task, regions, id).                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

ViewSet(v) == { v[i] : i \in DOMAIN v }
Injective(v) == \A i, j \in DOMAIN v : (i # j) => (v[i].id # v[j].id)
Agree(v, w) == ViewSet(v) = ViewSet(w)
IdentityClauses(views) ==
       (IF \E i \in DOMAIN views : ~Injective(views[i]) THEN {"C02.duplicate"} ELSE {})
  \cup (IF \E i \in DOMAIN views : ~Agree(views[1], views[i]) THEN {"C02.process"} ELSE {})
=============================================================================
