---------------------------- MODULE ReadySurface ----------------------------
(***************************************************************************)
(* Two descriptions of the ready surface of a DAG:                          *)
(*  - abstract: which nodes succeeded / failed / are ruled out;             *)
(*  - algorithmic: the surface and boundary sets that the implementation    *)
(*    keeps instead of the full history.                                    *)
(* ReadySurfaceMC checks that the algorithm computes the abstract answers.  *)
(* `up` and `down` are functions from nodes to sets of nodes.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Reach(_, _, _)
Reach(f, frontier, acc) ==
    IF frontier = {} THEN acc
    ELSE LET n == (UNION { f[x] : x \in frontier }) \ acc IN Reach(f, n, acc \cup n)

-----------------------------------------------------------------------------
(* abstract: h = [ok, bad, orph] *)
AbsInit == [ok |-> {}, bad |-> {}, orph |-> {}]
AbsMarkable(up, h) ==
    { n \in DOMAIN up : n \notin h.ok \cup h.bad \cup h.orph /\ up[n] \subseteq h.ok }
AbsFreed(down, up, h, n) ==      \* nodes freed by the success of n
    { d \in down[n] : up[d] \subseteq h.ok \cup {n} }
AbsOrphaned(down, h, n) ==       \* nodes newly ruled out by the failure of n
    Reach(down, {n}, {}) \ h.orph
AbsSuccess(h, n) == [h EXCEPT !.ok = @ \cup {n}]
AbsFailure(down, h, n) == [h EXCEPT !.bad = @ \cup {n}, !.orph = @ \cup Reach(down, {n}, {})]

-----------------------------------------------------------------------------
(* algorithmic: a = [surface, boundary, orphans] *)
AlgInit == [surface |-> {}, boundary |-> {}, orphans |-> {}]

(* add d to the boundary if one of its upstream nodes is there *)
CanAdd(up, a, d) == d \notin a.boundary /\ up[d] \cap a.boundary # {}

RECURSIVE FoldSucc(_, _, _, _)
FoldSucc(up, a, todo, freed) ==   \* downstream nodes of a successful node
    IF todo = {} THEN [a |-> a, freed |-> freed]
    ELSE LET d == CHOOSE x \in todo : TRUE
         IN  IF CanAdd(up, a, d)
             THEN FoldSucc(up, [a EXCEPT !.boundary = @ \cup {d}], todo \ {d}, freed)
             ELSE FoldSucc(up, a, todo \ {d},
                           IF up[d] \subseteq a.surface THEN freed \cup {d} ELSE freed)

(* upstream nodes all of whose dependents are settled leave the surface, and   *)
(* boundary nodes without surface neighbours leave the boundary                *)
RECURSIVE Prune(_, _, _, _)
Prune(up, down, a, todo) ==
    IF todo = {} THEN a
    ELSE LET u == CHOOSE x \in todo : TRUE
         IN  IF \A d \in down[u] : d \in a.surface \/ d \in a.boundary
             THEN LET s2 == a.surface \ {u}
                      \* a node in both sets counts as neither (as in the code)
                      cand == { d \in down[u] : d \in a.boundary /\ d \notin a.surface }
                      b2 == a.boundary \ { d \in cand : up[d] \cap s2 = {} }
                  IN  Prune(up, down, [a EXCEPT !.surface = s2, !.boundary = b2], todo \ {u})
             ELSE Prune(up, down, a, todo \ {u})

AlgSuccess(up, down, a0, n) ==
    LET f == FoldSucc(up, [a0 EXCEPT !.surface = @ \cup {n}], down[n], {})
        p == Prune(up, down, f.a, up[n])
        q == IF down[n] = {} THEN [p EXCEPT !.surface = @ \ {n}] ELSE p
    IN  [a |-> q, ret |-> f.freed]

RECURSIVE FoldFail(_, _, _, _, _)
FoldFail(up, down, a, todo, orph) ==
    IF todo = {} THEN [a |-> a, orph |-> orph]
    ELSE LET d == CHOOSE x \in todo : TRUE
         IN  IF CanAdd(up, a, d)
             THEN LET a2 == [a EXCEPT !.boundary = @ \cup {d}]
                  IN  IF d \in a.orphans THEN FoldFail(up, down, a2, todo \ {d}, orph)
                      ELSE FoldFail(up, down, a2, (todo \ {d}) \cup (down[d] \ orph), orph \cup {d})
             ELSE FoldFail(up, down, a, todo \ {d}, orph)

AlgFailure(up, down, a0, n) ==
    LET f == FoldFail(up, down, [a0 EXCEPT !.boundary = @ \cup {n}], down[n], {})
        a1 == [f.a EXCEPT !.orphans = @ \cup f.orph]
        p == Prune(up, down, a1, up[n])
        q == IF up[n] = {} THEN [p EXCEPT !.boundary = @ \ {n}] ELSE p
    IN  [a |-> q, ret |-> f.orph]
=============================================================================
