------------------------------ MODULE WorldOps ------------------------------
(***************************************************************************)
(* A world: the tasks of a run, all their blocks, and the dependencies as   *)
(* the implementation reports them.  Recorded from the implementation (see  *)
(* harness/world.py) or chosen by a model-checking module.                  *)
(*   W.tasks   sequence of tasks (see Geometry), .ups sequence of numbers   *)
(*   W.blocks  sequence of [t, id, rb, re, wb, we]                          *)
(*   W.up, W.down   per block: sequence of block numbers                    *)
(***************************************************************************)
EXTENDS Geometry

Range(s) == { s[i] : i \in DOMAIN s }
Blocks(W) == DOMAIN W.blocks
Tasks(W) == DOMAIN W.tasks
BlocksOfTask(W, t) == { b \in Blocks(W) : W.blocks[b].t = t }
Up(W, b) == Range(W.up[b])
Down(W, b) == Range(W.down[b])
TaskOf(W, b) == W.blocks[b].t
UpTasks(W, t) == Range(W.tasks[t].ups)

(* What a block must wait for, by geometry alone: blocks of upstream tasks   *)
(* that write what it reads.                                                 *)
ReadsFrom(W, b) ==
    { u \in Blocks(W) : /\ TaskOf(W, u) \in UpTasks(W, TaskOf(W, b))
                        /\ WritesInto(W.blocks[u], W.blocks[b]) }

(* Blocks that must never be in processing together with b, by geometry.     *)
ConflictsWith(W, b) ==
    IF ~W.tasks[TaskOf(W, b)].conf THEN {}
    ELSE { c \in Blocks(W) \ {b} : /\ TaskOf(W, c) = TaskOf(W, b)
                                   /\ Conflicting(W.blocks[b], W.blocks[c]) }

RECURSIVE CloseUnder(_, _, _)
CloseUnder(f, frontier, acc) ==   \* everything reachable from frontier via f
    IF frontier = {} THEN acc
    ELSE LET nxt == (UNION { f[x] : x \in frontier }) \ acc
         IN  CloseUnder(f, nxt, acc \cup nxt)

UpFcn(W) == [b \in Blocks(W) |-> Up(W, b) \cap Blocks(W)]
DownByUp(W) == [b \in Blocks(W) |-> { c \in Blocks(W) : b \in Up(W, c) }]
(* all blocks that depend on the blocks in S, directly or transitively *)
Dependents(W, S) == CloseUnder(DownByUp(W), S, {})
AncestorsOf(W) == LET u == UpFcn(W) IN [b \in Blocks(W) |-> CloseUnder(u, {b}, {})]
=============================================================================
