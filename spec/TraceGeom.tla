------------------------------ MODULE TraceGeom ------------------------------
(***************************************************************************)
(* Judges recorded answers of the implementation about the geometry and the *)
(* dependencies of task sets against Geometry/WorldOps.  Each line of the    *)
(* trace file is one case; the verdict is the set of violated clauses.       *)
(* The first three letters of a clause are the property it belongs to.       *)
(***************************************************************************)
EXTENDS WorldOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, judged

BoxOf(b) == [rb |-> b.rb, re |-> b.re, wb |-> b.wb, we |-> b.we]

Clauses(X) ==
  LET W == X.world
      NB == Len(W.blocks)
      anc == AncestorsOf(W)
      neighbours == UNION { Up(W, b) \cup Down(W, b) : b \in Blocks(W) }
      rootIdx == UNION { Range(X.roots[t]) : t \in Tasks(W) }
      qIdx == UNION { Range(X.queries[q].res) : q \in DOMAIN X.queries }
      handed == Range(X.handed)
      tb(t) == BlocksOfTask(W, t)
      own(b, S) == { u \in S : u > 0 /\ TaskOf(W, u) = TaskOf(W, b) }
  IN
  \* tiling
     { "C01.blocks"   : t \in { t \in Tasks(W) :
                { BoxOf(W.blocks[b]) : b \in tb(t) } # BlocksOf(W.tasks[t]) } }
  \cup { "C01.count"  : t \in { t \in Tasks(W) :
                X.n[t] # NumBlocks(W.tasks[t]) \/ Cardinality(tb(t)) # NumBlocks(W.tasks[t]) } }
  \cup { "C01.exception" : e \in Range(X.exc) \cap {"enumerate", "num_blocks", "build"} }
  \* graphs of single tasks that were built from the total write region
  \cup (IF \E t \in DOMAIN X.solo : LET G == X.solo[t] IN
            \/ G.n # Cardinality(tb(t)) \/ Len(G.deps) # G.n
            \/ { G.deps[i].b : i \in DOMAIN G.deps } # tb(t)
        THEN {"C01.solo"} ELSE {})
  \cup (IF \E t \in DOMAIN X.solo : LET G == X.solo[t] IN
            \/ \E i \in DOMAIN G.deps : G.deps[i].b > 0 /\ Range(G.deps[i].up) # own(G.deps[i].b, Up(W, G.deps[i].b))
            \/ \E i \in DOMAIN G.down : G.down[i].b > 0 /\ Range(G.down[i].s) # own(G.down[i].b, Down(W, G.down[i].b))
            \/ Range(G.roots) # { b \in tb(t) : own(b, Up(W, b)) = {} }
            \/ Len(G.roots) # Cardinality(Range(G.roots)) \/ G.nroots # Len(G.roots)
        THEN {"C05.solo"} ELSE {})
  \cup { "C01.exception" : e \in Range(X.exc) \cap {"solo"} }
  \* identity
  \cup (IF
            \/ W.dup > 0
                \/ \E b, c \in Blocks(W) : b # c /\ W.blocks[b].t = W.blocks[c].t
                                           /\ W.blocks[b].id = W.blocks[c].id
        THEN {"C02.unique"} ELSE {})
  \cup (IF \E i \in neighbours \cup rootIdx \cup qIdx \cup handed : i = -2 \/ i = -1
        THEN {"C02.route"} ELSE {})
  \cup (IF \E x \in Range(X.eqs) : \/ x.eq # (x.a = x.b)
                                   \/ x.any # (x.a = x.b)
                                   \/ x.one # (x.a = x.b) THEN {"C02.equal"} ELSE {})
  \cup (IF X.ids2 # [b \in 1..NB |-> W.blocks[b].id] THEN {"C02.stable"} ELSE {})
  \cup (IF Range(X.exc) \cap {"build", "enumerate", "up", "down", "roots", "query", "ids2", "handed", "equality"} # {}
        THEN {"C02.exception"} ELSE {})
  \* conflicts (static part)
  \cup (IF \E b \in Blocks(W) : \E c \in ConflictsWith(W, b) : c \notin anc[b] /\ b \notin anc[c]
        THEN {"C03.ordered"} ELSE {})
  \cup (IF \E b \in Blocks(W) : ~W.tasks[TaskOf(W, b)].conf
              /\ \E u \in Up(W, b) : u > 0 /\ TaskOf(W, u) = TaskOf(W, b)
        THEN {"C03.independent"} ELSE {})
  \cup (IF Range(X.exc) \cap {"build", "up"} # {} THEN {"C03.exception"} ELSE {})
  \* inter-task dependencies (static part)
  \cup (IF \E b \in Blocks(W) : ~(ReadsFrom(W, b) \subseteq Up(W, b))
        THEN {"C04.depends"} ELSE {})
  \cup (IF Range(X.exc) \cap {"build", "up"} # {} THEN {"C04.exception"} ELSE {})
  \* coherence
  \cup (IF \E b \in Blocks(W), c \in Blocks(W) : (b \in Up(W, c)) # (c \in Down(W, b))
        THEN {"C05.mutual"} ELSE {})
  \cup (IF \E b \in Blocks(W) : b \in anc[b] THEN {"C05.acyclic"} ELSE {})
  \cup (IF \E i \in neighbours : i < 1 \/ i > NB THEN {"C05.real"} ELSE {})
  \cup (IF \E b \in Blocks(W) :
            { u \in Up(W, b) : u > 0 /\ TaskOf(W, u) # TaskOf(W, b) } # ReadsFrom(W, b)
        THEN {"C05.exact"} ELSE {})
  \cup (IF \E t \in Tasks(W) :
            \/ Range(X.roots[t]) # { b \in tb(t) : Up(W, b) = {} }
            \/ Len(X.roots[t]) # Cardinality(Range(X.roots[t]))
            \/ X.nroots[t] # Len(X.roots[t])
        THEN {"C05.roots"} ELSE {})
  \cup (IF Range(X.exc) \cap {"build", "up", "down", "roots"} # {} THEN {"C05.exception"} ELSE {})
  \* region queries
  \cup (IF \E q \in DOMAIN X.queries :
            LET Q == X.queries[q]
                want == { b \in tb(Q.t) :
                    IF Q.read THEN Overlap(W.blocks[b].rb, W.blocks[b].re, Q.b, Q.e)
                    ELSE Overlap(W.blocks[b].wb, W.blocks[b].we, Q.b, Q.e) }
            IN  Range(Q.res) # want \/ Len(Q.res) # Cardinality(Range(Q.res))
        THEN {"C06.exact"} ELSE {})
  \cup (IF Range(X.exc) \cap {"query", "build"} # {} THEN {"C06.exception"} ELSE {})

Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged
        /\ judged' = TRUE
        /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
