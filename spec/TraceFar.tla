------------------------------ MODULE TraceFar ------------------------------
(***************************************************************************)
(* Judges recorded answers about huge tasks.  All blocks can not be listed   *)
(* there; numbers of blocks are compared modulo primes, and neighbourhoods   *)
(* of far blocks with the cells of the window around them.                   *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, judged

Range(s) == { s[i] : i \in DOMAIN s }
BoxOf(b) == [rb |-> b.rb, re |-> b.re, wb |-> b.wb, we |-> b.we]

NumMod(T, p) ==
    LET RECURSIVE P(_)
        P(d) == IF d = 0 THEN 1 % p ELSE ((CellCount(T, d) % p) * P(d - 1)) % p
    IN  P(Len(T.w))

IsBlock(T, b) ==
    LET i == [d \in Dims(T) |-> (b.wb[d] - T.beg[d]) \div T.w[d]]
    IN  /\ \A d \in Dims(T) : i[d] \in 0..(CellCount(T, d) - 1)
        /\ BoxOf(b) = BlockAt(T, i)

RECURSIVE Box(_, _, _)
Box(lo, hi, d) ==
    IF d = 0 THEN { <<>> }
    ELSE { Append(s, i) : s \in Box(lo, hi, d - 1), i \in lo[d]..hi[d] }

(* all blocks of T whose write (read) region overlaps <<b, e>>: candidates    *)
(* are the cells near the region                                              *)
Window(T, b, e, read) ==
    LET c(x) == IF read THEN x ELSE [d \in Dims(T) |-> 0]
        lo == [d \in Dims(T) |-> Max(0, (b[d] - c(T.c1)[d] - T.beg[d]) \div T.w[d] - 1)]
        hi == [d \in Dims(T) |-> Min(CellCount(T, d) - 1, (e[d] + c(T.c0)[d] - T.beg[d]) \div T.w[d] + 1)]
    IN  { x \in { BlockAt(T, i) : i \in Box(lo, hi, Len(T.w)) } :
            IF read THEN Overlap(x.rb, x.re, b, e) ELSE Overlap(x.wb, x.we, b, e) }

Clauses(X) ==
  LET N == X.nodes
      T(b) == X.tasks[N[b].t]
      boxes(S) == { BoxOf(N[b]) : b \in S }
      mine(u, b) == N[u].t = N[b].t
      upOf(b) == Range((CHOOSE r \in Range(X.up) : r.b = b).s)
      downOf(b) == Range((CHOOSE r \in Range(X.down) : r.b = b).s)
      hasUp == { r.b : r \in Range(X.up) }
      hasDown == { r.b : r \in Range(X.down) }
      known == \A b \in DOMAIN N : N[b].t > 0 /\ N[b].same
      upTasks(b) == Range(T(b).ups)
      downTasks(b) == { t \in DOMAIN X.tasks : N[b].t \in Range(X.tasks[t].ups) }
  IN
     (IF \E t \in DOMAIN X.tasks : \E k \in DOMAIN X.primes :
            X.nres[t][k] # NumMod(X.tasks[t], X.primes[k])
      THEN {"C01.far_count"} ELSE {})
  \cup (IF \E t \in DOMAIN X.tasks : ~X.tasks[t].conf /\ X.tasks[t].ups = <<>> /\ \E k \in DOMAIN X.primes :
            X.rres[t][k] # NumMod(X.tasks[t], X.primes[k])
      THEN {"C05.far_roots"} ELSE {})
  \cup (IF ~known THEN {"C02.far_route"} ELSE {})
  \cup (IF \E b \in DOMAIN N : N[b].t > 0 /\ ~IsBlock(T(b), N[b]) THEN {"C01.far_blocks"} ELSE {})
  \cup (IF \E b, c \in DOMAIN N : N[b].t = N[c].t /\ b # c
            /\ (N[b].id = N[c].id \/ N[b].wb = N[c].wb)
        THEN {"C02.far_unique"} ELSE {})
  \cup (IF \E q \in Range(X.queries) :
            \/ boxes(Range(q.res)) # Window(X.tasks[q.t], q.b, q.e, q.read)
            \/ \E b \in Range(q.res) : N[b].t # q.t
            \/ Len(q.res) # Cardinality(Range(q.res))
        THEN {"C06.far_exact"} ELSE {})
  \cup (IF ~known THEN {} ELSE
        (IF \E b \in hasUp : \E t \in upTasks(b) :
               ~(Window(X.tasks[t], N[b].rb, N[b].re, FALSE) \subseteq boxes({ u \in upOf(b) : N[u].t = t }))
         THEN {"C04.far_depends"} ELSE {})
   \cup (IF \/ \E b \in hasUp :
                \/ \E t \in upTasks(b) :
                   boxes({ u \in upOf(b) : N[u].t = t }) # Window(X.tasks[t], N[b].rb, N[b].re, FALSE)
                \/ \E u \in upOf(b) : N[u].t # N[b].t /\ N[u].t \notin upTasks(b)
            \/ \E b \in hasDown :
                \/ \E t \in downTasks(b) :
                   boxes({ u \in downOf(b) : N[u].t = t }) # Window(X.tasks[t], N[b].wb, N[b].we, TRUE)
                \/ \E u \in downOf(b) : N[u].t # N[b].t /\ N[u].t \notin downTasks(b)
         THEN {"C05.far_exact"} ELSE {})
   \cup (IF \E b \in hasUp, c \in hasDown : (c \in upOf(b)) # (b \in downOf(c))
         THEN {"C05.far_mutual"} ELSE {})
   \cup (IF \E o \in Range(X.order) :
              T(o.b).conf /\ o.full
              /\ ~((Window(T(o.b), N[o.b].rb, N[o.b].re, FALSE)
                    \cup Window(T(o.b), N[o.b].wb, N[o.b].we, TRUE)) \ {BoxOf(N[o.b])}
                   \subseteq boxes(Range(o.anc) \cup Range(o.dec)))
         THEN {"C03.far_ordered"} ELSE {})
   \cup (IF \E b \in hasUp : ~T(b).conf /\ \E u \in upOf(b) : N[u].t = N[b].t
         THEN {"C03.far_independent"} ELSE {}))
  \cup (IF \E m \in Range(X.mass) : m.count # NumBlocks(X.tasks[1]) \/ m.boxes # NumBlocks(X.tasks[1])
        THEN {"C01.mass"} ELSE {})
  \cup (IF \E m \in Range(X.mass) : m.ids # m.boxes THEN {"C02.mass"} ELSE {})
  \cup (IF "num_blocks" \in Range(X.exc) THEN {"C01.far_exception"} ELSE {})
  \cup (IF Range(X.exc) \ {"num_blocks"} # {} THEN {"C02.far_exception"} ELSE {})
  \cup (IF "query" \in Range(X.exc) THEN {"C06.far_exception"} ELSE {})
  \cup (IF Range(X.exc) \cap {"up", "down", "roots"} # {}
        THEN {"C03.far_exception", "C04.far_exception", "C05.far_exception"} ELSE {})

Init == tid \in 1..Len(Traces) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED tid
        /\ PrintT(<<"VERDICT", tid, Clauses(Traces[tid])>>)
Spec == Init /\ [][Next]_<<tid, judged>>
=============================================================================
