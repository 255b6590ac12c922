-------------------------------- MODULE Logs ---------------------------------
(***************************************************************************)
(* The output of worker processes.  A worker w of task t has two streams     *)
(* ("out" and "err"); what it writes there through its Python stream, its     *)
(* file descriptor or a child process belongs into one file of its own       *)
(* (or, without a log directory, to the output of the server).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Streams == {"out", "err"}

(* what writer (w, s) wrote, in order; ws is a sequence of [w, s, n] *)
Written(ws, w, s) ==
    LET mine == SelectSeq(ws, LAMBDA e : e.w = w /\ e.s = s)
    IN  [i \in DOMAIN mine |-> mine[i].n]

RangeOf(q) == { q[i] : i \in DOMAIN q }
Only(q, S) == SelectSeq(q, LAMBDA x : x \in S)

(* files: sequence of [w, s, lines], w = 0 for a file of nobody;              *)
(* own: lines in the server's own output streams, [out |-> .., err |-> ..]    *)
LogClauses(ws, files, own, logged, workers) ==
    IF logged
    THEN (IF \E w \in workers, s \in Streams :
               Cardinality({ i \in DOMAIN files : files[i].w = w /\ files[i].s = s }) # 1
          THEN {"C25.file"} ELSE {})
    \cup (IF \E i \in DOMAIN files : files[i].w \in workers
               /\ ~(RangeOf(Written(ws, files[i].w, files[i].s)) \subseteq RangeOf(files[i].lines))
          THEN {"C25.lost"} ELSE {})
    \cup (IF \E i \in DOMAIN files : files[i].w \in workers
               /\ LET mine == RangeOf(Written(ws, files[i].w, files[i].s))
                  IN  /\ mine \subseteq RangeOf(files[i].lines)
                      /\ Only(files[i].lines, mine) # Written(ws, files[i].w, files[i].s)
          THEN {"C25.order"} ELSE {})
    \cup (IF \E i \in DOMAIN files :
               ~(RangeOf(files[i].lines) \subseteq
                   (IF files[i].w \in workers THEN RangeOf(Written(ws, files[i].w, files[i].s)) ELSE {}))
          THEN {"C25.mixed"} ELSE {})
    \cup (IF own.out # <<>> \/ own.err # <<>> THEN {"C25.leak"} ELSE {})
    ELSE (IF \E i \in DOMAIN files : files[i].lines # <<>> THEN {"C25.unasked"} ELSE {})
    \cup (IF \E w \in workers, s \in Streams :
               Only(IF s = "out" THEN own.out ELSE own.err, RangeOf(Written(ws, w, s))) # Written(ws, w, s)
          THEN {"C25.hidden"} ELSE {})
=============================================================================
