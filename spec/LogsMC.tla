------------------------------- MODULE LogsMC --------------------------------
(***************************************************************************)
(* How a worker's output is redirected: its Python stream is a new file       *)
(* object with a buffer; descriptor 1 (or 2) is made a duplicate of that      *)
(* file's descriptor, so that both, and the child processes that inherit it,  *)
(* share one offset.  A worker writes through any of them and flushes its     *)
(* stream after every line; it may end at any time.  (With two separate       *)
(* descriptors, Shared = FALSE, writers overwrite each other's lines.)        *)
(***************************************************************************)
EXTENDS Logs, TLC
CONSTANTS NW, MaxWrites, Shared
VARIABLES ws,      \* everything that was written (as Logs!Written wants it)
          file,    \* [w, s] -> sequence of lines (0: hole)
          off,     \* [w, s, via] -> offset of the descriptor
          buf,     \* [w, s] -> line in the buffer of the Python stream (0: none)
          live
vars == <<ws, file, off, buf, live>>
Ws == 1..NW
Vias == {"py", "fd"}
Init == /\ ws = <<>> /\ live = Ws
        /\ file = [x \in Ws \X Streams |-> <<>>]
        /\ off = [x \in Ws \X Streams \X Vias |-> 0]
        /\ buf = [x \in Ws \X Streams |-> 0]
Extend(q, n) == [i \in 1..(IF Len(q) < n THEN n ELSE Len(q)) |-> IF i <= Len(q) THEN q[i] ELSE 0]
Put(w, s, via, n) ==
    LET o == off[<<w, s, via>>] + 1
    IN  /\ file' = [file EXCEPT ![<<w, s>>] = [Extend(@, o) EXCEPT ![o] = n]]
        /\ off' = [x \in DOMAIN off |-> IF x = <<w, s, via>> \/ (Shared /\ x[1] = w /\ x[2] = s) THEN o ELSE off[x]]
        /\ ws' = Append(ws, [w |-> w, s |-> s, n |-> n])
Quiet(w) == \A s \in Streams : buf[<<w, s>>] = 0
Next == \E w \in live, s \in Streams :
          \/ /\ Quiet(w) /\ Len(ws) < MaxWrites /\ Put(w, s, "fd", Len(ws) + 1)
             /\ UNCHANGED <<buf, live>>
          \/ /\ Quiet(w) /\ Len(ws) + Cardinality({ x \in DOMAIN buf : buf[x] # 0 }) < MaxWrites
             /\ buf' = [buf EXCEPT ![<<w, s>>] = 1] /\ UNCHANGED <<ws, file, off, live>>
          \/ /\ buf[<<w, s>>] # 0 /\ Put(w, s, "py", Len(ws) + 1)
             /\ buf' = [buf EXCEPT ![<<w, s>>] = 0] /\ UNCHANGED live
          \/ /\ live' = live \ {w} /\ UNCHANGED <<ws, file, off, buf>>
Spec == Init /\ [][Next]_vars
(* the requirement of Logs, in every state *)
Kept == LogClauses(ws, [i \in 1..(2 * NW) |->
                          LET w == ((i - 1) \div 2) + 1
                              s == IF i % 2 = 0 THEN "out" ELSE "err"
                          IN  [w |-> w, s |-> s, lines |-> file[<<w, s>>]]],
                   [out |-> <<>>, err |-> <<>>], TRUE, Ws) = {}
=============================================================================
