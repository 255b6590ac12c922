------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The geometry of block-wise processing: which blocks a task consists of, *)
(* when two of them conflict, and which blocks a block reads from.         *)
(*                                                                         *)
(* A task T is a record                                                    *)
(*   beg  total write region: begin, per dimension                         *)
(*   tot  total write region: shape                                        *)
(*   w    shape of the write region of a block                             *)
(*   c0   lower context (write begin - read begin)                         *)
(*   c1   upper context (read end - write end)                             *)
(*   fit  "valid", "overhang" or "shrink"                                  *)
(*   conf whether reads and writes of the task conflict                    *)
(*   ups  set (or sequence) of upstream tasks (not used in this module)    *)
(*                                                                         *)
(* A box is a pair of sequences <<begin, end>> (end exclusive).  This      *)
(* module is purely declarative; LevelGraph.tla describes the algorithm    *)
(* the implementation uses, and is checked against this module.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)

Dims(T) == 1..Len(T.w)

(* Number of grid cells per dimension.                                     *)
CellCount(T, d) ==
    LET tot == Max(0, T.tot[d])
    IN  IF T.fit = "valid" THEN tot \div T.w[d] ELSE CeilDiv(tot, T.w[d])

(* All cell indices of a task (functions from dimensions to Nat); a product *)
(* of intervals, written recursively so that TLC enumerates only members.   *)
RECURSIVE ProdUpTo(_, _)
ProdUpTo(counts, d) ==
    IF d = 0 THEN { <<>> }
    ELSE { Append(s, i) : s \in ProdUpTo(counts, d - 1), i \in 0..(counts[d] - 1) }

Cells(T) == ProdUpTo([d \in Dims(T) |-> CellCount(T, d)], Len(T.w))

NumBlocks(T) ==
    LET RECURSIVE P(_)
        P(d) == IF d = 0 THEN 1 ELSE CellCount(T, d) * P(d - 1)
    IN  P(Len(T.w))

(* Write and read region of the block at a cell.                           *)
WBegin(T, i) == [d \in Dims(T) |-> T.beg[d] + i[d] * T.w[d]]
WEnd(T, i) ==
    [d \in Dims(T) |->
        LET e == T.beg[d] + (i[d] + 1) * T.w[d]
        IN  IF T.fit = "shrink" THEN Min(e, T.beg[d] + T.tot[d]) ELSE e]
RBegin(T, i) == [d \in Dims(T) |-> WBegin(T, i)[d] - T.c0[d]]
REnd(T, i)   == [d \in Dims(T) |-> WEnd(T, i)[d] + T.c1[d]]

BlockAt(T, i) == [rb |-> RBegin(T, i), re |-> REnd(T, i),
                  wb |-> WBegin(T, i), we |-> WEnd(T, i)]

BlocksOf(T) == { BlockAt(T, i) : i \in Cells(T) }

(* Half-open boxes overlap iff they do in all dimensions (empty boxes       *)
(* overlap nothing).                                                        *)
Overlap(b1, e1, b2, e2) ==
    \A d \in 1..Len(b1) : Max(b1[d], b2[d]) < Min(e1[d], e2[d])

WritesInto(b, c) == Overlap(b.wb, b.we, c.rb, c.re)   \* b writes what c reads
Conflicting(b, c) == WritesInto(b, c) \/ WritesInto(c, b)

(* Declarative sanity of the tiling itself, checked by GeometryMC.          *)
CellsOfRegion(bx, ex) ==   \* all unit cells of a box (small boxes only)
    LET n == [d \in 1..Len(bx) |-> Max(0, ex[d] - bx[d])]
    IN  { [d \in 1..Len(bx) |-> bx[d] + p[d]] : p \in ProdUpTo(n, Len(bx)) }

TotalEnd(T) == [d \in Dims(T) |-> T.beg[d] + Max(0, T.tot[d])]

TilingOK(T) ==
    LET B == BlocksOf(T)
        cov == UNION { CellsOfRegion(b.wb, b.we) : b \in B }
        tot == CellsOfRegion(T.beg, TotalEnd(T))
    IN  /\ Cardinality(B) = NumBlocks(T)
        /\ \A b, c \in B : b # c => ~Overlap(b.wb, b.we, c.wb, c.we)
        /\ T.fit = "shrink" => cov = tot
        /\ T.fit = "valid" => cov \subseteq tot
        /\ T.fit = "overhang" => tot \subseteq cov
        /\ \A b \in B : CellsOfRegion(b.wb, b.we) \cap tot # {}
=============================================================================
