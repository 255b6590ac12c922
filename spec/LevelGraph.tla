----------------------------- MODULE LevelGraph -----------------------------
(***************************************************************************)
(* The algorithm of the implementation: blocks of a conflicting task are    *)
(* partitioned into levels; a block depends on neighbouring blocks of the   *)
(* previous level only.  Dependencies between tasks are found by grid       *)
(* arithmetic (region queries).  GeometryMC checks, for all small tasks,    *)
(* that this satisfies the declarative requirements of Geometry.            *)
(***************************************************************************)
EXTENDS Geometry, TLC

CoverShape(T, d) == CellCount(T, d) * T.w[d]

(* stride between blocks of one level *)
Stride(T) ==
    [d \in Dims(T) |->
        IF ~T.conf THEN T.w[d]
        ELSE LET m == Max(T.c0[d], T.c1[d]) + T.w[d]
                 s == ((m - 1) \div T.w[d] + 1) * T.w[d]
             IN  Min(s, CoverShape(T, d))]

(* Level offsets in order: product of ranges, in reverse lexicographic order. *)
RECURSIVE ProdSeq(_, _)
ProdSeq(ranges, d) ==    \* sequence of all tuples, lexicographically increasing
    IF d = 0 THEN << <<>> >>
    ELSE LET p == ProdSeq(ranges, d - 1)
             r == ranges[d]
             n == Len(r)
         IN  [k \in 1..(Len(p) * n) |->
                Append(p[((k - 1) \div n) + 1], r[((k - 1) % n) + 1])]

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

LevelOffsets(T) ==
    LET st == Stride(T)
        ranges == [d \in Dims(T) |->
                     [k \in 1..CeilDiv(Max(0, st[d]), T.w[d]) |-> (k - 1) * T.w[d]]]
    IN  Reverse(ProdSeq(ranges, Len(T.w)))

(* level of the block at a cell: the index of the matching offset *)
LevelOf(T, i) ==
    LET st == Stride(T)
        lo == LevelOffsets(T)
    IN  CHOOSE l \in 1..Len(lo) :
            \A d \in Dims(T) : lo[l][d] = (i[d] * T.w[d]) % st[d]

ConflictOffsets(T, l) ==
    IF l = 1 \/ ~T.conf THEN {}
    ELSE LET lo == LevelOffsets(T)
             st == Stride(T)
             op == [d \in Dims(T) |-> lo[l - 1][d] - lo[l][d]]
             alt(d) == IF op[d] < 0 THEN {op[d], op[d] + st[d]}
                       ELSE IF op[d] = 0 THEN {0}
                       ELSE {op[d] - st[d], op[d]}
             RECURSIVE Pr(_)
             Pr(d) == IF d = 0 THEN { <<>> }
                      ELSE { Append(s, x) : s \in Pr(d - 1), x \in alt(d) }
         IN  Pr(Len(T.w))

ShiftCell(T, i, off) == [d \in Dims(T) |-> i[d] + (off[d] \div T.w[d])]
NegOff(T, o) == [d \in Dims(T) |-> -o[d]]

LevelUpstream(T, i) ==
    { ShiftCell(T, i, o) : o \in ConflictOffsets(T, LevelOf(T, i)) } \cap Cells(T)

LevelDownstream(T, i) ==
    IF LevelOf(T, i) >= Len(LevelOffsets(T)) THEN {}
    ELSE { ShiftCell(T, i, NegOff(T, o)) : o \in ConflictOffsets(T, LevelOf(T, i) + 1) }
         \cap Cells(T)

(* Region query by grid arithmetic: cells of T that write into (grow = FALSE) *)
(* or read from (grow = TRUE) the box <<b, e>>.                               *)
Query(T, b, e, grow) ==
    LET qb == [d \in Dims(T) |->
                 Max((IF grow THEN b[d] - T.c1[d] ELSE b[d]) - T.beg[d], 0)]
        \* what blocks cover: less than the total for "valid", more for "overhang"
        cov == [d \in Dims(T) |-> IF T.fit = "shrink" THEN Max(0, T.tot[d])
                                  ELSE CoverShape(T, d)]
        qe == [d \in Dims(T) |->
                 Min((IF grow THEN e[d] + T.c0[d] ELSE e[d]) - T.beg[d], cov[d])]
        RECURSIVE Pr(_)
        Pr(d) == IF d = 0 THEN { <<>> }
                 ELSE { Append(s, x) : s \in Pr(d - 1),
                                       x \in (qb[d] \div T.w[d])..(CeilDiv(qe[d], T.w[d]) - 1) }
    IN  IF \E d \in Dims(T) : qb[d] >= qe[d] THEN {} ELSE Pr(Len(T.w))

-----------------------------------------------------------------------------
(* Requirements *)

Ancestors(T, up) ==   \* transitive closure of a function cells -> set of cells
    LET RECURSIVE Cl(_, _)
        Cl(frontier, acc) ==
            IF frontier = {} THEN acc
            ELSE LET nxt == (UNION { up[x] : x \in frontier }) \ acc
                 IN  Cl(nxt, acc \cup nxt)
    IN  [i \in DOMAIN up |-> Cl({i}, {})]

LevelGraphOK(T) ==
    LET C == Cells(T)
        up == [i \in C |-> LevelUpstream(T, i)]
        down == [i \in C |-> LevelDownstream(T, i)]
        anc == Ancestors(T, up)
    IN  /\ \A i \in C : \E l \in 1..Len(LevelOffsets(T)) :
              \A d \in Dims(T) : LevelOffsets(T)[l][d] = (i[d] * T.w[d]) % Stride(T)[d]
        /\ \A i, j \in C : (i \in up[j]) <=> (j \in down[i])        \* mutual
        /\ \A i \in C : i \notin anc[i]                             \* acyclic
        /\ \A i, j \in C :                                          \* safe
              (T.conf /\ i # j /\ Conflicting(BlockAt(T, i), BlockAt(T, j)))
                 => (i \in anc[j] \/ j \in anc[i])
        /\ ~T.conf => \A i \in C : up[i] = {}
        /\ { i \in C : up[i] = {} } = { i \in C : LevelOf(T, i) = 1 }  \* entry points

QueryOK(T, b, e) ==
    /\ Query(T, b, e, FALSE) =
         { i \in Cells(T) : LET k == BlockAt(T, i) IN Overlap(k.wb, k.we, b, e) }
    /\ Query(T, b, e, TRUE) =
         { i \in Cells(T) : LET k == BlockAt(T, i) IN Overlap(k.rb, k.re, b, e) }
=============================================================================
