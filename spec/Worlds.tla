-------------------------------- MODULE Worlds --------------------------------
(* Building small worlds for model checking: with the implementation's level  *)
(* algorithm (LevelGraph) and its region queries.                             *)
EXTENDS WorldOps, LevelGraph, TLC
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Mk(tot, w, a, c, f, k, r, u) ==
    [beg |-> <<0>>, tot |-> <<tot>>, w |-> <<w>>, c0 |-> <<a>>, c1 |-> <<c>>,
     fit |-> f, conf |-> k, maxr |-> r, ups |-> u, nw |-> 1]

(* a world from a sequence of tasks *)
WorldOf(ts) ==
    LET cellSeq == TLCEval([t \in DOMAIN ts |-> SeqOf(Cells(ts[t]))])
        RECURSIVE Flat(_)
        Flat(t) == IF t = 0 THEN <<>>
                   ELSE Flat(t - 1) \o [k \in DOMAIN cellSeq[t] |-> <<t, cellSeq[t][k]>>]
        all == TLCEval(Flat(Len(ts)))
        num(t, i) == CHOOSE n \in DOMAIN all : all[n] = <<t, i>>
        blk(n) == BlockAt(ts[all[n][1]], all[n][2])
        ups(n) == LET t == all[n][1]
                      i == all[n][2]
                  IN  { num(t, j) : j \in LevelUpstream(ts[t], i) }
                      \cup UNION { { num(u, j) : j \in Query(ts[u], blk(n).rb, blk(n).re, FALSE) }
                                   : u \in Range(ts[t].ups) }
        up == TLCEval([n \in DOMAIN all |-> TLCEval(ups(n))])
    IN  [tasks |-> ts,
         blocks |-> [n \in DOMAIN all |-> [t |-> all[n][1], id |-> n] @@ blk(n)],
         up |-> [n \in DOMAIN all |-> SeqOf(up[n])],
         down |-> [n \in DOMAIN all |-> SeqOf({ m \in DOMAIN all : n \in up[m] })]]

(* with what geometry alone demands *)
Full(w) == w @@ [conf  |-> TLCEval([b \in Blocks(w) |-> ConflictsWith(w, b)]),
                 reads |-> TLCEval([b \in Blocks(w) |-> ReadsFrom(w, b)])]
=============================================================================
