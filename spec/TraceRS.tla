------------------------------- MODULE TraceRS -------------------------------
(* Judges recorded histories of the ready surface of arbitrary DAGs.  X.up[n]  *)
(* lists the nodes n depends on; X.ev the marks with what was returned.        *)
EXTENDS ReadySurface, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, h, viol

X == Traces[tid]
Rng(s) == { s[i] : i \in DOMAIN s }
Nodes == DOMAIN X.up
UpF == [n \in Nodes |-> Rng(X.up[n])]
DownF == [n \in Nodes |-> { m \in Nodes : n \in Rng(X.up[m]) }]

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ h = AbsInit /\ viol = {}

Step(e) ==
    IF e.exc THEN {"C23.exception"}
    ELSE IF e.n \notin AbsMarkable(UpF, h) THEN {"C23.harness"}
    ELSE IF e.ok
    THEN LET want == AbsFreed(DownF, UpF, h, e.n)
         IN  (IF Rng(e.ret) # want THEN {"C23.freed"} ELSE {})
        \cup (IF Len(e.ret) # Cardinality(Rng(e.ret)) THEN {"C23.once"} ELSE {})
    ELSE LET want == AbsOrphaned(DownF, h, e.n)
         IN  (IF Rng(e.ret) # want THEN {"C23.orphaned"} ELSE {})
        \cup (IF Len(e.ret) # Cardinality(Rng(e.ret)) THEN {"C23.once"} ELSE {})

EndClauses ==   \* the driver marks everything the code freed, until nothing is left
    IF \E n \in Nodes : n \notin h.ok \cup h.bad \cup h.orph THEN {"C23.unsettled"} ELSE {}

Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A p \in viol : p[1] # c } }

Next == /\ l <= Len(X.ev) + 1
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ IF l = Len(X.ev) + 1
           THEN /\ viol' = Note(IF viol = {} THEN EndClauses ELSE {})
                /\ UNCHANGED h
                /\ PrintT(<<"VERDICT", tid, viol'>>)
           ELSE LET e == X.ev[l]
                IN  /\ viol' = Note(Step(e))
                    /\ h' = IF e.exc \/ e.n \notin AbsMarkable(UpF, h) THEN h
                            ELSE IF e.ok THEN AbsSuccess(h, e.n)
                            ELSE AbsFailure(DownF, h, e.n)
Spec == Init /\ [][Next]_<<tid, l, h, viol>>
=============================================================================
