----------------------------- MODULE TraceSerial -----------------------------
(* Judges recorded runs of the real serial server (harness/finals.py).        *)
EXTENDS Serial, Summary, Observers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, p, viol
X == Traces[tid]
W == X.world
R(v, pp) == [v |-> v, p |-> pp]

Acq(e) ==
    LET sk == SkipAll(W, p.s, e.chk)
        p1 == [p EXCEPT !.s = sk.s]
    IN  IF e.b < 0 THEN R({"C02.handed", "C08.unknown_block"}, p1)
        ELSE IF e.b = 0 THEN R(sk.v \cup Between(W, p) \cup NoneClauses(W, sk.s, e.t), p1)
        ELSE R(sk.v \cup Between(W, p) \cup AcquireClauses(W, sk.s, e.b)
                    \cup (IF SaysDone(X.chk, sk.s, e.b) THEN {"C12.processed"} ELSE {}),
               AfterSerialAcquire(W, p1, e.b))

Notes == LET ns == SelectSeq(X.events, LAMBDA e : e.op = "note")
         IN  [i \in DOMAIN ns |-> <<ns[i].k, ns[i].t>>]
Step(e) ==
    CASE e.op = "acq" -> Acq(e)
      [] e.op = "proc" -> IF e.b <= 0 THEN R({"C02.handed", "C18.processed"}, p)
                          ELSE R(ProcessClauses(W, p, e.b)
                                 \cup (IF SaysDone(X.chk, p.s, e.b) THEN {"C12.processed"} ELSE {}),
                                 AfterProcess(p, e.b, e.ok, e.k = "raise"))
      [] e.op = "rel" -> IF e.b <= 0 THEN R({"C02.sent", "C18.released"}, p)
                         ELSE R(SerialReleaseClauses(W, p, e.b, e.ok), AfterSerialRelease(W, p, e.b, e.ok, e.post))
      [] e.op = "note" -> R(SerialNoteClauses(W, p, e.k, e.t, e.cnt), AfterSerialNote(p, e.k, e.t))
      [] e.op = "end" -> R(SerialEndClauses(W, p, X.exc, e.cnt) \cup ObserverClauses(Notes, X.wit)
                           \cup (IF X.mon THEN SummaryClauses(W, p.s, p.started \cup p.done, <<>>, X.nsum, X.sum)
                                 ELSE {})
                           \cup (IF X.mon /\ X.exc # "" /\ ~p.raised THEN {"C24.exception"} ELSE {}), p)
      [] OTHER -> R({"C18.harness"}, p)

Ev == X.events
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {}
        /\ p = SerialInit(Traces[tid].world)
Note(v) == viol \cup { <<c, l>> : c \in { c \in v : \A x \in viol : x[1] # c } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ p' = r.p
               /\ viol' = Note(r.v)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, p, viol>>
=============================================================================
