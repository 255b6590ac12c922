---------------------------- MODULE TraceContext -----------------------------
(***************************************************************************)
(* Judges recorded use of contexts.  Several contexts are alive at a time;   *)
(* m[x] is what context x contains, as a set of <<key, value>> pairs.        *)
(*   new(x, kv)       created with these entries (logdir included)           *)
(*   set(x, k, v, ok) an entry was set (ok) or that was refused              *)
(*   copy(x, y)       y is a copy of x                                       *)
(*   env(x, y)        x was written to the environment and y read from it    *)
(*   read(x, kv, absent, ok)  what lookups of all known keys gave, and keys  *)
(*                    for which they gave nothing                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, m, viol
X == Traces[tid]
Ev == X.events
R(v, mm) == [v |-> v, m |-> mm]
SetOf(q) == { q[i] : i \in DOMAIN q }
Put(S, k, v) == { e \in S : e[1] # k } \cup {<<k, v>>}
(* entries that are written to the environment and read back replace defaults *)
Step(e) ==
    CASE e.op = "new" -> R({}, (e.x :> SetOf(e.kv)) @@ m)
      [] e.op = "set" -> R({}, IF e.ok THEN (e.x :> Put(m[e.x], e.k, e.v)) @@ m ELSE m)
      [] e.op = "copy" -> R({}, (e.y :> m[e.x]) @@ m)
      [] e.op = "env" -> R(IF e.ok THEN {} ELSE {"C21.unreadable"},
                           IF e.ok THEN (e.y :> m[e.x]) @@ m ELSE m)
      [] e.op = "read" -> R((IF ~e.ok THEN {"C21.lookup"} ELSE {})
                            \cup (IF SetOf(e.kv) # m[e.x] THEN {"C21.changed"} ELSE {}), m)
      [] e.op = "logs" ->   \* where the worker wrote its logs
            R(IF e.ok THEN {} ELSE {"C21.logs"}, m)
      [] OTHER -> R({"C21.harness"}, m)
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ viol = {} /\ m = <<>>
Note(v) == viol \cup { <<x, l>> : x \in { x \in v : \A y \in viol : y[1] # x } }
Next == /\ l <= Len(Ev)
        /\ LET r == Step(Ev[l])
           IN  /\ m' = r.m
               /\ viol' = Note(r.v)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ l' > Len(Ev) => PrintT(<<"VERDICT", tid, viol'>>)
Spec == Init /\ [][Next]_<<tid, l, m, viol>>
=============================================================================
