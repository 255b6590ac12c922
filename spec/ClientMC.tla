------------------------------- MODULE ClientMC -------------------------------
(***************************************************************************)
(* A client that behaves as Client demands, together with a server that      *)
(* accounts for blocks: what the server needs (every block it gave out comes *)
(* back, once, with the right status, before the next request) follows.      *)
(* Complete scripts of what server and user do are printed for replay.       *)
(***************************************************************************)
EXTENDS Client, TLC, Json
CONSTANTS MaxBlocks, GEN
VARIABLES c, n, given, back, script
vars == <<c, n, given, back, script>>

Init == c = ClientInit /\ n = 0 /\ given = {} /\ back = <<>> /\ script = <<>>
Live == c.up /\ c.ans # "shutdown"
S(a, u) == script' = IF GEN THEN Append(script, [a |-> a, u |-> u]) ELSE <<>>

Ask == /\ Live /\ AskClauses(c, TRUE) = {} /\ c' = AfterAsk(c)
       /\ UNCHANGED <<n, given, back, script>>
Give == /\ c.ph = "asked" /\ n < MaxBlocks /\ n' = n + 1 /\ given' = given \cup {n + 1}
        /\ c' = AfterAnswer(c, "block", n + 1) /\ UNCHANGED <<back, script>>
Deny(k) == /\ c.ph = "asked" /\ c' = AfterAnswer(c, k, 0) /\ UNCHANGED <<n, given, back>>
           /\ S(k, "")
Yield == /\ c.ph = "answered" /\ YieldClauses(c, c.b) = {} /\ c' = AfterYield(c)
         /\ UNCHANGED <<n, given, back, script>>
User(u) == /\ c.ph = "user" /\ c.b # 0 /\ c' = AfterUser(c, u) /\ S("block", u)
           /\ UNCHANGED <<n, given, back>>
UserNone == /\ c.ph = "user" /\ c.b = 0 /\ c' = AfterUser(c, "ok") /\ UNCHANGED <<n, given, back, script>>
Report == /\ c.ph = "done" /\ ReportClauses(c, c.b, TRUE) = {} /\ c' = AfterReport(c)
          /\ UNCHANGED <<n, given, back, script>>
Return == /\ c.ph = "done" /\ c.b # 0 /\ (c.u \in Raises => c.nf = 1)
          /\ ReturnClauses(c, c.b, StatusOf(c.u)) = {}
          /\ c' = AfterReturn(c) /\ back' = Append(back, <<c.b, StatusOf(c.u)>>)
          /\ UNCHANGED <<n, given, script>>
Leave == /\ c.ph = "done" /\ LeaveClauses(c, "") = {} /\ c' = AfterLeave(c)
         /\ UNCHANGED <<n, given, back, script>>
Next == Ask \/ Give \/ (\E k \in {"shutdown", "closed"} : Deny(k)) \/ Yield
        \/ (\E u \in Outcomes : User(u)) \/ UserNone \/ Report \/ Return \/ Leave
Spec == Init /\ [][Next]_vars

Once == \A i, j \in DOMAIN back : back[i][1] = back[j][1] => i = j
BeforeNext == c.ph \in {"idle", "asked"} => { back[i][1] : i \in DOMAIN back } = given
OneOut == Cardinality(given) - Len(back) \in {0, 1}
End == c.ph = "idle" /\ ~Live
Emit == (GEN /\ End) => PrintT(<<"GEN", ToJson([m |-> script])>>)
=============================================================================
