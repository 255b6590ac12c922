------------------------------- MODULE ServerMC -------------------------------
(***************************************************************************)
(* The design of a distributed run: the event loop of the server, workers    *)
(* that connect, request, process, return and leave, connections that break, *)
(* processes that die, and pools that replace them.  The requirements of     *)
(* module Server (the ones that recorded runs are judged by) are evaluated   *)
(* at every step; bad collects those that the design breaks.                 *)
(*   pc      where the server is in its loop                                 *)
(*   ph      worker -> off, new, idle, wait, hold, gone (exit code 0), dead  *)
(*   hb      worker -> the block it holds                                    *)
(*   up, dn  messages on their way to and from the server                    *)
(*   pend    task -> delayed requests;  slots: task -> workers on the books  *)
(*   reaped  workers whose normal exit was noticed                           *)
(*   lostT   tasks with lost blocks for which a worker might be missing      *)
(*   np      number of processes started; budget: crashes and losses left    *)
(***************************************************************************)
EXTENDS Server, Worlds, TLC, Json
CONSTANTS SIZE, NP, CRASH, DROP, GEN
VARIABLES W, q, pc, ph, hb, up, dn, pend, slots, reaped, lostT, np, crash, drop, bad, chk, hist
vars == <<W, q, pc, ph, hb, up, dn, pend, slots, reaped, lostT, np, crash, drop, bad, chk, hist>>

MkN(n, tot, w, a, c, f, k, r, u) == [Mk(tot, w, a, c, f, k, r, u) EXCEPT !.nw = n]
Worlds1 ==
    CASE SIZE = "tiny" ->
           { << MkN(1, 1, 1, 0, 0, "valid", FALSE, 1, <<>>), MkN(1, 1, 1, 0, 0, "valid", FALSE, 0, <<1>>) >> }
      [] SIZE = "small" ->
           { << MkN(n, 2, 1, 0, 0, "valid", FALSE, 1, <<>>) >> : n \in 1..2 }
      \cup { << MkN(1, 1, 1, 0, 0, "valid", FALSE, 1, <<>>), MkN(1, 1, 1, 0, 0, "valid", FALSE, 0, <<1>>) >> }
      \cup { << MkN(1, 1, 1, 0, 0, "valid", FALSE, 0, <<>>), MkN(1, 1, 1, 0, 0, "valid", FALSE, 1, <<>>) >> }
      [] SIZE = "gen" ->
           { << MkN(n, 3, 1, x[1], x[2], "valid", k, 1, <<>>), MkN(2, 3, 2, 1, 1, "overhang", TRUE, 1, <<1>>) >>
               : n \in 1..3, k \in BOOLEAN, x \in {<<0, 0>>, <<1, 0>>} }
      \cup { << MkN(1, 2, 1, 0, 0, "valid", FALSE, 1, <<>>), MkN(2, 2, 1, 0, 0, "valid", FALSE, 0, <<1>>),
                MkN(1, 1, 1, 0, 0, "valid", FALSE, 2, <<>>), MkN(2, 2, 1, 1, 1, "valid", TRUE, 1, <<2, 3>>) >> }
      [] SIZE = "large" ->
           { << MkN(n, 2, 1, 0, 0, "valid", FALSE, 0, <<>>), MkN(1, 1, 1, 1, 1, "valid", FALSE, r, <<1>>) >>
               : n \in 1..2, r \in 0..1 }
      \cup { << MkN(2, 3, 1, 1, 0, "valid", TRUE, 1, <<>>) >> }
      \cup { << MkN(1, 1, 1, 0, 0, "valid", FALSE, 1, <<>>), MkN(1, 1, 1, 0, 0, "valid", FALSE, 0, <<1>>),
                MkN(1, 1, 1, 0, 0, "valid", FALSE, 0, <<1>>) >> }

P == 1..NP
(* histories, for replay into the real server *)
H(op, w, ok) == hist' = IF GEN THEN Append(hist, [op |-> op, w |-> w, ok |-> ok]) ELSE <<>>
Init == /\ \E ts \in Worlds1 : W = TLCEval(Full(TLCEval(WorldOf(ts))))
        /\ q = [ServerInit(W, NP) EXCEPT !.round = 1]
        /\ pc = "boot" /\ ph = [w \in P |-> "off"] /\ hb = [w \in P |-> 0]
        /\ up = [w \in P |-> <<>>] /\ dn = [w \in P |-> <<>>]
        /\ pend = [t \in Tasks(W) |-> <<>>] /\ slots = [t \in Tasks(W) |-> {}]
        /\ reaped = {} /\ lostT = {} /\ np = 0 /\ crash = CRASH /\ drop = DROP /\ bad = {}
        /\ hist = <<>>
        /\ chk \in { S \in SUBSET Blocks(W) : Cardinality(S) <= 1 }

(* -- the server's part of the state as one value, for composing its steps *)
Z == [q |-> q, pend |-> pend, slots |-> slots, reaped |-> reaped, lostT |-> lostT, np |-> np, bad |-> bad,
      ph |-> ph, dn |-> dn]
Set(z) == /\ q' = z.q /\ pend' = z.pend /\ slots' = z.slots /\ reaped' = z.reaped /\ lostT' = z.lostT
          /\ np' = z.np /\ bad' = z.bad /\ ph' = z.ph /\ dn' = z.dn
Bad(z, S) == [z EXCEPT !.bad = @ \cup S]
Note(z, k, t) == LET v == NoteClauses(W, z.q, k, t, IF t > 0 THEN Counters(W, z.q.s, t) ELSE <<>>)
                 IN  [Bad(z, v) EXCEPT !.q = AfterNote(z.q, k, t, 0, 0)]

RECURSIVE Spawn(_, _, _)
Spawn(z, t, n) ==      \* start n workers of task t
    IF n <= 0 \/ z.np = NP THEN z
    ELSE LET w == z.np + 1
             z1 == Bad(z, SpawnClauses(W, z.q, t, TRUE))
         IN  Spawn([z1 EXCEPT !.np = w, !.q = AfterSpawn(W, z.q, w, t), !.slots[t] = @ \cup {w},
                              !.ph[w] = "new"], t, n - 1)
RECURSIVE RecruitFrom(_, _)
RecruitFrom(z, t) ==
    IF t > Cardinality(Tasks(W)) THEN z
    ELSE IF ReadyOf(W, z.q.s, t) = {} THEN RecruitFrom(z, t + 1)
    ELSE LET z1 == IF t \in z.q.started THEN z
                   ELSE LET y == Note(z, "start", t)
                        IN  [Bad(y, InitClauses(y.q, t, TRUE)) EXCEPT !.q.inits = @ \cup {t}]
         IN  RecruitFrom(Spawn(z1, t, W.tasks[t].nw - Cardinality(z1.slots[t])), t + 1)
Recruit(z) == RecruitFrom(z, 1)

RECURSIVE DoneFrom(_, _)
DoneFrom(z, t) == IF t > Cardinality(Tasks(W)) THEN z
                  ELSE DoneFrom(IF TaskDone(W, z.q.s, t) /\ t \notin z.q.done THEN Note(z, "done", t) ELSE z, t + 1)
CheckDone(z) == DoneFrom(z, 1)

ReleaseIn(z, b, ok) ==
    LET z1 == Bad(z, ReleaseClauses(W, z.q, b, ok))
        z2 == [z1 EXCEPT !.q = AfterServerRelease(W, z.q, b, ok, 1)]
    IN  Recruit(CheckDone(Note(z2, "release", TaskOf(W, b))))

RECURSIVE Skips(_, _)
Skips(s, t) == LET R == ReadyOf(W, s, t) \cap chk
               IN  IF R = {} THEN s ELSE Skips(AfterSkip(W, s, CHOOSE b \in R : TRUE), t)

(* the answer to a request of w, with the block that the scheduler chose (0: none) *)
Offers(t) == LET R == ReadyOf(W, Skips(q.s, t), t) IN IF R = {} THEN {0} ELSE R
AnswerTo(z, w, b) ==
    LET t == z.q.ptask[w]
        z0 == [z EXCEPT !.q.s = Skips(@, t)]
    IN  IF w \notin z.q.open THEN z
        ELSE IF b > 0
        THEN LET z1 == [z0 EXCEPT !.q.s = AfterAcquire(W, @, b)]
                 z2 == Bad(z1, SendBlockClauses(W, z1.q, w, b) \cup AcquireClauses(W, z0.q.s, b))
             IN  Note([z2 EXCEPT !.q = AfterSend(W, @, w, b), !.dn[w] = Append(@, b)], "acquire", t)
        ELSE IF Waiting(W, z0.q.s, t) = 0
        THEN LET z1 == Bad(z0, ShutdownClauses(W, z0.q, w))
             IN  Recruit([z1 EXCEPT !.q = Answer(@, w), !.dn[w] = Append(@, 0)])
        ELSE [z0 EXCEPT !.pend[t] = Append(@, w)]

After(z) == IF AllDone(W, z.q.s) THEN "stop" ELSE "lost"

-----------------------------------------------------------------------------
(* the server *)
Boot == pc = "boot" /\ UNCHANGED hist /\ Set(Recruit(Z)) /\ pc' = "get" /\ UNCHANGED <<W, chk, hb, up, crash, drop>>

Handle(w) ==
    /\ pc = "get" /\ up[w] # <<>> /\ H("handle", w, TRUE)
    /\ LET m == Head(up[w])
           z0 == [Z EXCEPT !.q.cur = IF m.k = "acq" THEN [NoMsg EXCEPT !.k = "acq", !.w = w]
                     ELSE [k |-> m.k, w |-> w, b |-> m.b, ok |-> m.ok,
                           valid |-> ValidReturn(W, q, w, m.b), used |-> FALSE]]
       IN  IF m.k = "acq"
           THEN \E b \in Offers(q.ptask[w]) :
                   LET z == CheckDone(AnswerTo([z0 EXCEPT !.q.reqs[w] = @ + 1], w, b))
                   IN  Set(z) /\ pc' = After(z)
           ELSE LET z == CheckDone(IF z0.q.cur.valid THEN ReleaseIn(z0, m.b, m.ok) ELSE z0)
                IN  Set(z) /\ pc' = After(z)
    /\ up' = [up EXCEPT ![w] = Tail(@)]
    /\ UNCHANGED <<W, chk, hb, crash, drop>>

(* no message: answer a delayed request that can be answered *)
CanAnswer(t) == pend[t] # <<>> /\ Answerable(W, q, t)
Idle ==
    /\ pc = "get" /\ H("idle", 0, TRUE) /\ \A w \in P : up[w] = <<>>
    /\ LET z0 == [Z EXCEPT !.q.idle = TRUE,
                           !.q.ans = { w \in q.open : q.reqs[w] > 0 /\ Answerable(W, q, q.ptask[w]) }]
           ts == { t \in Tasks(W) : CanAnswer(t) }
           t == CHOOSE t \in ts : \A u \in ts : t <= u
       IN  IF ts = {} THEN Set(z0) /\ pc' = "lost"
           ELSE LET w == Head(pend[t])
                IN  \E b \in Offers(t) :
                      LET z == CheckDone(AnswerTo([z0 EXCEPT !.pend[t] = Tail(@)], w, b))
                      IN  Set(z) /\ pc' = After(z)
    /\ UNCHANGED <<W, chk, hb, up, crash, drop>>

RECURSIVE LoseAll(_, _)
LoseAll(z, S) == IF S = {} THEN z
                 ELSE LET b == CHOOSE b \in S : TRUE
                      IN  LoseAll([ReleaseIn(z, b, FALSE) EXCEPT !.lostT = @ \cup {TaskOf(W, b)}], S \ {b})
RECURSIVE EnsureAll(_, _)
EnsureAll(z, S) ==
    IF S = {} THEN z
    ELSE LET t == CHOOSE t \in S : TRUE
             rest == S \ {t}
         IN  IF TaskDone(W, z.q.s, t) THEN EnsureAll([z EXCEPT !.lostT = @ \ {t}], rest)
             ELSE IF ReadyOf(W, z.q.s, t) # {} /\ z.slots[t] # {} /\ z.slots[t] \subseteq z.reaped
             THEN LET old == CHOOSE w \in z.slots[t] : \A v \in z.slots[t] : w <= v
                  IN  EnsureAll([Spawn([z EXCEPT !.slots[t] = @ \ {old}], t, 1) EXCEPT !.lostT = @ \ {t}], rest)
             ELSE EnsureAll(z, rest)
LostBlocks == /\ pc = "lost" /\ UNCHANGED hist
              /\ LET z1 == LoseAll(Z, { b \in Blocks(W) : q.cust[b] # 0 /\ q.cust[b] \notin q.open })
                     z == EnsureAll(z1, z1.lostT)
                 IN  Set(z) /\ pc' = IF AllDone(W, z.q.s) THEN "stop" ELSE "health"
              /\ UNCHANGED <<W, chk, hb, up, crash, drop>>

RECURSIVE HealthFrom(_, _)
HealthFrom(z, t) ==
    IF t > Cardinality(Tasks(W)) THEN z
    ELSE LET d == { w \in z.slots[t] : ph[w] = "dead" }
             g == { w \in z.slots[t] : ph[w] = "gone" }
         IN  HealthFrom(Spawn([z EXCEPT !.slots[t] = @ \ d, !.reaped = @ \cup g], t, Cardinality(d)), t + 1)
Normal(x) == [x EXCEPT !.round = 1, !.closedR = [w \in P |-> 0]]
Health == /\ pc = "health" /\ UNCHANGED hist
          /\ LET z == HealthFrom(Z, 1)
             IN  Set([Bad(z, RoundEnd(W, z.q)) EXCEPT !.q = Normal(NextRound(W, z.q))])
          /\ pc' = "get"
          /\ UNCHANGED <<W, chk, hb, up, crash, drop>>

(* all done: stop the workers, close the connections, tell observers *)
Stop == /\ pc = "stop" /\ pc' = "ended" /\ UNCHANGED hist
        /\ LET z == Note([Z EXCEPT !.q.live = {}, !.q.open = {}], "exit", 0)
           IN  Set([Bad(z, (IF \E t \in Tasks(W) : t \notin z.q.done THEN {"C16.done_missing"} ELSE {})
                           \cup (IF z.q.exits # 1 THEN {"C15.exit_note"} ELSE {}))
                    EXCEPT !.ph = [w \in P |-> "off"]])
        /\ UNCHANGED <<W, chk, hb, up, crash, drop>>

-----------------------------------------------------------------------------
(* workers *)
Others == UNCHANGED <<W, chk, pc, pend, slots, reaped, lostT, np, bad>>
Running == pc # "ended"
Connect(w) == /\ Running /\ H("act", w, TRUE) /\ ph[w] = "new" /\ ph' = [ph EXCEPT ![w] = "idle"]
              /\ q' = [q EXCEPT !.open = @ \cup {w}]
              /\ UNCHANGED <<hb, up, dn, crash, drop>> /\ Others
Request(w) == /\ Running /\ H("act", w, TRUE) /\ ph[w] = "idle" /\ w \in q.open /\ ph' = [ph EXCEPT ![w] = "wait"]
              /\ up' = [up EXCEPT ![w] = Append(@, [k |-> "acq", b |-> 0, ok |-> TRUE])]
              /\ UNCHANGED <<q, hb, dn, crash, drop>> /\ Others
Exited(w) == q' = [q EXCEPT !.live = @ \ {w}, !.gone0[q.ptask[w]] = @ + 1]
Receive(w) == /\ Running /\ H(IF dn[w] # <<>> /\ Head(dn[w]) = 0 THEN "leave" ELSE "none", w, TRUE) /\ ph[w] = "wait" /\ w \in q.open /\ dn[w] # <<>>
              /\ dn' = [dn EXCEPT ![w] = Tail(@)]
              /\ IF Head(dn[w]) = 0
                 THEN ph' = [ph EXCEPT ![w] = "gone"] /\ Exited(w) /\ UNCHANGED hb
                 ELSE ph' = [ph EXCEPT ![w] = "hold"] /\ hb' = [hb EXCEPT ![w] = Head(dn[w])] /\ UNCHANGED q
              /\ UNCHANGED <<up, crash, drop>> /\ Others
Finish(w) == /\ Running /\ ph[w] = "hold" /\ w \in q.open
             /\ \/ up' = [up EXCEPT ![w] = Append(@, [k |-> "rel", b |-> hb[w], ok |-> TRUE])] /\ H("finish", w, TRUE)
                \/ H("finish", w, FALSE) /\ up' = [up EXCEPT ![w] = @ \o << [k |-> "fail", b |-> hb[w], ok |-> FALSE],
                                                  [k |-> "rel", b |-> hb[w], ok |-> FALSE] >>]
             /\ ph' = [ph EXCEPT ![w] = "idle"] /\ hb' = [hb EXCEPT ![w] = 0]
             /\ UNCHANGED <<q, dn, crash, drop>> /\ Others
(* a worker whose connection is gone ends, as if told to shut down *)
GiveUp(w) == /\ Running /\ H("act", w, TRUE) /\ ph[w] \in {"idle", "wait", "hold"} /\ w \notin q.open
             /\ ph' = [ph EXCEPT ![w] = "gone"] /\ hb' = [hb EXCEPT ![w] = 0] /\ Exited(w)
             /\ UNCHANGED <<up, dn, crash, drop>> /\ Others
Lose(w) == \E n \in 0..Len(up[w]) : up' = [up EXCEPT ![w] = SubSeq(@, 1, n)]
CloseC(x, w) == [x EXCEPT !.open = @ \ {w}, !.closedR[w] = x.round]
Crash(w) == /\ Running /\ H("crash", w, TRUE) /\ crash > 0 /\ ph[w] \in {"new", "idle", "wait", "hold"} /\ crash' = crash - 1
            /\ ph' = [ph EXCEPT ![w] = "dead"] /\ hb' = [hb EXCEPT ![w] = 0]
            /\ q' = [CloseC(q, w) EXCEPT !.live = @ \ {w}]
            /\ Lose(w) /\ UNCHANGED <<dn, drop>> /\ Others
Drop(w) == /\ Running /\ H("drop", w, TRUE) /\ drop > 0 /\ w \in q.open /\ ph[w] = "hold" /\ drop' = drop - 1
           /\ q' = CloseC(q, w) /\ Lose(w) /\ UNCHANGED <<ph, hb, dn, crash>> /\ Others

ServerStep == Boot \/ (\E w \in P : Handle(w)) \/ Idle \/ LostBlocks \/ Health \/ Stop
WorkerStep(w) == Connect(w) \/ Request(w) \/ Receive(w) \/ Finish(w) \/ GiveUp(w)
Next == ServerStep \/ \E w \in P : WorkerStep(w) \/ Crash(w) \/ Drop(w)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(ServerStep) /\ \A w \in P : WF_vars(WorkerStep(w)) /\ WF_vars(Handle(w))

Emit == (GEN /\ pc = "ended") => PrintT(<<"GEN", ToJson([tasks |-> W.tasks, chk |-> { <<W.blocks[b].t, W.blocks[b].wb>> : b \in chk }, m |-> hist])>>)
Sound == bad = {}
Custody == \A b \in Blocks(W) : q.cust[b] # 0 <=> q.s.st[b] = "processing"
Exclusive == \A v, w \in P : v # w /\ ph[v] = "hold" /\ ph[w] = "hold" /\ v \in q.open /\ w \in q.open
                 => hb[v] # hb[w]
Enough == np < NP       \* (the bound on processes is not what makes it hold)
Nobody == pc = "ended" => q.live = {} /\ q.open = {}
Finishes == <>(pc = "ended")
=============================================================================
