"""Uses the real BlockBookkeeper, with a virtual clock, and records it."""
import simbase
from simbase import Clock
import pickle
from common import *
from world import *
from daisy import Block, BlockStatus
from daisy.block_bookkeeper import BlockBookkeeper

BASE = 5_000_000


class Conn:
    """Gets its address when it is first used: perhaps that of a connection that
    was closed before."""
    def __init__(self, rng, all_conns):
        self._closed, self._address = False, None
        self.rng, self.all = rng, all_conns
    @property
    def address(self):
        if self._address is None:
            old = [c._address for c in self.all.values() if c._closed and c._address]
            self._address = (self.rng.choice(old) if old and self.rng.random() < .6
                             else ("10.0.0.1", 40000 + sum(1 for c in self.all.values() if c._address)))
        return self._address
    def __repr__(self):
        return "%s:%d" % self.address
    def closed(self):
        return self._closed
    def close(self):
        self._closed = True


def rand_history(rng, nb, nc):
    ops = rng.choice([["sent"] * 4, ["sent"] * 8, ["sent"] * 2])
    ops = ops + ["ret"] * 4 + ["close"] + ["lost"] * 2 + ["tick"] * 3
    m = []
    if nb > 8:
        # many blocks out at once
        m += [{"op": "sent", "b": b, "c": rng.randint(1, nc), "d": 1} for b in range(1, nb + 1)]
    for _ in range(rng.randint(5, 60)):
        op = rng.choice(ops)
        m.append({"op": op, "b": rng.randint(1, nb), "c": rng.randint(1, nc), "d": rng.choice([1, 1, 2, 3, 10])})
    return m


def book_case(rng, params, hist=None):
    nb, nc = (3, 3) if hist else (
        rng.choice([rng.randint(1, 8)] * 4 + [rng.randint(9, 60)]), rng.randint(1, 5))
    to = hist["to"] if hist else rng.choice([-1, -1, 0, 1, 2, 5])
    script = hist["m"] if hist else rand_history(rng, nb, nc)
    clever = hist is None and rng.random() < 0.6   # returns mostly come from holders
    scale = rng.choice([1, 1, 0.25, 3600])
    Clock.now = float(BASE)
    bk = BlockBookkeeper(processing_timeout=None if to < 0 else to * scale) if to >= 0 or rng.random() < .5 \
        else BlockBookkeeper()
    conns = {}
    crng = random.Random(rng.random())
    for c in range(1, nc + 1):
        conns[c] = Conn(crng, conns)
    total = Roi((0,), (100,))
    def mk(b):
        t = "t" if b % 2 else "u"
        return Block(total, Roi((b - 1,), (3,)), Roi((b,), (1,)), task_id=t)
    blocks = {b: mk(b) for b in range(1, nb + 1)}
    num = {blocks[b].block_id: b for b in blocks}
    held = {}
    events = []
    meta = {"to": to, "scale": scale}

    def rel(t):
        if t is None:
            return -999
        x = (t - BASE) / scale
        return int(x) if x == int(x) else -998

    for s in script:
        op, b, c, d = s["op"], s["b"], s["c"], s["d"]
        e = dict(op=op, b=b, c=c, d=d, res=False, start=0, stop=0, list=[], exc=False)
        try:
            if op in ("sent", "ret"):
                conns[c].address
            if op == "sent":
                if b in held:
                    continue
                bk.notify_block_sent(blocks[b], conns[c])
                held[b] = c
            elif op == "ret":
                if clever and held and rng.random() < 0.8:
                    e["b"] = b = rng.choice(sorted(held))
                    e["c"] = c = held[b]
                x = blocks[b]
                if rng.random() < 0.7:
                    x = pickle.loads(pickle.dumps(x))
                x.status = BlockStatus.SUCCESS
                e["res"] = bool(bk.is_valid_return(x, conns[c]))
                if e["res"]:
                    bk.notify_block_returned(x, conns[c])
                    e["start"], e["stop"] = rel(x.started_processing), rel(x.stopped_processing)
                    held.pop(b, None)
            elif op == "lost":
                e["list"] = [num[x.block_id] for x in bk.get_lost_blocks()]
                for x in e["list"]:
                    held.pop(x, None)
            elif op == "close":
                conns[c].close()
            elif op == "tick":
                Clock.now += d * scale
        except ANY as ex:
            e["exc"] = True
            meta["excrepr"] = repr(ex)[:300]
        events.append(e)
        if e["exc"]:
            break
    return {"to": to, "events": events}, meta


def task_timeout_case(rng):
    """Whether the server gives up a block of a task that declares a timeout."""
    import serversim as g
    specs = [TaskSpec(tid="t0", beg=[0], tot=[1], w=[1], c0=[0], c1=[0], roff=[0], fit="valid",
                      conf=False, maxr=0, ups=[], nw=1, base=[0])]
    sim = g.ServerSim(specs, rng, crashes=0)
    sim.lies = False

    class Holding(g.ServerSim):
        def act(self, w, fair):
            if w.state != "holding":
                super().act(w, fair)
            else:
                Clock.now += 10
    sim.__class__ = Holding
    one = sim.one_task

    def with_timeout(s, tasks, cb):
        t = one(s, tasks, cb)
        t.timeout = 5
        return t
    sim.one_task = with_timeout
    sim.run()
    given_up = not sim.stuck and not sim.final["exc"]
    return ({"to": 5, "events": [dict(op="given_up", b=1, c=1, d=0, res=given_up, start=0, stop=0,
                                      list=[], exc=False)]},
            {"case": "task_timeout", "specs": [s.describe() for s in specs]})
