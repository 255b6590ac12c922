"""Drives the real scheduler through random sessions and records them."""
import pickle, random
import numpy
from common import *
from world import *
from daisy import Scheduler, BlockStatus

CNT = ("ready_count", "processing_count", "completed_count", "skipped_count",
       "failed_count", "orphaned_count", "pending_count", "total_block_count")


def counters(states, tasks):
    out = []
    for t in tasks:
        s = states[t.task_id]
        out.append([clamp(getattr(s, c)) for c in CNT] + [1 if s.is_done() else 0])
    return out


YES = (True, True, True, 1, numpy.True_, "done", [0])
NO = (False, False, False, None, 0, numpy.False_, "")
MAXATT = 8


class CheckPlan:
    """Deterministic check results per block and number of failed attempts
    (which whoever uses the plan has to count): 1 done, 0 not done, 2 raises.
    Calls are recorded."""
    def __init__(self, rng, mode, varying=None):
        self.rng, self.mode = rng, mode
        self.world = None
        self.varying = rng.random() < 0.6 if varying is None else varying
        self.res, self.post, self.att = {}, {}, {}
        self.calls, self.postcalls = [], []
        self.p = {"none": 0, "some": 0.3, "most": 0.85, "all": 1.0, "pair": 0.15,
                  "prefix": 0.5}[mode]

    def one_result(self):
        if self.mode == "none":
            return 0
        r = self.rng.random()
        return 1 if r < self.p else (2 if r < self.p + 0.1 else 0)

    def results(self, bid):
        if bid not in self.res:
            r = [self.one_result()]
            vary = self.varying and self.rng.random() < 0.6
            for _ in range(MAXATT - 1):
                r.append(self.one_result() if vary else r[0])
            self.res[bid] = r
        return self.res[bid]

    def result(self, bid):
        return self.results(bid)[min(self.att.get(bid, 0), MAXATT - 1)]

    def failed(self, bid):
        self.att[bid] = self.att.get(bid, 0) + 1

    def pre(self, block):
        r = self.result(block.block_id)
        self.calls.append((block.block_id, r))
        if r == 2:
            raise raised(self.rng)
        return self.rng.choice(YES if r else NO)

    def post_fn(self, block):
        # independent of the schedule: the k-th post check of a block
        k = sum(1 for b in self.postcalls if b == block.block_id)
        self.postcalls.append(block.block_id)
        r = self.post_result(block.block_id, k)
        if r == 2:
            raise raised(self.rng)
        return self.rng.choice(YES if r else NO)

    def post_result(self, bid, k):
        key = (bid, k)
        if key not in self.post:
            x = self.rng.random()
            self.post[key] = 1 if x < 0.6 else (0 if x < 0.85 else 2)
        return self.post[key]

    def function(self, spec):
        if self.mode == "none":
            return None
        if self.mode == "pair":
            return (self.pre, self.post_fn)
        return self.pre


def specs_of(tasks):
    """Task specs for tasks as the specification writes them."""
    return [TaskSpec(tid="t%d" % i, beg=t["beg"], tot=t["tot"], w=t["w"], c0=t["c0"], c1=t["c1"],
                     roff=[-c for c in t["c0"]], fit=t["fit"], conf=t["conf"], maxr=t["maxr"],
                     ups=[u - 1 for u in t["ups"]], nw=t.get("nw", 1), base=[0] * len(t["w"]))
            for i, t in enumerate(tasks)]


BIG = ("wide", "deep", "plane", "cube", "box", "tess", "layers", "chain", "skips", "orphans", "burst",
       "stubborn", "sea", "funnel", "storm")


def big_world(rng, kind=None):
    """Task sets with many blocks: wide, deep, or with many tasks."""
    kind = kind or rng.choice(list(BIG))
    def sp(i, tot, w, c0=None, c1=None, conf=False, maxr=1, ups=(), fit="valid", beg=None):
        d = len(w)
        c0, c1, beg = c0 or [0] * d, c1 or [0] * d, beg or [0] * d
        return TaskSpec(tid="t%d" % i, beg=beg, tot=tot, w=w, c0=c0, c1=c1, roff=[-c for c in c0],
                        fit=fit, conf=conf, maxr=maxr, ups=list(ups), nw=rng.choice([1, 4, 9, 20]),
                        base=[0] * d)
    fit = rng.choice(FITS)
    kw = {}
    if kind == "wide":
        n = rng.randint(70, 150)
        specs = [sp(0, [n], [1], maxr=rng.choice([0, 1, 3]), fit=fit)]
        if rng.random() < 0.7:
            k = rng.choice([1, 2, 3])
            specs.append(sp(1, [n], [k], [rng.randint(0, 2)], [rng.randint(0, 2)], ups=[0], fit=fit))
    elif kind == "deep":
        n = rng.randint(70, 160)
        specs = [sp(0, [n], [1], [rng.randint(0, n)], [rng.randint(n // 2, n)], conf=True, fit=fit)]
        if rng.random() < 0.5:
            specs.append(sp(1, [n], [n // 4], [1], [1], ups=[0], fit=fit))
    elif kind == "plane":
        specs = [sp(0, [rng.randint(9, 12), rng.randint(9, 12)], [1, 1], [rng.randint(0, 2), 1],
                    [1, rng.randint(0, 2)], conf=True, fit=fit)]
    elif kind == "cube":
        specs = [sp(0, [rng.randint(4, 5), 5, rng.randint(4, 5)], [1, 1, 1], [rng.randint(0, 5) for _ in range(3)],
                    [rng.randint(2, 5) for _ in range(3)], conf=True, fit=fit)]
    elif kind in ("box", "tess"):
        # many neighbours on all sides, few levels
        n = [rng.randint(3, 5) for _ in range(3)] if kind == "box" else [3, rng.randint(2, 3), 3, rng.randint(2, 3)]
        w = [rng.choice([1, 2, 4]) for _ in n]
        specs = [sp(0, [k * x for k, x in zip(n, w)], w, [rng.randint(0, x) for x in w],
                    [rng.randint(1, x) for x in w], conf=True, maxr=rng.choice([0, 1]), fit=fit)]
        if kind == "box" and rng.random() < .4:
            specs.append(sp(1, [k * x for k, x in zip(n, w)], [3 * x for x in w], [1] * 3, [1] * 3, ups=[0],
                            fit="shrink"))
        kw = {"pfail": rng.choice([0, .02, .2])}
    elif kind == "layers":
        # failures with many orphans in common
        n, r = rng.randint(30, 50), rng.randint(2, 9)
        specs = [sp(i, [n], [1], [r if i else 0], [rng.randint(1, r) if i else 0], ups=[i - 1] if i else [],
                    fit=fit, maxr=rng.choice([0, 1])) for i in range(rng.randint(3, 5))]
        kw = {"pfail": rng.choice([.03, .1, .3]), "chkmode": rng.choice(["none", "some"])}
    elif kind == "burst":
        # one block makes very many others ready at once
        n = rng.randint(90, 200)
        specs = [sp(0, [n], [n // rng.choice([1, 1, 2])], maxr=rng.choice([0, 1]), fit="shrink"),
                 sp(1, [n], [1], maxr=rng.choice([0, 1, 2]), ups=[0], fit=fit)]
        kw = {"pfail": rng.choice([0, 0, .2])}
    elif kind == "stubborn":
        # many attempts at few blocks
        m = rng.choice([8, 10, 17, 33, 70, 130, 260])
        specs = [sp(0, [rng.randint(1, 2)], [1], maxr=m, fit=fit),
                 sp(1, [1], [1], maxr=rng.choice([0, m // 2]), ups=rng.choice([[], [0]]), fit=fit)]
        kw = {"pfail": rng.choice([1, 1, .98, .9]), "chkmode": rng.choice(["none", "some", "pair"])}
    elif kind == "funnel":
        # few large blocks that read from (or are read by) very many blocks of several tasks
        n = rng.randint(80, 130)
        ks = [rng.choice([1, 1, 1, 2]) for _ in range(rng.choice([2, 2, 3]))]
        m = n // rng.choice([1, 1, 1, 2])
        c0, c1 = [rng.randint(1, 6)], [rng.randint(1, 6)]
        small = lambda i, k, ups: sp(i, [n], [k], [rng.randint(0, 2)] if ups else None, None, ups=ups, fit=fit)
        if rng.random() < .5:
            specs = [small(i, k, []) for i, k in enumerate(ks)]
            specs.append(sp(len(ks), [n - 12], [max(1, m - 12)], c0, c1, ups=list(range(len(ks))), beg=[6], fit="shrink"))
        else:
            specs = [sp(0, [n - 12], [max(1, m - 12)], beg=[6], fit="shrink")]
            specs += [sp(i + 1, [n], [k], [rng.randint(0, 6)], [rng.randint(0, 6)], ups=[0], fit=fit) for i, k in enumerate(ks)]
        rng.shuffle(specs[-1].ups)
        kw = {"pfail": rng.choice([0, 0, .05])}
    elif kind == "sea":
        # very many blocks in processing at the same time
        specs = [sp(0, [rng.randint(530, 700)], [1], maxr=0, fit=fit)]
        kw = {"pfail": rng.choice([0, .5]), "policy": "eager", "chkmode": "none"}
    elif kind == "storm":
        # many tasks that read from several others, and many failures
        n, m = rng.randint(10, 22), rng.randint(3, 8)
        specs = []
        for i in range(n):
            ups = rng.sample(range(max(0, i - 5), i), min(i, rng.choice([0, 1, 2, 2, 3])))
            specs.append(sp(i, [rng.randint(2, m)], [1], [rng.randint(0, 2)], [rng.randint(0, 2)], conf=rng.random() < .4,
                            ups=ups, fit=fit, maxr=0, beg=[rng.randint(0, 2)]))
        kw = {"pfail": rng.choice([.1, .2, .3]), "chkmode": "none"}
    elif kind == "chain":
        n = rng.randint(12, 30)
        specs = [sp(i, [rng.randint(3, 5)], [1], [rng.randint(0, 1)], [rng.randint(0, 1)], conf=rng.random() < .3,
                    ups=[i - 1] if i else [], fit=fit, maxr=rng.choice([0, 2])) for i in range(n)]
    elif kind == "skips":
        # far more than fits into a recursion
        specs = [sp(0, [rng.randint(1100, 1300)], [1], fit=fit)]
        kw = {"chkmode": "all", "policy": "eager"}
    else:
        n = rng.randint(400, 500)
        specs = [sp(0, [n], [1], [n], [n], conf=True, maxr=0, fit=fit)]
        kw = {"pfail": 1.0, "chkmode": "none"}
    return specs, kw


def session(specs, rng, policy=None, pfail=None, chkmode=None, via_pickle=None, limit=2000,
            script=None):
    """One session.  `script`: a history generated from the specification
    (acquire from a task / release the k-th outstanding block), followed as far
    as the code's choice of blocks allows and completed randomly."""
    script = list(script) if script is not None else None
    plan = CheckPlan(rng, chkmode or rng.choice(["none", "none", "none", "some", "most", "all", "pair"]))
    policy = policy or rng.choice(["random", "random", "eager", "lazy", "lifo", "fifo"])
    pfail = rng.choice([0, 0, 0.1, 0.3, 0.6, 1.0]) if pfail is None else pfail
    via_pickle = rng.random() < 0.5 if via_pickle is None else via_pickle
    meta = {"specs": [s.describe() for s in specs], "policy": policy, "pfail": pfail,
            "check": plan.mode, "pickled": via_pickle}
    events = []
    try:
        tasks = build(specs, check=plan.function)
        world = World(specs, tasks)
        sch = Scheduler(tasks if rng.random() < 0.5 else tasks[::-1])
    except ANY as e:
        meta["exc"] = repr(e)[:300]
        return {"world": {"tasks": [], "blocks": [], "up": [], "down": [], "dup": 0}, "chk": [],
                "events": [dict(op="build", t=0, b=0, ok=False, post=1, chk=[], cnt=[], rt=[], exc=True)]}, meta
    # a plan decides for all blocks up front (so that results do not depend on order)
    for b in world.blocks:
        plan.result(b.block_id)
    tnum = world.tnum

    def reported(upd):
        """Tasks that a release reported as changed (0: not as they are)."""
        try:
            now = sch.task_states
            return [tnum[i] if counters({i: x}, [t for t in tasks if t.task_id == i])
                    == counters(now, [t for t in tasks if t.task_id == i]) else 0 for i, x in upd.items()]
        except ANY:
            return [0]

    def record(op, t=0, b=0, ok=True, post=1, exc=None, upd=()):
        calls = [[world.num.get(i, 0), r] for i, r in plan.calls]
        plan.calls.clear()
        try:
            cnt = counters(sch.task_states, tasks)
            rt = sorted(tnum[x.task_id] for x in sch.get_ready_tasks())
        except ANY as e:
            exc = exc or e
            cnt, rt = [], []
        if exc is not None:
            meta["exc"] = repr(exc)[:300]
        events.append(dict(op=op, t=t, b=b, ok=ok, post=post, chk=calls, cnt=cnt, rt=rt,
                           upd=list(upd), exc=exc is not None))
        return exc is None

    out = []
    handed = 0
    while len(events) < limit:
        ready = [t for t in sch.get_ready_tasks()]
        moves = []
        step = script.pop(0) if script else None
        if step is not None:
            want = tasks[step["k"] - 1].task_id if step["op"] == "acq" else None
            if step["op"] == "acq" and not any(t.task_id == want for t in ready):
                step = script = None
            elif step["op"] == "rel" and step["k"] > len(out):
                step = script = None
        if ready and policy != "lazy":
            moves += ["acq"] * (3 if policy != "eager" else 1)
        if policy == "lazy" and ready and not out:
            moves += ["acq"]
        if out and not (policy == "eager" and ready):
            moves += ["rel"] * 2
        if not moves:
            if ready:
                moves = ["acq"]
            else:
                break
        if step is None and rng.random() < 0.05:
            # ask a task that has nothing to offer
            t = rng.choice(tasks)
            if all(t.task_id != r.task_id for r in ready):
                try:
                    b = sch.acquire_block(t.task_id)
                except ANY as e:
                    record("acq", t=tnum[t.task_id], exc=e)
                    break
                if b is not None:
                    out.append(b)
                if not record("acq", t=tnum[t.task_id], b=world.index(b)):
                    break
                continue
        m = step["op"] if step is not None else rng.choice(moves)
        if m == "acq":
            t = (rng.choice(ready) if step is None
                 else next(t for t in ready if t.task_id == want))
            try:
                b = sch.acquire_block(t.task_id)
            except ANY as e:
                record("acq", t=tnum[t.task_id], exc=e)
                break
            if b is not None:
                out.append(b)
            if not record("acq", t=tnum[t.task_id], b=world.index(b)) or world.index(b) < 0:
                break
        else:
            if step is not None:
                b = out.pop(step["k"] - 1)
            elif policy == "lifo":
                b = out.pop()
            elif policy == "fifo":
                b = out.pop(0)
            else:
                b = out.pop(rng.randrange(len(out)))
            idx = world.index(b)
            if via_pickle:
                b = pickle.loads(pickle.dumps(b))
            ok = rng.random() >= pfail if step is None else step["ok"]
            post = 1
            if ok and plan.mode == "pair":
                k = sum(1 for x in plan.postcalls if x == b.block_id)
                post = plan.post_result(b.block_id, k)
            b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
            if not ok or post != 1:
                plan.failed(b.block_id)
            try:
                upd = reported(sch.release_block(b))
            except ANY as e:
                record("rel", t=tnum[b.task_id], b=idx, ok=ok, post=post, exc=e)
                break
            if not record("rel", t=tnum[b.task_id], b=idx, ok=ok, post=post, upd=upd):
                break
    else:
        meta["limit"] = True
    if not (events and events[-1]["exc"]) and not out:
        record("end")
    chk = [plan.results(b.block_id) for b in world.blocks]
    meta["nblocks"] = len(world.blocks)
    return {"world": world.rec(), "chk": chk, "events": events}, meta
