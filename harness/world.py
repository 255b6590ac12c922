"""Random and enumerated task sets ("worlds"), and their projection to what the
specification talks about: tasks, blocks with their regions, dependencies."""
import os, random, sys
from common import REPO
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)
import daisy
from daisy import Task, Roi, Coordinate, DependencyGraph

FITS = ("valid", "overhang", "shrink")
LIM = 10**9


def clamp(x):
    x = int(x)
    return max(-LIM, min(LIM, x))


def noop(block):
    pass


class TaskSpec:
    """Plain description of a task, from which daisy tasks can be built."""
    __slots__ = ("tid", "beg", "tot", "w", "c0", "c1", "roff", "fit", "conf", "maxr",
                 "ups", "nw", "base")
    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))
    def describe(self):
        return {k: getattr(self, k) for k in self.__slots__}


def build(specs, process_function=noop, check=None, order=None, **kw):
    """daisy tasks for the given specs (in the order of specs); `check` maps a
    spec to a check function."""
    tasks = []
    for s in specs:
        d = len(s.w)
        total = Roi([b + o - c for b, o, c in zip(s.beg, s.base, s.c0)],
                    [t + a + c for t, a, c in zip(s.tot, s.c0, s.c1)])
        read = Roi(s.roff, [a + w + c for a, w, c in zip(s.c0, s.w, s.c1)])
        write = Roi([r + a for r, a in zip(s.roff, s.c0)], s.w)
        pf = process_function(s) if isinstance(process_function, PerTask) else process_function
        tasks.append(Task(
            s.tid, total, read, write, process_function=pf,
            check_function=check(s) if check is not None else None,
            read_write_conflict=s.conf, num_workers=s.nw or 1, max_retries=s.maxr,
            fit=s.fit, upstream_tasks=[tasks[u] for u in s.ups], **kw))
    return tasks


class PerTask:
    def __init__(self, f):
        self.f = f
    def __call__(self, s):
        return self.f(s)


def cells(s):
    n = 1
    for t, w in zip(s.tot, s.w):
        t = max(0, t)
        n *= (t // w) if s.fit == "valid" else -(-t // w)
    return n


def rand_spec(rng, i, d, base, frame, maxblocks, sym=None, ups=(), simple=False):
    """One random task in the coordinate frame `frame` (begin, shape)."""
    for _ in range(100):
        w = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(d)]
        big = rng.random() < 0.2
        hi = 6 if big else 2
        c0 = [rng.randint(0, hi) if rng.random() < 0.7 else 0 for _ in range(d)]
        s = rng.random() < 0.35 if sym is None else sym
        c1 = list(c0) if s else [rng.randint(0, hi) if rng.random() < 0.7 else 0 for _ in range(d)]
        r = rng.random()
        if r < 0.4:
            beg, tot = list(frame[0]), list(frame[1])
        elif r < 0.8:
            beg = [b + rng.randint(-2, 2) for b in frame[0]]
            tot = [max(1, t + rng.randint(-3, 3)) for t in frame[1]]
        else:
            beg = [b + rng.randint(-6, 6) for b in frame[0]]
            tot = [rng.randint(0 if rng.random() < .2 else 1, 8) for _ in frame[1]]
        sp = TaskSpec(tid="t%d" % i if rng.random() < .8 else "task-%d x" % i,
                      beg=beg, tot=tot, w=w, c0=c0, c1=c1,
                      roff=[rng.randint(-5, 5) if rng.random() < .5 else -c for c in c0],
                      fit=rng.choice(FITS), conf=rng.random() < 0.65,
                      maxr=rng.choice([0, 0, 1, 1, 2, 3, 5]), ups=list(ups),
                      nw=rng.choice([1, 1, 2, 3]), base=list(base))
        if cells(sp) <= maxblocks and (cells(sp) > 0 or rng.random() < 0.15):
            return sp
    sp.tot = list(sp.w)
    return sp


def rand_world(rng, maxblocks=24, maxtasks=4, dims=None, ntasks=None):
    d = dims or rng.choice([1, 1, 1, 1, 2, 2, 3])
    n = ntasks or rng.choice([1, 2, 2, 3, 3, 4, 5][:max(1, min(7, maxtasks + 2))])
    n = min(n, maxtasks)
    kind = rng.random()
    if kind < 0.6:
        base = [0] * d
    elif kind < 0.8:
        base = [rng.randint(-50, 50) for _ in range(d)]
    else:
        base = [rng.choice([-1, 1]) * rng.randint(10**9, 10**12) for _ in range(d)]
    side = {1: 16, 2: 5, 3: 3, 4: 2}[d]
    frame = ([rng.randint(-3, 3) for _ in range(d)],
             [rng.randint(1, side) for _ in range(d)])
    sym = True if rng.random() < 0.3 else None
    shape = rng.random()
    specs = []
    per = max(4, maxblocks // n) if n > 1 else maxblocks
    for i in range(n):
        if i == 0:
            ups = []
        elif shape < 0.35:
            ups = [i - 1]                      # chain
        elif shape < 0.5:
            ups = [0] if i < n - 1 else list(range(max(0, n - 3), n - 1)) or [0]  # diamond
        elif shape < 0.65:
            ups = list(range(i)) if i == n - 1 else []    # fan-in
        else:
            ups = [j for j in range(i) if rng.random() < 0.6]
        specs.append(rand_spec(rng, i, d, base, frame, per, sym=sym, ups=ups))
    if rng.random() < 0.3:
        rescale(rng, specs, d)
    return specs


def rescale(rng, specs, d):
    """The same layout in larger units, with odd extents."""
    f = [rng.choice([5, 7, 16, 64, 100, 1000]) for _ in range(d)]
    jit = rng.random() < .7
    for s in specs:
        for k in range(d):
            s.beg[k] = s.beg[k] * f[k] + (rng.randint(-2, 2) if jit else 0)
            t = s.tot[k] * f[k]
            s.w[k] *= f[k]
            if jit and t > 0:
                # stay within the same number of cells
                rest = t % s.w[k] if s.fit == "valid" else (t - 1) % s.w[k] + 1
                lo, hi = (-rest, s.w[k] - 1 - rest) if s.fit == "valid" else (1 - rest, s.w[k] - rest)
                t += rng.choice([0, lo, hi, rng.randint(lo, hi)])
            s.tot[k] = t
            s.c0[k] = s.c0[k] * f[k] + (rng.choice([0, 1, -1, rng.randint(0, f[k])]) if jit and s.c0[k] else 0)
            s.c1[k] = s.c1[k] * f[k] + (rng.choice([0, 1, -1, rng.randint(0, f[k])]) if jit and s.c1[k] else 0)
            s.roff[k] = -s.c0[k] if rng.random() < .5 else s.roff[k] * f[k]


def enumerate_blocks(dg, task_id):
    return [b for b, _ in dg.task_dependency_graphs[task_id].enumerate_all_dependencies()]


def roi_rec(block, base):
    def r(c):
        return [clamp(x - o) for x, o in zip(c, base)]
    return {"rb": r(block.read_roi.begin), "re": r(block.read_roi.end),
            "wb": r(block.write_roi.begin), "we": r(block.write_roi.end)}


def same_rois(a, b):
    return (tuple(a.read_roi.begin) == tuple(b.read_roi.begin)
            and tuple(a.read_roi.end) == tuple(b.read_roi.end)
            and tuple(a.write_roi.begin) == tuple(b.write_roi.begin)
            and tuple(a.write_roi.end) == tuple(b.write_roi.end))


class World:
    """Projection of a set of tasks: numbering of tasks and blocks, and the
    dependencies as the code reports them.  `index(block)` is the number of a
    block, 0 for None, -1 for an unknown id, -2 for a known id with other
    regions."""
    def __init__(self, specs, tasks, graph=True):
        self.specs, self.tasks = specs, tasks
        self.base = specs[0].base
        self.tnum = {t.task_id: i + 1 for i, t in enumerate(tasks)}
        self.dg = DependencyGraph(tasks)
        self.blocks, self.num = [], {}
        self.dup = 0
        self.enum_of_task = {}
        for t in tasks:
            bl = enumerate_blocks(self.dg, t.task_id)
            self.enum_of_task[t.task_id] = bl
            for b in bl:
                if b.block_id in self.num:
                    self.dup += 1
                else:
                    self.num[b.block_id] = len(self.blocks) + 1
                self.blocks.append(b)
        self.up = self.down = None
        if graph:
            self.up = [sorted(self.index(x) for x in self.dg.upstream(b)) for b in self.blocks]
            self.down = [sorted(self.index(x) for x in self.dg.downstream(b)) for b in self.blocks]

    def index(self, block):
        if block is None:
            return 0
        i = self.num.get(block.block_id)
        if i is None:
            return -1
        if not same_rois(self.blocks[i - 1], block):
            return -2
        return i

    def task_rec(self, s):
        return {"beg": [clamp(x) for x in s.beg], "tot": list(s.tot), "w": list(s.w),
                "c0": list(s.c0), "c1": list(s.c1), "fit": s.fit, "conf": bool(s.conf),
                "maxr": s.maxr, "nw": s.nw or 1, "ups": [u + 1 for u in s.ups]}

    def rec(self):
        return {"tasks": [self.task_rec(s) for s in self.specs],
                "blocks": [dict(t=self.tnum.get(b.task_id, 0), id="%s" % (b.block_id[1],),
                                **roi_rec(b, self.base)) for b in self.blocks],
                "up": self.up, "down": self.down, "dup": self.dup}
