"""Records what the implementation says about huge tasks: numbers of blocks,
and the neighbourhoods of blocks at far positions."""
from common import *
from world import *
from geom import attempt

PRIMES = (46337, 46327, 46309)
SPAN = {1: 5 * 10**8, 2: 3 * 10**7, 3: 10**5, 4: 4000}   # cells per dimension (ids stay below 2**53)
LIMIT = 1500 * 10**6                                      # coordinates fit TLC's integers


def far_specs(rng):
    d = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    n = rng.choice([1, 2, 2])
    base = [rng.choice([0, rng.randint(-10**12, 10**12)]) for _ in range(d)]
    if rng.random() < 0.5:
        base = [0] * d
    specs = []
    mag = rng.choice([1, 10, 1000, 10**5])
    size = [rng.randint(1, LIMIT - 10**7) for _ in range(d)]
    for i in range(n):
        w, tot = [], []
        for k in range(d):
            x = rng.randint(1, 4 * mag) if rng.random() < 0.7 else rng.choice([1, 8, 16, 64, 128, 1024]) 
            cells_ = min(SPAN[d], size[k] // x)
            if rng.random() < 0.3:
                cells_ = rng.randint(1, 5)
            cells_ = max(1, cells_)
            w.append(x)
            tot.append(cells_ * x + (rng.randint(0, x - 1) if rng.random() < 0.6 else 0))
        ctx = [rng.choice([0, x // 2, x // 3 + 1, x, 2 * x - 1 if d < 3 else x]) for x in w]
        c0 = [rng.choice([0, c]) for c in ctx]
        c1 = list(c0) if rng.random() < 0.4 else [rng.choice([0, c]) for c in ctx]
        specs.append(TaskSpec(tid="t%d" % i, beg=[rng.randint(-3, 3) * rng.choice([1, x]) for x in w], tot=tot, w=w,
                              c0=c0, c1=c1, roff=[-c for c in c0], fit=rng.choice(FITS),
                              conf=rng.random() < 0.7, maxr=1, ups=[0] if i else [], nw=1, base=base))
    # an upstream task with much smaller blocks would have too many of them in
    # one neighbourhood
    if n == 2:
        for k in range(d):
            lo, hi = sorted((specs[0].w[k], specs[1].w[k]))
            if hi > 3 * lo:
                s, o = specs[1], specs[0]
                s.tot[k] = s.tot[k] * o.w[k] // s.w[k] + 1 if o.w[k] < s.w[k] else s.tot[k]
                s.w[k] = o.w[k] * rng.choice([1, 2])
                s.tot[k] = min(s.tot[k], SPAN[d] * s.w[k], LIMIT - 10**7)
                s.c0[k] = rng.choice([0, min(s.c0[k], s.w[k])])
                s.c1[k] = rng.choice([0, min(s.c1[k], s.w[k])])
                s.roff[k] = -s.c0[k]
    return specs


def cellcount(s, k):
    t = max(0, s.tot[k])
    return t // s.w[k] if s.fit == "valid" else -(-t // s.w[k])


def position(rng, n):
    """A cell index: near powers, near the end, anywhere."""
    r = rng.random()
    if r < 0.3:
        i = 2 ** rng.randrange(0, 30) + rng.randint(-1, 1)
    elif r < 0.5:
        i = n - 1 - rng.randrange(0, 3)
    elif r < 0.6:
        i = rng.randrange(0, 3)
    else:
        i = rng.randrange(n) if n else 0
    return max(0, min(n - 1, i))


class Nodes:
    def __init__(self, tnum, base):
        self.tnum, self.base, self.num, self.recs = tnum, base, {}, []
        self.blocks = []

    def add(self, b):
        def pos(c):
            return [max(-2 * 10**9, min(2 * 10**9, int(x - o))) for x, o in zip(c, self.base)]
        r = {"rb": pos(b.read_roi.begin), "re": pos(b.read_roi.end),
             "wb": pos(b.write_roi.begin), "we": pos(b.write_roi.end)}
        key = (b.block_id[1], b.task_id, str(r))
        if key not in self.num:
            self.num[key] = len(self.recs) + 1
            self.recs.append(dict(t=self.tnum.get(b.task_id, 0), id=str(b.block_id[1]),
                                  same=bool(b.block_id[0] == b.task_id), **r))
            self.blocks.append(b)
        return self.num[key]


def far_case(rng, params):
    specs = far_specs(rng)
    exc = []
    base = specs[0].base
    d = len(base)
    tasks = build(specs)
    dg = DependencyGraph(tasks)
    nodes = Nodes({t.task_id: i + 1 for i, t in enumerate(tasks)}, base)
    nres = attempt(exc, "num_blocks", lambda: [[int(dg.num_blocks(t.task_id)) % p for p in PRIMES] for t in tasks],
                   [[0] * 3 for _ in tasks])
    # (the roots of a downstream task are found by listing its blocks)
    rres = [attempt(exc, "roots", lambda: [int(dg.num_roots(t.task_id)) % p for p in PRIMES], [0] * 3)
            if not s.ups else [0] * 3 for s, t in zip(specs, tasks)]
    up, down, queries, starts = {}, {}, [], []

    def ups(i):
        if i not in up:
            up[i] = attempt(exc, "up", lambda: sorted({nodes.add(x) for x in dg.upstream(nodes.blocks[i - 1])}), [])
        return up[i]

    def downs(i):
        if i not in down:
            down[i] = attempt(exc, "down", lambda: sorted({nodes.add(x) for x in dg.downstream(nodes.blocks[i - 1])}), [])
        return down[i]

    def closure(i, f, cap=120):
        seen, todo = {i}, [i]
        t = nodes.recs[i - 1]["t"]
        while todo:
            for j in f(todo.pop()):
                if nodes.recs[j - 1]["t"] == t and j not in seen:
                    seen.add(j)
                    todo.append(j)
                    if len(seen) > cap:
                        return None
        return sorted(seen - {i})

    def query(ti, beg, shape, read):
        g = dg.task_dependency_graphs[tasks[ti].task_id]
        roi = Roi([b + o for b, o in zip(beg, base)], shape)
        res = attempt(exc, "query", lambda: [nodes.add(b) for b in g.get_subgraph_blocks(roi, read_roi=read)], [])
        queries.append({"t": ti + 1, "b": beg, "e": [b + x for b, x in zip(beg, shape)],
                        "read": read, "res": res})
        return res

    windows = []
    for _ in range(rng.randint(2, 4)):
        ti = rng.randrange(len(specs))
        s = specs[ti]
        ns = [cellcount(s, k) for k in range(d)]
        if 0 in ns:
            continue
        cell = [position(rng, n) for n in ns]
        windows.append((ti, cell))
        if rng.random() < 0.5:
            # a position that a short number may confuse with this one
            k = rng.randrange(d)
            alt = list(cell)
            alt[k] ^= 2 ** rng.choice([8, 15, 16, 20, 24, 28])
            if alt[k] < ns[k]:
                windows.append((ti, alt))
    for ti, cell in windows:
        s = specs[ti]
        beg = [s.beg[k] + cell[k] * s.w[k] + rng.randint(0, s.w[k] - 1) for k in range(d)]
        r = query(ti, beg, [rng.choice([1, rng.randint(1, 2 * x)]) for x in s.w], rng.random() < 0.4)
        if r and d < 4:
            starts.append(rng.choice(r))
    for s in specs:
        # around the end
        ti = specs.index(s)
        beg = [s.beg[k] + max(0, s.tot[k]) - rng.randint(-1, s.w[k]) for k in range(d)]
        query(ti, beg, [rng.randint(1, x + 1) for x in s.w], rng.random() < 0.4)

    def handed():
        sch = daisy.Scheduler(build(specs))
        for t in tasks:
            for _ in range(3):
                b = sch.acquire_block(t.task_id)
                if b is not None:
                    nodes.add(b)
    # (root blocks of a downstream task are found by listing all its blocks, and
    # the positions along each axis are listed)
    if len(tasks) == 1 and sum(cellcount(specs[0], k) for k in range(d)) < 10**6:
        attempt(exc, "handed", handed, None)
    order = []
    for i in starts:
        a, b = closure(i, ups), closure(i, downs)
        for j in list(ups(i)):
            downs(j)
        for j in list(downs(i)):
            ups(j)
        order.append({"b": i, "anc": a or [], "dec": b or [], "full": a is not None and b is not None})
    rec = {"tasks": [World.task_rec(None, s) for s in specs], "nodes": nodes.recs,
           "up": [{"b": k, "s": v} for k, v in sorted(up.items())],
           "down": [{"b": k, "s": v} for k, v in sorted(down.items())],
           "queries": queries, "order": order, "nres": nres, "rres": rres, "primes": list(PRIMES),
           "mass": [], "exc": sorted(set(x for x, _ in exc))}
    return rec, {"specs": [s.describe() for s in specs], "exc": exc}


def mass_case(rng, params):
    """All blocks of one big task."""
    d = rng.choice([1, 2, 2, 3, 3, 4])
    n = {1: rng.choice([40000, 70000]), 2: rng.choice([(300, 200), (20, 3000), (3000, 20), (70000, 1)]),
         3: rng.choice([(40, 40, 40), (3, 4, 5000), (300, 13, 13)]), 4: (9, 20, 10, 30)}[d]
    n = [n] if isinstance(n, int) else list(n)
    w = [rng.choice([1, 2, 3, 16, 100]) for _ in n]
    fit = rng.choice(FITS)
    tot = [k * x + (rng.randint(0, x - 1) if fit == "valid" else -rng.randint(0, x - 1)) for k, x in zip(n, w)]
    ctx = [rng.choice([0, 0, 1]) * x for x in w]
    s = TaskSpec(tid="t", beg=[rng.randint(-5, 5) for _ in n], tot=tot, w=w, c0=ctx, c1=ctx,
                 roff=[-c for c in ctx], fit=fit, conf=rng.random() < 0.5, maxr=0, ups=[], nw=1, base=[0] * d)
    exc = []
    dg = DependencyGraph(build([s]))
    g = dg.task_dependency_graphs["t"]
    whole = Roi([b for b in s.beg], tot)
    def collect(blocks):
        c, ids, boxes = 0, set(), set()
        for b in blocks:
            c += 1
            ids.add(b.block_id)
            boxes.add((tuple(b.write_roi.begin), tuple(b.write_roi.end)))
        return {"count": c, "ids": len(ids), "boxes": len(boxes)}
    m = [attempt(exc, "query", lambda: collect(g.get_subgraph_blocks(whole)), {"count": 0, "ids": 0, "boxes": 0})]
    if not s.conf:
        m.append(attempt(exc, "roots", lambda: collect(dg.roots()["t"][1]), {"count": 0, "ids": 0, "boxes": 0}))
    rec = {"tasks": [World.task_rec(None, s)], "nodes": [], "up": [], "down": [], "queries": [], "order": [],
           "nres": [[int(dg.num_blocks("t")) % p for p in PRIMES]],
           "rres": [[int(dg.roots()["t"][0]) % p for p in PRIMES]], "primes": list(PRIMES),
           "mass": m, "exc": sorted(set(x for x, _ in exc))}
    return rec, {"specs": [s.describe()], "exc": exc}
