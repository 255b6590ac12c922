"""Records what the implementation says about geometry and dependencies."""
import random
from common import *
from world import *


def attempt(exc, name, f, default):
    try:
        return f()
    except ANY as e:  # noqa: a crash is an answer, too
        exc.append((name, repr(e)[:200]))
        return default


def geometry_case(specs, rng, nqueries=6, handed=True):
    exc = []
    w = None
    try:
        tasks = build(specs)
        w = World(specs, tasks, graph=False)
    except ANY as e:
        exc.append(("build", repr(e)[:200]))
    if w is None:
        # nothing can be said except that it failed
        rec = {"tasks": [], "blocks": [], "up": [], "down": [], "dup": 0}
        return {"world": rec, "n": [], "roots": [], "nroots": [], "queries": [], "handed": [],
                "ids2": [], "solo": [], "eqs": [], "exc": [x for x, _ in exc]}, {"specs": [s.describe() for s in specs], "exc": exc}
    w.up = attempt(exc, "up", lambda: [sorted(w.index(x) for x in w.dg.upstream(b)) for b in w.blocks], None)
    w.down = attempt(exc, "down", lambda: [sorted(w.index(x) for x in w.dg.downstream(b)) for b in w.blocks], None)
    if w.up is None:
        w.up = [[] for _ in w.blocks]
    if w.down is None:
        w.down = [[] for _ in w.blocks]
    n = attempt(exc, "num_blocks", lambda: [clamp(w.dg.num_blocks(t.task_id)) for t in tasks], [0] * len(tasks))
    rg = attempt(exc, "roots", lambda: {k: (int(c), [w.index(b) for b in g]) for k, (c, g) in w.dg.roots().items()}, {})
    roots = [rg.get(t.task_id, (0, []))[1] for t in tasks]
    nroots = [rg.get(t.task_id, (0, []))[0] for t in tasks]
    queries = []
    for _ in range(nqueries):
        ti = rng.randrange(len(specs))
        s = specs[ti]
        d = len(s.w)
        r = rng.random()
        ext = [max(1, t) + c + k + 3 for t, c, k in zip(s.tot, s.c0, s.c1)]
        beg = [b + rng.randint(-x, x) for b, x in zip(s.beg, ext)]
        if r < 0.5:
            shape = [rng.randint(1, 4) for _ in range(d)]
        else:
            shape = [rng.randint(1, 2 * x) for x in ext]
        if rng.random() < 0.3:       # at the borders of blocks
            beg = [b + rng.randint(-1, max(1, t) // x + 1) * x + rng.choice([-1, 0, 0, 1, -c, k])
                   for b, t, x, c, k in zip(s.beg, s.tot, s.w, s.c0, s.c1)]
            shape = [rng.choice([1, x, x + 1, 2 * x, max(1, x - 1)]) for x in s.w]
        if r > 0.9:
            beg = [b + rng.choice([-1, 1]) * 100 for b in beg]
        if rng.random() < .06:       # nothing
            k = rng.randrange(d)
            shape = [0 if i == k else x for i, x in enumerate(shape)]
        roi = Roi([b + o for b, o in zip(beg, s.base)], shape)
        read = rng.random() < 0.5
        g = w.dg.task_dependency_graphs[tasks[ti].task_id]
        res = attempt(exc, "query", lambda: sorted(w.index(b) for b in g.get_subgraph_blocks(roi, read_roi=read)), [])
        queries.append({"t": ti + 1, "b": beg, "e": [b + x for b, x in zip(beg, shape)],
                        "read": read, "res": res})
    # identity across constructions, with another order of tasks
    def ids_by_pos():
        t2 = build(specs)
        dg = DependencyGraph(t2[::-1])
        out = []
        for t in t2:
            m = {tuple(b.write_roi.begin): str(b.block_id[1]) for b in enumerate_blocks(dg, t.task_id)}
            out += [m.get(tuple(b.write_roi.begin), "?") for b in w.enum_of_task[t.task_id]]
        return out
    ids2 = attempt(exc, "ids2", ids_by_pos, [])
    # blocks as handed out by a scheduler
    def hand():
        sch = daisy.Scheduler(build(specs))
        got = []
        for t in tasks:
            b = sch.acquire_block(t.task_id)
            if b is not None:
                got.append(w.index(b))
        return got
    hd = attempt(exc, "handed", hand, []) if handed else []
    # graphs of single tasks, from the total write region
    def solo():
        out = []
        for s, t in zip(specs, tasks):
            kw = {"total_write_roi": t.total_write_roi}
            if rng.random() < .3:
                kw["total_read_roi"] = t.total_roi
            g = daisy.BlockwiseDependencyGraph(t.task_id, t.read_roi, t.write_roi, t.read_write_conflict,
                                               t.fit, **kw)
            pairs = list(g.enumerate_all_dependencies())
            out.append({"n": clamp(g.num_blocks),
                        "deps": [{"b": w.index(b), "up": sorted(w.index(u) for u in ups)} for b, ups in pairs],
                        "down": [{"b": w.index(b), "s": sorted(w.index(u) for u in g.downstream(b))}
                                 for b, _ in pairs],
                        "roots": [w.index(b) for b in g.root_gen()], "nroots": int(g.num_roots())})
        return out
    # the same block or not
    def equals():
        import pickle
        nb, out = len(w.blocks), []
        if not nb:
            return out
        pos = {}
        for k, b in enumerate(w.blocks):
            pos.setdefault(tuple(b.write_roi.begin), []).append(k)
        alike = [v for v in pos.values() if len(v) > 1]
        for _ in range(8):
            a = rng.randrange(nb)
            b = a if rng.random() < .3 else rng.randrange(nb)
            if alike and rng.random() < .5:
                a, b = rng.sample(rng.choice(alike), 2)
            x, y = w.blocks[a], pickle.loads(pickle.dumps(w.blocks[b]))
            out.append({"a": a + 1, "b": b + 1, "eq": bool(x == y and y == x and not x != y),
                        "any": bool(x == y or y == x or not x != y), "one": len({x, y}) == 1})
        return out
    eqs = attempt(exc, "equality", equals, [])
    so = attempt(exc, "solo", solo, []) if handed else []
    rec = {"world": w.rec(), "solo": so, "n": n, "roots": roots, "nroots": nroots, "queries": queries,
           "handed": hd, "ids2": ids2, "eqs": eqs, "exc": sorted(set(x for x, _ in exc))}
    return rec, {"specs": [s.describe() for s in specs], "exc": exc,
                 "queries": queries, "nblocks": len(w.blocks)}


def single_specs_1d(rng, n):
    """A grid of one-task 1D layouts."""
    out = []
    for w in (1, 2, 3):
        for c0 in (0, 1, 2, 4):
            for c1 in (0, 1, 3):
                for tot in (0, 1, 2, 3, 5, 6, 7, 9):
                    for fit in FITS:
                        for conf in (True, False):
                            out.append([TaskSpec(tid="t", beg=[0], tot=[tot], w=[w], c0=[c0], c1=[c1],
                                                 roff=[-c0], fit=fit, conf=conf, maxr=1, ups=[], nw=1,
                                                 base=[rng.randint(-20, 20)])])
    rng.shuffle(out)
    return out[:n]
