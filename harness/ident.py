"""Block identities seen by several processes with different histories."""
import json, os, subprocess, sys
from common import *


def view(specs, order):
    """All blocks as this process sees them: (task, regions) -> id."""
    from world import build, DependencyGraph
    tasks = build(specs)
    dg = DependencyGraph([tasks[k] for k in order])
    out = []
    for k, s in enumerate(specs):
        g = dg.task_dependency_graphs[s.tid]
        for level in range(g.num_levels):
            for b in g.level_blocks(level):
                out.append([k + 1, "%s|%s" % (b.read_roi, b.write_roi), "%s|%s" % b.block_id])
    return out


def far_view(specs, cells):
    """Single blocks of a huge task with one dimension of many cells."""
    from world import build, DependencyGraph, Roi, Coordinate
    s = specs[0]
    dg = DependencyGraph(build(specs))
    out = []
    for c in cells:
        q = Roi([b + o for b, o in zip(s.beg, s.base)], [1] * len(s.w))
        shift = [0] * len(s.w)
        shift[s.maxr] = c * s.w[s.maxr]
        for b in dg.task_dependency_graphs[s.tid].get_subgraph_blocks(q + Coordinate(shift)):
            out.append([1, "%s|%s" % (b.read_roi, b.write_roi), "%s|%s" % b.block_id])
    return out


def far_cells(rng, top):
    """Positions that differ in single bits, or whose low (high) halves agree."""
    r = {0, 1, 2, 3, 2**top}
    for k in range(2, top):
        r |= {2**k, 2**k + 1, 2**k - 1}
    p = rng.randrange(2**top)
    r |= {p ^ (1 << k) for k in range(top)} | {p}
    return sorted(r)


def child():
    """Reads tasks, one per line, and answers with what it sees."""
    from world import TaskSpec, World, build
    for line in sys.stdin:
        q = json.loads(line)
        specs = [TaskSpec(**s) for s in q["specs"]]
        if q["before"] and not q["cells"]:
            World(specs[:1], build(specs[:1]))       # something happened before
        try:
            r = far_view(specs, q["cells"]) if q["cells"] else view(specs, q["order"])
        except Exception as e:
            r = [[0, repr(e), ""]]
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


_children = []


def ident_case(rng, params, i):
    from world import rand_world, TaskSpec
    d = rng.choice([1, 2, 3, 4])
    cells = []
    if rng.random() < .15:
        # numbers of blocks (ids) are exact below 2**53
        d = rng.choice([1, 1, 2, 3])
        top = {1: 51, 2: 25, 3: 12}[d]
        cells = far_cells(rng, top)
        w = [rng.choice([1, 2, 3, 64, 100]) for _ in range(d)]
        c = [rng.choice([0, 0, x // 2, x]) for x in w]
        k = rng.randrange(d)
        specs = [TaskSpec(tid="t0", beg=[rng.randint(-9, 9) for _ in w],
                          tot=[x * (2**top + 2 if i == k else rng.randint(1, 2)) for i, x in enumerate(w)],
                          w=w, c0=c, c1=c, roff=[-x for x in c], fit=rng.choice(["valid", "overhang", "shrink"]),
                          conf=rng.random() < .5, maxr=k, ups=[], nw=1, base=[0] * d)]
    else:
        specs = rand_world(rng, maxblocks=40, maxtasks=3, dims=d)
    if not _children:
        for k in range(2):
            env = dict(os.environ, PYTHONHASHSEED=str(101 + k), PYTHONDONTWRITEBYTECODE="1")
            _children.append(subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env, text=True,
                                              stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    last = [k for k in range(len(specs))]
    mine = (lambda: far_view(specs, cells)) if cells else (lambda: view(specs, last))
    views = [mine()]
    for c in _children:
        order = list(last)
        rng.shuffle(order)
        c.stdin.write(json.dumps({"specs": [s.describe() for s in specs], "order": order, "cells": cells,
                                  "before": rng.random() < .5}) + "\n")
        c.stdin.flush()
        views.append(json.loads(c.stdout.readline()))
    views.append(mine())                  # the same process, later
    return ({"views": [[{"t": t, "r": r, "id": x} for t, r, x in v] for v in views]},
            {"specs": [s.describe() for s in specs]})


if __name__ == "__main__":
    child()
