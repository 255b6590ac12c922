"""Drives daisy's ReadySurface through random histories on random DAGs, or
through histories generated from the specification (ReadySurfaceMC)."""
import json
from common import *
from world import *
from daisy.ready_surface import ReadySurface


def rand_dag(rng, maxn):
    n = rng.randint(1, maxn) if maxn < 40 else rng.randint(maxn // 2, maxn)
    kind = rng.random()
    if maxn >= 40:
        return big_dag(rng, n)
    up = {i: set() for i in range(1, n + 1)}
    if kind < 0.4:
        p = rng.choice([0.05, 0.15, 0.3, 0.6, 0.9])
        for b in range(2, n + 1):
            for a in range(1, b):
                if rng.random() < p:
                    up[b].add(a)
    elif kind < 0.7:       # layered, as block graphs are
        k = rng.randint(1, 4)
        layer = {i: rng.randrange(k) for i in range(1, n + 1)}
        for b in up:
            for a in up:
                if layer[a] < layer[b] and a < b and rng.random() < (0.5 if layer[a] == layer[b] - 1 else 0.1):
                    up[b].add(a)
    elif kind < 0.85:      # chains with shortcuts
        for b in range(2, n + 1):
            up[b].add(b - 1)
            if b > 2 and rng.random() < 0.3:
                up[b].add(rng.randint(1, b - 2))
    else:                  # fans
        c = rng.randint(1, n)
        for b in range(1, n + 1):
            if b < c:
                up[c].add(b)
            elif b > c and rng.random() < 0.8:
                up[b].add(c)
    return renamed(rng, up)


def big_dag(rng, n):
    """Layers of many nodes that depend on near nodes of the layer before."""
    up = {i: set() for i in range(1, n + 1)}
    if rng.random() < .25:       # few nodes that many depend on, many that one depends on
        k = rng.randint(1, 4)
        for b in range(k + 1, n):
            up[b] = set(rng.sample(range(1, k + 1), rng.randint(1, k)))
        up[n] = set(range(rng.choice([1, k + 1]), n))
        return renamed(rng, up)
    size = rng.choice([5, 10, 20, n // 2, n // 3])
    reach = rng.choice([1, 2, 5, 20, 100])
    for b in up:
        l, k = divmod(b - 1, size)
        if l:
            near = [a for a in range(k - reach, k + reach + 1) if 0 <= a < size]
            for a in near:
                if reach == 100 or rng.random() < .8:
                    up[b].add((l - 1) * size + a + 1)
        if l > 1 and rng.random() < .05:
            up[b].add(rng.randint(1, (l - 1) * size))
    return renamed(rng, up)


def renamed(rng, up):
    n = len(up)
    # rename nodes, so that order carries no information
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    m = {i + 1: perm[i] for i in range(n)}
    return {m[b]: {m[a] for a in s} for b, s in up.items()}


def drive(up, marks, rng):
    """marks: list of (node, ok), or None for a random history that marks what
    the surface freed."""
    down = {n: set() for n in up}
    for b, s in up.items():
        for a in s:
            down[a].add(b)
    def order(s):
        s = sorted(s)
        rng.shuffle(s)
        return s
    rs = ReadySurface(lambda n: iter(order(down[n])), lambda n: iter(order(up[n])))
    ev = []
    def mark(n, ok):
        try:
            r = rs.mark_success(n) if ok else rs.mark_failure(n, *([True] if rng.random() < .5 else []))
            ret = [int(x) for x in r]
            ev.append({"n": n, "ok": ok, "ret": ret, "exc": False})
            return ret
        except ANY as e:
            ev.append({"n": n, "ok": ok, "ret": [], "exc": True, "what": repr(e)[:200]})
            return None
    if marks is not None:
        for n, ok in marks:
            if mark(n, ok) is None:
                break
    else:
        avail = [n for n in up if not up[n]]
        pf = rng.choice([0, 0.1, 0.3, 0.6, 1.0] if len(up) < 40 else [0, .03, .1, .3])
        settled = set()
        ok_nodes = set()
        while avail:
            k = rng.choice([0, -1, rng.randrange(len(avail))])
            n = avail.pop(k)
            if n in settled or not up[n] <= ok_nodes:
                # a wrongly freed node: already visible in the record
                break
            settled.add(n)
            ok = rng.random() >= pf
            if ok:
                ok_nodes.add(n)
            r = mark(n, ok)
            if r is None:
                break
            if ok:
                avail += r
            else:
                settled |= set(r)
    return {"up": [sorted(up[n]) for n in sorted(up)], "ev": ev}, {"n": len(up)}


def case(rng, params, h):
    if h is not None:
        up = {k: set() for k in range(1, params["n"] + 1)}
        for a, b in h["e"]:
            up[b].add(a)
        return drive(up, [(m["n"], m["ok"]) for m in h["m"]], rng)
    return drive(rand_dag(rng, params.get("maxn", 14)), None, rng)
