"""All kinds of recordings; imports are lazy, because some kinds replace parts
of the standard library before daisy is imported."""
import json, random
from common import watchdog, HangError, ANY  # noqa


def geom(rng, params, i):
    import geom as g
    if not hasattr(g, "_1d"):
        g._1d = g.single_specs_1d(random.Random(7), 10**6)
    if params.get("big"):
        from schedrun import big_world
        specs, _ = big_world(rng, params["big"][i % len(params["big"])])
        with watchdog(120):
            return g.geometry_case(specs, rng, nqueries=8)
    if rng.random() < 0.33:
        sp = g._1d[rng.randrange(len(g._1d))]
        with watchdog(60):
            return g.geometry_case(sp, rng, nqueries=4)
    r = rng.random()
    mb = params.get("maxblocks", 30) * (1 if r < 0.9 else 2)
    d = 4 if rng.random() < 0.02 else None
    with watchdog(60):
        return g.geometry_case(g.rand_world(rng, maxblocks=mb, maxtasks=4, dims=d), rng)


def far(rng, params, i):
    import far as g
    with watchdog(120):
        return (g.mass_case if params.get("mass") else g.far_case)(rng, params)


def ident(rng, params, i):
    import ident as g
    with watchdog(120, children=True):
        return g.ident_case(rng, params, i)


def sched(rng, params, i):
    import schedrun as g
    mb = params.get("maxblocks", 22)
    mb = mb if rng.random() < 0.9 else mb * 2
    kw = {k: v for k, v in params.items() if k in ("policy", "pfail", "chkmode")}
    if "hist" in params:
        h = lines(params["hist"])[i]
        with watchdog(60):
            return g.session(g.specs_of(h["tasks"]), rng, chkmode="none", script=h["m"])
    if params.get("big"):
        specs, kw = g.big_world(rng, params["big"][i % len(params["big"])])
        with watchdog(120):
            return g.session(specs, rng, **kw)
    with watchdog(60):
        return g.session(g.rand_world(rng, maxblocks=mb, maxtasks=5), rng, **kw)


def grid(rng, params, i):
    import grid as g
    with watchdog(30):
        return g.grid_case(rng)


_cache = {}


def lines(path):
    if path not in _cache:
        _cache[path] = [json.loads(x) for x in open(path)]
    return _cache[path]


def rs(rng, params, i):
    import rs as g
    with watchdog(30):
        return g.case(rng, params, lines(params["hist"])[i] if "hist" in params else None)


def server(rng, params, i):
    import serversim as g
    with watchdog(60):
        if "hist" in params:
            return g.server_replay(rng, lines(params["hist"])[i])
        return g.server_case(rng, params, i)


def e2e(rng, params, i):
    import e2e as g
    return g.e2e_case(rng, params, i)


def serial(rng, params, i):
    import finals as g
    with watchdog(100 if params.get("dense") else 60):
        return g.serial_case(rng, params, i)


def final(rng, params, i):
    import finals as g
    with watchdog(100 if params.get("dense") else 60):
        return g.final_case(rng, params, i)


def book(rng, params, i):
    import book as g
    with watchdog(60):
        if params.get("task_timeout"):
            return g.task_timeout_case(rng)
        return g.book_case(rng, params, lines(params["hist"])[i] if "hist" in params else None)


def client(rng, params, i):
    import clientrun as g
    with watchdog(30):
        return g.client_case(rng, params, lines(params["hist"])[i] if "hist" in params else None)


def context(rng, params, i):
    import ctxrun as g
    with watchdog(30, children=True):
        return (g.worker_case if params.get("worker") else g.context_case)(rng, params)


def pool(rng, params, i):
    import poolrun as g
    with watchdog(60):
        if params.get("mass"):
            return g.mass_pool_case(rng, params, i)
        return g.pool_case(rng, params, lines(params["hist"])[i] if "hist" in params else None)


def tcp(rng, params, i):
    import tcprun as g
    with watchdog(120, children=True):
        if "storm" in params:
            return g.storm_case(rng, {"seconds": params["storm"]})
        if "flood" in params:
            return g.flood_case(rng, params, i)
        if "crowd" in params:
            return g.crowd_case(rng, params, i)
        return g.tcp_case(rng, params, lines(params["hist"])[i] if "hist" in params else None)


def log(rng, params, i):
    import logrun as g
    with watchdog(120, children=True):
        return g.log_case(rng, params, i)


def addr(rng, params, i):
    import addrrun as g
    with watchdog(120, children=True):
        return g.addr_case(rng, params, i)


def task(rng, params, i):
    import taskrun as g
    with watchdog(30):
        return g.task_case(rng, params, i)




def handler(rng, params, i):
    import handlers as g
    with watchdog(60):
        return g.handler_case(rng, params, i)


KINDS = {"handler": handler, "log": log, "addr": addr, "task": task, "ident": ident, "e2e": e2e, "far": far, "tcp": tcp, "pool": pool, "context": context, "book": book, "client": client, "server": server, "serial": serial, "final": final, "geom": geom, "sched": sched, "grid": grid, "rs": rs}
