"""Uses the real worker pools with simulated processes and records what they
start and stop."""
import simbase
from simbase import Sim, SimKilled, sim_spawn
from common import *
from world import *
import daisy.logging
daisy.logging.set_log_basedir(None)
from daisy import Context
from daisy.worker_pool import WorkerPool
from daisy.task_worker_pools import TaskWorkerPools
from daisy.server_observer import ServerObservee
import random, threading


class W:
    def __init__(self, n, proc):
        self.n, self.proc, self.pool, self.wid, self.context = n, proc, 0, None, None


class FakeServer(ServerObservee):
    def __init__(self):
        super().__init__()
        self.hostname, self.port = "127.0.0.1", 4711


class PoolError(Exception):
    pass


def spawn():
    p = threading.current_thread().fake_process
    Sim.current.on_worker(p)
    while True:
        c = p.wait_command()
        if c == "die":
            raise SimKilled()
        if c == "exit":
            return
        if c == "sysexit":
            raise SystemExit(3)
        if c == "raise":
            raise RuntimeError("worker error %d" % p.worker.n)
        if c == "raise_odd":
            class Odd(Exception):
                def __repr__(self):
                    return "Odd(worker error %d)" % p.worker.n
            raise Odd("x")


class PoolSim(simbase.SlowEnds):
    def __init__(self, rng, npools, n, mx, direct):
        self.rng, self.n, self.max, self.direct = rng, n, mx, direct
        self.workers, self.events = [], []
        self.new, self.term = [], []
        self.ids = set()
        self.idok = True
        self.slow_rng, self.pslow = random.Random(rng.randrange(10**6)), rng.choice([0, 0, 0.3])
        Sim.current = self
        if direct:
            self.names = ["pool"]
            self.pools = [WorkerPool(spawn, Context(task_id="pool", hostname="h", port=1)
                                     if rng.random() < .7 else None)]
        else:
            self.names = ["t%d" % i for i in range(npools)]
            self.server = FakeServer()
            specs = [TaskSpec(tid=self.names[i], beg=[0], tot=[1], w=[1], c0=[0], c1=[0], roff=[0], fit="valid",
                              conf=False, maxr=0, ups=[], nw=n[i], base=[0]) for i in range(npools)]
            self.tasks = build(specs, process_function=spawn)
            self.twp = TaskWorkerPools(self.tasks, self.server, max_block_failures=mx)

    # -- hooks of the simulated processes
    def on_start(self, p):
        w = W(len(self.workers) + 1, p)
        p.worker = w
        self.workers.append(w)

    def on_worker(self, p):
        p.worker.context = Context.from_env()

    def on_started(self, p):
        w = p.worker
        c = w.context
        if c is None:
            self.idok = False
            w.pool = 1
        else:
            w.wid = str(c["worker_id"])
            name = c.get("task_id", "pool")
            w.pool = self.names.index(name) + 1 if name in self.names else 0
            if w.wid in self.ids or w.pool == 0:
                self.idok = False
            if not self.direct and (str(c["port"]) != "4711" or c["hostname"] != "127.0.0.1"):
                self.idok = False
            self.ids.add(w.wid)
        self.new.append([w.n, max(1, w.pool)])

    def on_terminate(self, p):
        if p.is_alive():
            self.term.append(p.worker.n)

    # -- operations
    def do(self, op, i=1, n=0, w=0, which=()):
        self.new, self.term = [], []
        exc = ret = 0
        x = self.workers[w - 1] if w else None
        try:
            if op in ("set", "inc", "stop", "errors", "reap"):
                pool = self.pools[i - 1]
            if op == "set":
                pool.set_num_workers(n)
            elif op == "inc":
                pool.inc_num_workers(n)
            elif op == "stop":
                pool.stop(int(x.wid))
            elif op == "stopall":
                if self.direct:
                    self.pools[0].stop()
                else:
                    self.twp.stop()
            elif op == "errors":
                pool.check_for_errors()
            elif op == "reap":
                ret = int(pool.reap_dead_workers())
            elif op == "recruit":
                self.twp.recruit_workers({self.names[k - 1]: self.tasks[k - 1] for k in which})
            elif op == "health":
                self.twp.check_worker_health()
            elif op == "failure":
                b = daisy.Block(Roi((0,), (1,)), Roi((0,), (1,)), Roi((0,), (1,)), task_id=self.names[i - 1])
                self.server.notify_block_failure(b, ValueError("x"), x.context)
            elif op in ("exit", "crash", "raise"):
                if op == "exit":
                    x.proc.command("exit")
                elif op == "raise":
                    x.proc.command(self.rng.choice(["raise", "raise_odd"]))
                elif self.rng.random() < 0.3:
                    x.proc.command("sysexit")
                else:
                    x.proc._kill(self.rng.choice([-9, -11, -15, -6, -2, 1, 2, 77, 255]))
        except (MachineryError, SimKilled, HangError):
            raise
        except Exception as e:
            import re
            m = re.search(r"worker error (\d+)", repr(e))
            exc = int(m.group(1)) if m else -1
            self.exc = e
        self.events.append({"op": op, "i": i, "n": n, "w": w, "which": list(which), "new": self.new,
                            "term": self.term, "ids": self.idok, "exc": exc, "ret": ret,
                            "live": [w.n for w in self.workers if w.proc.is_alive()]})

    def alive(self, i):
        return [w for w in self.workers if w.pool == i and w.proc.is_alive()]

    def close(self):
        for w in self.workers:
            if w.proc.is_alive():
                w.proc._kill(-9)


def pool_case(rng, params, hist=None):
    if hist:
        # histories of the model: of one task, or with direct uses of a pool
        m = hist["m"]
        direct = not any(x["op"] in ("failure", "health") for x in m)
        n, mx = [3], hist["max"]
    else:
        direct = rng.random() < 0.4
        n = [rng.randint(1, 4) for _ in range(1 if direct else rng.randint(1, 3))]
        mx = rng.choice([3, 3, 0, 1, 2])
        m = None
    sim = PoolSim(rng, len(n), n, mx, direct)
    try:
        if m is not None:
            for x in m:
                op, k, w = x["op"], x["n"], x["w"]
                if w > len(sim.workers):
                    break
                if op == "set" and not direct:
                    sim.do("recruit", which=[1])
                elif op in ("stop", "inc") and not direct:
                    continue
                elif op == "errors" and not direct:
                    sim.do("health")
                elif op in ("exit", "crash", "raise") and not sim.workers[w - 1].proc.is_alive():
                    continue
                else:
                    sim.do(op, 1, k, w)
        else:
            for _ in range(rng.randint(5, 40)):
                i = rng.randint(1, len(n))
                al = sim.alive(i)
                ops = (["set", "set", "inc", "stop", "stop", "errors", "reap", "reap", "stopall"] if direct
                       else ["recruit", "recruit", "health", "health", "failure", "failure", "failure"]
                       + (["stopall"] if rng.random() < 0.1 else []))
                ops += ["exit", "crash", "crash", "raise"]
                op = rng.choice(ops)
                if op in ("exit", "crash", "raise"):
                    if al:
                        sim.do(op, i, 0, rng.choice(al).n)
                elif op == "stop":
                    ws = [w for w in sim.workers if w.pool == i and w.wid is not None]
                    if ws:
                        sim.do("stop", i, 0, rng.choice(ws[-4:]).n)
                elif op == "failure":
                    ws = [w for w in sim.workers if w.pool == i and w.context is not None]
                    if ws:
                        sim.do("failure", i, 0, rng.choice(ws[-3:] if rng.random() < .8 else ws).n)
                elif op == "recruit":
                    sim.do("recruit", which=sorted(rng.sample(range(1, len(n) + 1), rng.randint(1, len(n)))))
                elif op == "set":
                    sim.do("set", i, rng.randint(0, 5))
                elif op == "inc":
                    sim.do("inc", i, rng.randint(0, 2))
                else:
                    sim.do(op, i)
        sim.do("stopall")
    finally:
        sim.close()
    meta = {"direct": direct, "n": n, "max": mx}
    if getattr(sim, "exc", None) is not None:
        meta["excrepr"] = repr(sim.exc)[:200]
    return {"n": n, "max": mx, "events": sim.events}, meta


def mass_pool_case(rng, params, i):
    """Hundreds of workers, one after the other or many at once."""
    direct = rng.random() < .5
    n = [rng.randint(30, 60)] if direct else [rng.randint(20, 40) for _ in range(rng.randint(1, 2))]
    sim = PoolSim(rng, len(n), n, 3, direct)
    try:
        while len(sim.workers) < 330 and len(sim.events) < 700:
            k = rng.randint(1, len(n))
            al = sim.alive(k)
            if not al or rng.random() < .3:
                if direct:
                    sim.do("set", 1, rng.choice([n[0], n[0] + 7, n[0] // 2]))
                else:
                    sim.do("recruit", which=list(range(1, len(n) + 1)))
                al = sim.alive(k)
            r = rng.random()
            for w in rng.sample(al, min(len(al), rng.choice([1, 3, 15, 60]))):
                sim.do("crash" if r < .7 else rng.choice(["crash", "exit"]), k, 0, w.n)
            if direct:
                if rng.random() < .2:
                    sim.do("set", 1, 0)
                elif rng.random() < .5:
                    sim.do("reap")
            else:
                sim.do("health")
        sim.do("stopall")
    finally:
        sim.close()
    return {"n": n, "max": 3, "events": sim.events}, {"mass": True, "direct": direct}
