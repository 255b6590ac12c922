"""Serial runs, recorded step by step, and complete runs (serial and through
run_blockwise with simulated workers) on the same outcomes."""
from serversim import *
import os, signal, sys, threading, time
real_sleep = time.sleep
import daisy.server
from daisy.convenience import run_blockwise


class FixedPlan(CheckPlan):
    """Shares its decisions with another plan, but not the calls."""
    def __init__(self, other):
        self.__dict__.update(other.__dict__)
        self.calls, self.postcalls, self.att = [], [], {}


class SerialSim(ServerSim):
    raise_at = 0       # the n-th block that is processed raises

    def one_task(self, s, tasks, cb):
        t = build([s_without_ups(s)], process_function=self.process, check=self.plan.function)[0]
        t.upstream_tasks.extend(tasks[u] for u in s.ups)
        t.init_callback_fn = cb
        return t

    def process(self, block):
        n = self.bnum(block)
        self.attempts[n] = self.attempts.get(n, 0) + 1
        self.nproc = getattr(self, "nproc", 0) + 1
        if self.nproc > 3000:
            raise HangError("the serial server does not stop")
        if self.raise_at == self.nproc:
            self.ev("proc", b=n, ok=False, k="raise")
            raise raised(self.rng)
        ok = self.outcome(n, self.attempts[n]) if self.outcome else self.rng.random() >= self.pf
        self.ev("proc", b=n, ok=ok)
        if not ok:
            block.status = BlockStatus.FAILED
        elif self.rng.random() < 0.2:
            block.status = BlockStatus.SUCCESS

    def serve(self, tasks, sch, monitor):
        self.server = SerialServer()
        if monitor:
            CLMonitor(self.server)
        observe(self)
        order = list(tasks)
        self.rng.shuffle(order)
        return self.server.run_blockwise(order, scheduler=sch)


def serial_case(rng, params, i):
    specs = rand_world(rng, maxblocks=params.get("maxblocks", 16), maxtasks=4)
    chk = rng.choice(["none", "none", "some", "most", "pair", "all"])
    sim = SerialSim(specs, rng, chkmode=chk)
    if rng.random() < 0.15:
        sim.raise_at = rng.randint(1, 12)
    sim.run(monitor=rng.random() < 0.5)
    meta = {"specs": [s.describe() for s in specs], "check": chk, "raise_at": sim.raise_at,
            "exc": sim.final["exc"]}
    if sim.final["exc"]:
        meta["excrepr"] = repr(getattr(sim, "exc", ""))[:300]
    return sim.trace(), meta


class Stuck(Exception):
    pass


class StuckStub:
    """Stands in for the server of a simulated run that can not be stopped
    from outside."""
    @property
    def stop_event(self):
        return self
    def set(self):
        raise Stuck("run does not finish")


def waits_for_result():
    """Whether the main thread waits for the result of the run."""
    f = sys._current_frames().get(threading.main_thread().ident)
    names = []
    while f is not None:
        names.append((f.f_globals.get("__name__", ""), f.f_code.co_name))
        f = f.f_back
    lib = [n for m, n in names if m.split(".")[0] in ("threading", "multiprocessing", "concurrent", "queue")]
    waits = [n for n in lib if n in ("get", "wait", "join", "result", "as_completed", "acquire")]
    busy = [n for n in lib if n in ("start", "__init__", "__enter__", "__exit__", "terminate", "submit", "shutdown")]
    return bool(waits) and not busy


class DistSim(ServerSim):
    interrupt_at = 0     # the round in which the user interrupts
    interrupted = False
    real_server = None

    def inject(self):
        super().inject()
        if self.rounds == self.interrupt_at and threading.current_thread() is not threading.main_thread():
            for _ in range(2000):
                if waits_for_result():
                    break
                real_sleep(0.005)
            else:
                return
            self.interrupted = True
            os.kill(os.getpid(), signal.SIGINT)
            for _ in range(2000):
                if self.real_server.stop_event.is_set():
                    break
                real_sleep(0.005)
            self.stopped = self.rounds
    def run(self, listed):
        Sim.current = self
        self.server = StuckStub()
        nb = len(self.world.blocks)
        work = sum((self.specs[self.world.tnum[b.task_id] - 1].maxr + 1) for b in self.world.blocks)
        self.limit = self.random_rounds + 400 + 80 * (work + sum((s.nw or 1) for s in self.specs))
        res = {"kind": "dist", "exc": "", "res": -1, "cnt": [], "att": [], "nsum": 0, "early": False}
        got, ended = {}, threading.Event()
        orig = daisy.server.Server.run_blockwise

        def rb(server, *a, **k):
            self.real_server = server
            try:
                got["states"] = orig(server, *a, **k)
            finally:
                ended.set()
            return got["states"]
        daisy.server.Server.run_blockwise = rb
        out = io.StringIO()
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            with captured(out):
                r = run_blockwise(listed)
                res["early"] = not ended.is_set()
            res["res"] = 1 if r else 0
            if "states" not in got:
                ended.wait(30)
            res["cnt"] = counters(got["states"], self.tasks)
        except Stuck:
            res["exc"] = "stuck"
        except HangError:
            res["exc"] = "stuck"
        except KeyboardInterrupt as e:
            res["exc"] = type(e).__name__
        except (MachineryError, SimKilled):
            raise
        except Exception as e:
            res["exc"] = type(e).__name__
            self.exc = e
        finally:
            daisy.server.Server.run_blockwise = orig
            res["live"] = sum(1 for w in self.workers if w.proc.is_alive())
            if self.real_server is not None and not ended.is_set():
                # returned before the server did
                ended.wait(30)
                real_sleep(0.05)
            res["kind"] = "interrupted" if self.interrupted else "dist"
            for w in self.workers:
                if w.proc.is_alive():
                    w.proc._kill(-9)
        res["att"] = [self.attempts.get(n + 1, 0) for n in range(nb)]
        res["nsum"] = out.getvalue().count("Execution Summary")
        return res


class ConvSim(SerialSim):
    """Serial, through run_blockwise."""
    def run(self, listed):
        Sim.current = self
        nb = len(self.world.blocks)
        res = {"kind": "serial2", "exc": "", "res": -1, "cnt": [], "att": [], "nsum": 0, "live": 0, "early": False}
        out = io.StringIO()
        try:
            with captured(out):
                r = run_blockwise(listed, multiprocessing=False)
            res["cnt"] = counters(r, self.tasks)
        except Exception as e:
            res["exc"] = "stuck" if isinstance(e, HangError) else type(e).__name__
            self.exc = e
        except HangError:
            res["exc"] = "stuck"
        res["att"] = [self.attempts.get(n + 1, 0) for n in range(nb)]
        res["nsum"] = out.getvalue().count("Execution Summary")
        return res


def dense_world(rng):
    """Many small tasks that depend on many of the others."""
    n = rng.randint(20, 34)
    k = rng.choice([2, 3, n])
    d = rng.choice([1, 1, 2])
    specs = []
    for i in range(n):
        sp = rand_spec(rng, i, d, [0] * d, ([0] * d, [2] * d), 2, sym=True,
                       ups=range(max(0, i - k), i))
        specs.append(sp)
    return specs


def final_case(rng, params, i):
    specs = dense_world(rng) if params.get("dense") else \
        rand_world(rng, maxblocks=params.get("maxblocks", 14), maxtasks=4)
    for s in specs:
        s.nw = rng.choice([1, 1, 2, 3])
        s.maxr = rng.choice([0, 0, 1, 2])
    chk = rng.choice(["none", "none", "none", "some", "most", "pair", "all"])
    pf = rng.choice([0, 0, 0.1, 0.3, 0.6])
    ser = SerialSim(specs, rng, chkmode=chk)
    ser.plan.varying = False
    raw = {}

    def outcome(n, k):
        if (n, k) not in raw:
            raw[n, k] = rng.random() >= pf
        return raw[n, k]
    ser.outcome = outcome
    ser.run()
    nb = len(ser.world.blocks)
    runs = [{"kind": "serial", "exc": ser.final["exc"], "res": -1, "nsum": 0,
             "live": 0, "early": False, "cnt": ser.events[-1]["cnt"] if not ser.final["exc"] else [],
             "att": [ser.attempts.get(n + 1, 0) for n in range(nb)]}]
    dist = DistSim(specs, rng, chkmode="none", crashes=0)
    dist.plan = FixedPlan(ser.plan)
    dist.outcome = outcome
    dist.lies = False
    if params.get("interrupt"):
        dist.interrupt_at = rng.randint(1, rng.choice([3, 10, 40]))
    tasks = dist.build()
    # leave out some of the tasks that others need
    needed = {u for s in specs for u in s.ups}
    listed = [t for k, t in enumerate(tasks) if k not in needed or rng.random() < 0.4]
    rng.shuffle(listed)
    names = [t.task_id for t in listed]
    runs.append(dist.run(listed))
    if not params.get("interrupt") and runs[-1]["exc"] != "stuck" and (params.get("dense") or rng.random() < .5):
        conv = ConvSim(specs, rng, chkmode=chk)
        conv.plan = FixedPlan(ser.plan)
        conv.outcome = outcome
        ctasks = conv.build()
        runs.append(conv.run([ctasks[tasks.index(t)] for t in listed]))
    K = max([s.maxr for s in specs]) + 1
    w = ser.world
    trace = {"world": w.rec(),
             "chk": [ser.plan.results(b.block_id)[0] for b in w.blocks],
             "raw": [[bool(outcome(n + 1, k + 1)) for k in range(K)] for n in range(nb)],
             "post": [[ser.plan.post_result(b.block_id, k) if chk == "pair" else 1 for k in range(K)]
                      for b in w.blocks],
             "runs": runs}
    meta = {"specs": [s.describe() for s in specs], "check": chk, "listed": names, "pfail": pf,
            "exc": [r["exc"] for r in runs]}
    if getattr(dist, "exc", None) is not None:
        meta["excrepr"] = repr(dist.exc)[:300]
    return trace, meta
