"""Runs daisy's real Server (scheduler, bookkeeper, worker pools, observers) in
a simulated environment that chooses message orders, failures, crashes and lost
connections, and records everything that can be observed from outside."""
import simbase
from simbase import Sim, Clock, SimKilled, sim_spawn, FakeProcess
from common import *
from world import *
from summary import parse_summary
from schedrun import CheckPlan, MAXATT, counters
import io, pickle, random, re, threading, contextlib
import tqdm
import daisy.logging
daisy.logging.set_log_basedir(None)
from daisy import BlockStatus, Scheduler
from daisy.context import Context
from daisy.server import Server
from daisy.server_observer import ServerObserver
from daisy.cl_monitor import CLMonitor
from daisy.serial_server import SerialServer
from daisy.tcp import TCPServer
from daisy.tcp.exceptions import StreamClosedError
from daisy.messages import (AcquireBlock, ReleaseBlock, BlockFailed, ClientException, SendBlock,
                            RequestShutdown, Message)

MAXEV = 4000
tqdm.tqdm.monitor_interval = 0


@contextlib.contextmanager
def captured(out):
    """Standard output (and error, dropped) of the runs."""
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        yield


def roundtrip(m):
    return pickle.loads(pickle.dumps(m))


class FakeStream:
    def __init__(self, sim, w):
        self.sim, self.w = sim, w
        self._closed = False
        self.fail_next = False
        # perhaps that of an earlier connection
        old = [x.stream.address for x in sim.workers if x.stream is not None and x.stream._closed]
        used = [x.stream.address for x in sim.workers if x.stream is not None and not x.stream._closed]
        old = [a for a in old if a not in used]
        self.address = old[w % len(old)] if old and w % 3 else ("127.0.0.1", 40000 + w)

    def __repr__(self):
        return "%s:%d" % self.address

    def closed(self):
        return self._closed

    def close(self):
        if not self._closed:
            self._closed = True
            self.sim.ev("close", w=self.w, k="server")

    def send_message(self, message):
        if self._closed:
            self.sim.ev("send", w=self.w, k="closed", b=self.sim.bnum(getattr(message, "block", None)))
            raise StreamClosedError()
        if self.fail_next:
            # the connection breaks while sending
            self.sim.ev("send", w=self.w, k="closed", b=self.sim.bnum(getattr(message, "block", None)))
            self.sim.break_stream(self.w)
            raise StreamClosedError()
        try:
            message = roundtrip(message)
        except Exception as e:
            raise MachineryError("message can not be pickled: %r" % e)
        self.sim.on_send(self, message)


class FakeServerLoop:
    def add_callback(self, f, *a, **k):
        f(*a, **k)


def _init(self, host=None, max_port_tries=1000, *a, **k):
    import queue
    self.address = ("127.0.0.1", 12345) if host is None else (host, 12345)
    self.client_streams = set()
    self.message_queue = queue.Queue()
    self.exception_queue = queue.Queue()
    self.ioloop = FakeServerLoop()
    self._stopped = True        # tornado: listens no more
    Sim.current.tcp = self


def _get_message(self, timeout=None):
    return Sim.current.get_message(timeout)


def _disconnect(self):
    """The real one, unless it relies on what the real constructor prepares."""
    try:
        real_disconnect(self)
    except AttributeError:
        for stream in list(self.client_streams):
            stream.close()


real_disconnect = TCPServer.disconnect
TCPServer.__init__ = _init
TCPServer.get_message = _get_message
TCPServer.disconnect = _disconnect


class W:
    """A simulated worker process and its connection."""
    def __init__(self, n, proc):
        self.n, self.proc = n, proc
        self.task_id = None
        self.stream = None
        self.state = "new"     # new idle waiting holding told gone
        self.block = None      # what it was sent
        self.last = None       # what it returned last
        self.inbox = []        # messages on their way to the server
        self.context = None


class RecScheduler(Scheduler):
    """The real scheduler, with a record of calls from outside."""
    sim = None

    def acquire_block(self, task_id):
        sim, self.__depth = self.sim, True
        if sim.inside:
            return super().acquire_block(task_id)
        sim.inside = True
        try:
            b = super().acquire_block(task_id)
        finally:
            sim.inside = False
        sim.ev("acq", t=sim.world.tnum[task_id], b=sim.bnum(b), chk=sim.checks())
        return b

    def release_block(self, block):
        sim = self.sim
        if sim.inside:
            return super().release_block(block)
        ok = block.status == BlockStatus.SUCCESS
        n0 = len(sim.plan.postcalls)
        k = sum(1 for x in sim.plan.postcalls if x == block.block_id)
        b = sim.bnum(block)
        sim.inside = True
        if not ok:
            sim.plan.failed(block.block_id)
        try:
            r = super().release_block(block)
        finally:
            sim.inside = False
        post = sim.plan.post.get((block.block_id, k), 1) if len(sim.plan.postcalls) > n0 else 1
        if ok and post != 1:
            sim.plan.failed(block.block_id)
        sim.ev("rel", t=sim.world.tnum[block.task_id], b=b, ok=ok, post=post, chk=sim.checks())
        return r


class RecObserver(ServerObserver):
    def __init__(self, server, sim):
        super().__init__(server)
        self.sim = sim

    def note(self, k, task_id=None, state=None, **kw):
        sim = self.sim
        t = sim.world.tnum.get(task_id, 0) if task_id is not None else 0
        cnt = []
        if state is not None:
            cnt = counters({task_id: state}, [sim.task_by_id[task_id]])[0]
        sim.ev("note", k=k, t=t, cnt=cnt, **kw)
        sim.on_note(k)

    def on_task_start(self, task_id, task_state):
        self.note("start", task_id, task_state)

    def on_acquire_block(self, task_id, task_state):
        self.note("acquire", task_id, task_state)

    def on_release_block(self, task_id, task_state):
        self.note("release", task_id, task_state)

    def on_task_done(self, task_id, task_state):
        self.note("done", task_id, task_state)

    def on_block_failure(self, block, exception, context):
        wid = context["worker_id"]
        self.note("failure", block.block_id[0], None, b=self.sim.bnum(block),
                  w=self.sim.by_worker_id.get(str(wid), 0))

    def on_server_exit(self):
        self.note("exit")


class Witness(ServerObserver):
    """Another observer, which may lose interest (at its n-th notification)."""
    def __init__(self, server, sim, leaves=0):
        super().__init__(server)
        self.sim, self.leaves, self.notes, self.gone = sim, leaves, [], False

    def note(self, k, task_id=None):
        self.notes.append([k, self.sim.world.tnum.get(task_id, 0) if task_id is not None else 0])
        if len(self.notes) == self.leaves:
            self.gone = True
            self.server.unregister_observer(self)

    def on_task_start(self, task_id, task_state):
        self.note("start", task_id)

    def on_acquire_block(self, task_id, task_state):
        self.note("acquire", task_id)

    def on_release_block(self, task_id, task_state):
        self.note("release", task_id)

    def on_task_done(self, task_id, task_state):
        self.note("done", task_id)

    def on_block_failure(self, block, exception, context):
        self.note("failure", block.block_id[0])

    def on_server_exit(self):
        self.note("exit")


def observe(sim):
    """Registers the recording observer among others."""
    rng = sim.rng
    n = 0 if sim.plans.get("what") == "observer" else rng.choice([0, 0, 1, 2, 4])
    k = rng.randint(0, n)
    sim.wit = []
    for j in range(n + 1):
        if j == k:
            RecObserver(sim.server, sim)
        else:
            sim.wit.append(Witness(sim.server, sim, rng.choice([0, 1, 2, rng.randint(1, 20)])))


class ServerSim(simbase.SlowEnds):
    preport = 0.6      # how often a failure is reported
    slow = False       # workers keep their blocks for long
    mass = ()          # rounds in which most workers die at once
    done_at = None     # positions of blocks that are already done

    def __init__(self, specs, rng, mode="any", chkmode="none", crashes=None, outcome=None):
        self.rng, self.mode = rng, mode
        self.specs = specs
        self.events = []
        self.inside = False
        self.plan = CheckPlan(rng, chkmode)
        self.workers = []
        self.by_worker_id = {}
        self.errors = []            # StreamClosedErrors not yet raised
        self.rounds = 0
        self.quiet = 0
        self.stopped = None
        self.injected = None
        self.ended = False
        self.budget = rng.choice([0, 0, 1, 2, 4, 7]) if crashes is None else crashes
        self.pf = rng.choice([0, 0, 0.1, 0.3, 0.6])
        self.chatter = rng.choice([0.1, 0.3, 0.6])    # how often the environment is busy
        self.outcome = outcome      # (block number, attempt) -> bool, or None: random
        self.slow_rng = random.Random(rng.randrange(10**6))
        self.pslow = rng.choice([0, 0, 0.2])
        self.attempts = {}
        self.random_rounds = rng.choice([0, 20, 60, 150])
        self.hang = False
        self.lies = True            # workers return blocks more than once
        self.urgent = None
        self.stuck = False
        self.limit = 0
        self.plans = {}
        self.script = []            # a history of the model
        self.failing = {}
        Clock.now = 1_000_000.0 + rng.randint(0, 1000)

    # -- recording
    def ev(self, op, w=0, t=0, b=0, ok=True, k="", chk=(), cnt=(), post=1):
        if len(self.events) < MAXEV:
            self.events.append({"op": op, "w": w, "t": t, "b": b, "ok": bool(ok), "k": k,
                                "chk": list(chk), "cnt": list(cnt), "post": post})

    def checks(self):
        r = [[self.world.num.get(i, 0), c] for i, c in self.plan.calls]
        self.plan.calls.clear()
        return r

    def bnum(self, b):
        return 0 if b is None else self.world.index(b)

    # -- processes
    def on_start(self, p):
        w = W(len(self.workers) + 1, p)
        p.worker = w
        self.workers.append(w)

    def on_worker(self, p):          # in the worker's thread: it reads its context
        w = p.worker
        w.context = Context.from_env()

    def on_started(self, p):
        w = p.worker
        if w.context is None:
            self.ev("spawn", w=w.n, k="nocontext")
            w.state = "gone"
            return
        w.task_id = w.context["task_id"]
        wid = str(w.context["worker_id"])
        good = (w.context["hostname"] == "127.0.0.1" and str(w.context["port"]) == "12345"
                and w.task_id in self.world.tnum and wid not in self.by_worker_id)
        self.by_worker_id[wid] = w.n
        self.ev("spawn", w=w.n, t=self.world.tnum.get(w.task_id, 0), ok=good)

    def on_terminate(self, p):
        w = p.worker
        self.ev("term", w=w.n, t=self.world.tnum.get(w.task_id, 0))
        self.close_conn(w, told=True)
        w.state = "gone"

    # -- connections
    def connect(self, w):
        w.stream = FakeStream(self, w.n)
        self.tcp.client_streams.add(w.stream)
        w.state = "idle"
        self.ev("connect", w=w.n, t=self.world.tnum.get(w.task_id, 0))

    def close_conn(self, w, graceful=False, told=False):
        if w.stream is not None and not w.stream._closed:
            w.stream._closed = True
            self.tcp.client_streams.discard(w.stream)
            self.ev("close", w=w.n, k="graceful" if graceful else "lost")
            if not graceful:
                self.errors.append(StreamClosedError())

    def break_stream(self, n):
        """The connection of worker n breaks; its worker ends normally."""
        w = self.workers[n - 1]
        self.close_conn(w)
        if w.state in ("idle", "waiting"):
            # nothing was lost with it, so nobody replaces it if it ends normally
            self.end_process(w, "sysexit")
        else:
            w.state = "orphan"

    def end_process(self, w, how):
        if not w.proc.is_alive():
            return
        if how == "die":
            w.proc._kill(self.rng.choice([-9, -9, -11, -15, -6, 1, 255]))
        else:
            w.proc.command(how)
        w.state = "gone"
        self.ev("pexit", w=w.n, t=self.world.tnum.get(w.task_id, 0),
                ok=(w.proc.exitcode == 0), k=how)

    def on_send(self, stream, message):
        w = self.workers[stream.w - 1]
        if isinstance(message, SendBlock):
            b = message.block
            n = self.bnum(b)
            self.ev("send", w=w.n, k="block", b=n, t=self.world.tnum.get(b.task_id, 0))
            self.attempts[n] = self.attempts.get(n, 0) + 1
            w.block = b
            w.state = "holding"
        elif isinstance(message, RequestShutdown):
            self.ev("send", w=w.n, k="shutdown")
            w.state = "told"
        else:
            self.ev("send", w=w.n, k="other")

    # -- what workers do
    def deliver(self, w, message, k, b=0, ok=True):
        message = roundtrip(message)
        message.stream = w.stream
        w.inbox.append((message, k, b, ok))

    def act(self, w, fair):
        """One step of a worker."""
        rng = self.rng
        if w.state == "new":
            self.connect(w)
        elif w.state == "idle":
            self.deliver(w, AcquireBlock(w.task_id), "acq")
            w.state = "waiting"
        elif w.state == "holding":
            if self.slow and self.rounds < max(self.mass) and rng.random() < .9:
                return
            b = w.block
            n = self.bnum(b)
            if self.outcome is not None:
                ok = self.outcome(n, self.attempts[n])
            else:
                ok = rng.random() >= self.pf
            if ok:
                b.status = BlockStatus.SUCCESS
                self.deliver(w, ReleaseBlock(b), "rel", n, True)
            else:
                b.status = BlockStatus.FAILED
                if rng.random() < self.preport:
                    self.deliver(w, BlockFailed(ValueError("failed"), b, w.context), "fail", n, False)
                self.deliver(w, ReleaseBlock(b), "rel", n, False)
            w.last, w.block = b, None
            w.state = "idle"
        elif w.state == "told":
            self.close_conn(w, graceful=True)
            w.state = "leaving"
        elif w.state in ("leaving", "orphan"):
            self.end_process(w, "exit")

    def adversary(self):
        """Something that a worker should not do, or a fault."""
        rng = self.rng
        alive = [w for w in self.workers if w.state not in ("gone",) and w.proc.is_alive()]
        if not alive:
            return
        w = rng.choice(alive)
        r = rng.random() if self.lies else rng.random() * 0.6
        if r < 0.35:
            if self.budget > 0:
                self.budget -= 1
                self.close_conn(w)
                self.end_process(w, rng.choice(["die", "die", "sysexit"]))
        elif r < 0.5:
            if self.budget > 0 and w.state == "holding":
                self.budget -= 1
                self.break_stream(w.n)
        elif r < 0.6:
            if self.budget > 0 and w.stream is not None and w.state == "waiting":
                self.budget -= 1
                w.stream.fail_next = True
        elif r < 0.72:
            # duplicate return
            if w.last is not None:
                self.lie(w, w.last)
        else:
            # return of a block that somebody else holds or held
            others = [x for x in self.workers if x is not w and (x.block or x.last)]
            near = [x for x in others if x.task_id == w.task_id]
            others = near if near and rng.random() < .8 else others
            if others:
                x = rng.choice(others)
                b = x.block or x.last
                if rng.random() < .4 and self.budget > 0 and x.state == "holding" and self.lie(w, b, now=True):
                    # right after the one who holds it has disappeared
                    self.budget -= 1
                    self.close_conn(x)
                    if rng.random() < .7:
                        self.end_process(x, "die")
                    else:
                        x.state = "orphan"
                    self.urgent = w
                else:
                    self.lie(w, b)

    def lie(self, w, block, now=False):
        """w claims to return a block that it does not hold."""
        if w.stream is None or w.stream._closed:
            return False
        b = roundtrip(block)
        b.status = self.rng.choice([BlockStatus.SUCCESS, BlockStatus.FAILED])
        ok = b.status == BlockStatus.SUCCESS
        n = self.bnum(b)
        if not ok and w.context is not None and self.rng.random() < .5:
            self.deliver(w, BlockFailed(ValueError("failed"), b, w.context), "fail", n, False)
        else:
            self.deliver(w, ReleaseBlock(b), "rel", n, ok)
        if now:
            w.inbox.insert(0, w.inbox.pop())
        return True

    # -- the server's only source of events
    def get_message(self, timeout):
        rng = self.rng
        self.rounds += 1
        if self.rounds > self.limit and not self.hang:
            self.ev("stuck", k="limit")
            self.stuck = self.hang = True
            self.server.stop_event.set()
            self.stopped = self.rounds
        if self.stopped is not None and self.rounds > self.stopped + 40:
            raise HangError("the server does not stop")
        self.ev("round")
        if self.script:
            return self.scripted(timeout)
        fair = self.rounds > self.random_rounds
        n0 = len(self.events)
        acts = 0
        while acts < 4 and rng.random() < (0.5 if fair else self.chatter):
            acts += 1
            live = [w for w in self.workers if w.proc.is_alive()
                    and w.state in ("new", "idle", "holding", "told", "leaving", "orphan")]
            if not fair and rng.random() < 0.25:
                self.adversary()
            elif live:
                self.act(rng.choice(live), fair)
        self.inject()
        Clock.now += 0.0005
        if self.errors and not self.urgent:      # what arrived before is handled before
            e = self.errors.pop(0)
            self.ev("in", k="closed")
            raise e
        boxes = [w for w in self.workers if w.inbox]
        if boxes and (fair or self.urgent or rng.random() < 0.8):
            w = self.urgent or rng.choice(boxes)
            self.urgent = None
            message, k, b, ok = w.inbox.pop(0)
            self.ev("in", w=w.n, k=k, b=b, ok=ok, t=self.world.tnum.get(w.task_id, 0))
            self.quiet = 0
            return message
        Clock.now += timeout or 0.1
        self.ev("in", k="none")
        # nothing left that could happen?
        live = [w for w in self.workers if w.proc.is_alive()
                and w.state in ("new", "idle", "holding", "told", "leaving", "orphan")]
        if not live and not boxes:
            self.quiet += 1
            if self.quiet > 60 and not self.hang:
                self.ev("stuck", k="quiet")
                self.stuck = self.hang = True
                self.server.stop_event.set()
                self.stopped = self.rounds
        else:
            self.quiet = 0
        return None

    def scripted(self, timeout):
        """One round of a history of the model."""
        Clock.now += 0.0005
        if self.errors:
            self.ev("in", k="closed")
            raise self.errors.pop(0)
        while self.script:
            x = self.script.pop(0)
            op = x["op"]
            w = self.workers[x["w"] - 1] if 0 < x["w"] <= len(self.workers) else None
            if op == "idle":
                break
            if w is None:
                continue
            alive = w.proc.is_alive()
            if op == "handle":
                if w.inbox:
                    message, k, b, ok = w.inbox.pop(0)
                    self.ev("in", w=w.n, k=k, b=b, ok=ok, t=self.world.tnum.get(w.task_id, 0))
                    return message
                break
            if not alive:
                continue
            if op == "act" and w.state in ("new", "idle", "orphan"):
                self.act(w, True)
            elif op == "finish" and w.state == "holding":
                self.pf = 0.0 if x["ok"] else 1.1
                self.act(w, True)
            elif op == "leave" and w.state == "told":
                self.act(w, True)
                self.act(w, True)
            elif op == "crash":
                self.close_conn(w)
                self.end_process(w, self.rng.choice(["die", "sysexit"]))
                if self.rng.random() < 0.5:
                    w.inbox = w.inbox[:self.rng.randint(0, len(w.inbox))]
            elif op == "drop" and w.state == "holding":
                self.break_stream(w.n)
        Clock.now += timeout or 0.1
        self.ev("in", k="none")
        return None

    def inject(self):
        """Ends of a run other than completion, and mass crashes."""
        p = self.plans
        if self.rounds in self.mass:
            for w in list(self.workers):
                if w.state not in ("gone", "new") and w.proc.is_alive() and self.rng.random() < .9:
                    self.close_conn(w)
                    self.end_process(w, self.rng.choice(["die", "die", "sysexit"]))
        if p.get("at") == self.rounds:
            k = p["what"]
            if k == "stop":
                self.ev("stop")
                self.stopped = self.rounds
                self.server.stop_event.set()
            elif k in ("worker_error", "worker_errors", "stop_error"):
                live = [w for w in self.workers if w.proc.is_alive() and w.state != "gone"]
                self.rng.shuffle(live)
                for w in live[:1 if k == "worker_error" else self.rng.choice([1, 2, 3, 9])]:
                    self.close_conn(w)
                    self.end_process(w, self.rng.choice(["raise", "raise_odd"]))
                    self.ev("inject", k="error")
                    self.injected = True
                if k == "stop_error":
                    self.ev("stop")
                    self.stopped = self.rounds
                    self.server.stop_event.set()
            elif k == "net_error":
                self.ev("inject", k="error")
                self.injected = True
                raise raised(self.rng)
            elif k == "bad_message":
                live = [w for w in self.workers if w.stream is not None and not w.stream._closed]
                if live:
                    w = self.rng.choice(live)
                    m = Message()
                    m.stream = w.stream
                    w.inbox.insert(0, (m, "bad", 0, False))
            elif k == "client_error":
                live = [w for w in self.workers if w.stream is not None and not w.stream._closed]
                if live:
                    w = self.rng.choice(live)
                    m = roundtrip(ClientException(raised(self.rng), w.context))
                    m.stream = w.stream
                    w.inbox.insert(0, (m, "bad", 0, False))

    def on_note(self, k):
        if self.plans.get("what") == "observer" and self.plans.get("note") == k:
            self.plans = {}
            self.ev("inject", k="error")
            self.injected = True
            raise raised(self.rng)

    # -- running
    def build(self):
        def init(s):
            t = len(self.built) + 1
            self.built.append(s)
            def cb(context):
                ok = (context["task_id"] == s.tid and str(context["port"]) == "12345")
                self.ev("init", t=t, ok=ok)
                if self.plans.get("what") == "init" and self.plans.get("task") == t:
                    self.ev("inject", k="error")
                    self.injected = True
                    raise raised(self.rng)
            return cb
        self.built = []
        tasks = []
        for s in self.specs:
            tasks.append(self.one_task(s, tasks, init(s)))
        self.world = World(self.specs, tasks)
        self.tasks = tasks
        self.task_by_id = {t.task_id: t for t in tasks}
        for b in self.world.blocks:
            if self.done_at is not None:
                at = [self.world.tnum[b.task_id], [x - o for x, o in zip(b.write_roi.begin, self.world.base)]]
                self.plan.res[b.block_id] = [1 if at in self.done_at else 0] * MAXATT
            self.plan.results(b.block_id)
        return tasks

    def one_task(self, s, tasks, cb):
        t = build([s_without_ups(s)], process_function=sim_spawn,
                  check=self.plan.function)[0]
        t.upstream_tasks.extend(tasks[u] for u in s.ups)
        t.init_callback_fn = cb
        return t

    def serve(self, tasks, sch, monitor):
        self.server = Server()
        if monitor:
            CLMonitor(self.server)
        observe(self)
        return self.server.run_blockwise(tasks, scheduler=sch)

    def run(self, monitor=False):
        self.monitor = monitor
        Sim.current = self
        tasks = self.build()
        nb = len(self.world.blocks)
        work = sum((self.specs[t].maxr + 1) * sum(1 for b in self.world.blocks
                                                 if self.world.tnum[b.task_id] == t + 1)
                   for t in range(len(self.specs)))
        self.limit = self.random_rounds + 400 + 80 * (work + self.budget + sum((s.nw or 1) for s in self.specs))
        RecScheduler.sim = self
        end = {"exc": "", "cnt": []}
        states = None
        self.server = None
        self.stdout = io.StringIO()
        try:
          with captured(self.stdout):
            sch = RecScheduler(tasks)
            states = self.serve(tasks, sch, monitor)
        except HangError as e:
            end["exc"] = "hang"
        except SimKilled:
            raise
        except MachineryError:
            raise
        except Exception as e:
            end["exc"] = type(e).__name__
            self.exc = e
        self.ended = True
        cnt = []
        if states is not None:
            cnt = counters(states, tasks)
        live = [w.n for w in self.workers if w.proc.is_alive()]
        opens = [w.n for w in self.workers if w.stream is not None and not w.stream._closed]
        self.ev("end", k=end["exc"], cnt=cnt, ok=states is not None)
        for w in self.workers:
            if w.proc.is_alive():
                w.proc._kill(-9)
        nsum, summ = (parse_summary(self.stdout.getvalue(), self.world.tnum, self.world.num,
                                    self.by_worker_id) if monitor else (0, []))
        self.final = {"live": live, "open": opens, "exc": end["exc"], "mon": bool(monitor),
                      "nsum": nsum, "sum": summ}
        return states

    def trace(self):
        return {"world": self.world.rec(),
                "chk": [self.plan.results(b.block_id) for b in self.world.blocks],
                "nproc": max(1, len(self.workers)), "live": self.final["live"],
                "open": self.final["open"], "exc": self.final["exc"],
                "mon": self.final["mon"], "nsum": self.final["nsum"], "sum": self.final["sum"],
                "wit": [{"notes": w.notes, "gone": w.gone, "n": w.leaves} for w in getattr(self, "wit", [])],
                "events": self.events}


def s_without_ups(s):
    t = TaskSpec(**s.describe())
    t.ups = []
    return t


END_PLANS = ["stop", "worker_error", "worker_errors", "worker_errors", "stop_error", "net_error", "bad_message", "client_error", "observer", "init"]


def server_replay(rng, hist):
    from schedrun import specs_of
    specs = specs_of(hist["tasks"])
    chk = hist["chk"]
    sim = ServerSim(specs, rng, chkmode="some" if chk else "none", crashes=0)
    sim.done_at = [[t, list(p)] for t, p in chk]
    sim.random_rounds = 0
    sim.lies = False
    sim.script = list(hist["m"])
    sim.run()
    meta = {"specs": [s.describe() for s in specs], "check": sorted(chk), "rounds": sim.rounds,
            "exc": sim.final["exc"], "stuck": sim.stuck, "left": len(sim.script)}
    return sim.trace(), meta


def crowd_case(rng, params):
    """Many workers, all of which may die at once."""
    nb = rng.randint(12, 30)
    d2 = rng.random() < .4
    specs = [TaskSpec(tid="t0", beg=[0, 0] if d2 else [0], tot=[nb // 3, 3] if d2 else [nb],
                      w=[1, 1] if d2 else [1], c0=[0, 0] if d2 else [0], c1=[0, 0] if d2 else [0],
                      roff=[0, 0] if d2 else [0], fit="valid", conf=rng.random() < .5, maxr=rng.choice([0, 1, 2]),
                      ups=[], nw=rng.randint(9, 14), base=[0, 0] if d2 else [0])]
    if rng.random() < .4:
        s = TaskSpec(**specs[0].describe())
        s.tid, s.ups, s.nw = "t1", rng.choice([[], [0]]), rng.randint(2, 12)
        specs.append(s)
    sim = ServerSim(specs, rng, crashes=0)
    sim.random_rounds = rng.choice([60, 150])
    sim.mass = {rng.randint(15, 80) for _ in range(rng.choice([1, 1, 2, 3]))}
    if rng.random() < .6:
        sim.slow, sim.chatter = True, .8
    sim.run(monitor=rng.random() < 0.5)
    return sim.trace(), {"specs": [s.describe() for s in specs], "mass": sorted(sim.mass),
                         "rounds": sim.rounds, "exc": sim.final["exc"], "stuck": sim.stuck}


def tasks_case(rng, params):
    """Many tasks that are ready at once."""
    n = rng.randint(5, 12)
    specs = rand_world(rng, maxblocks=4 * n, maxtasks=n, ntasks=n, dims=1)
    shape = rng.choice(["free", "free", "fan", "random"])
    for j, s in enumerate(specs):
        s.ups = [] if shape == "free" else ([0] if j else []) if shape == "fan" else s.ups
        s.nw, s.maxr = rng.choice([1, 1, 2, 4]), rng.choice([0, 1])
    sim = ServerSim(specs, rng, crashes=rng.choice([0, 0, 2]))
    sim.run(monitor=rng.random() < 0.5)
    return sim.trace(), {"specs": [s.describe() for s in specs], "rounds": sim.rounds, "exc": sim.final["exc"],
                         "stuck": sim.stuck}


def failures_case(rng, params):
    """More failures than the summary lists."""
    nb, mr = rng.choice([(30, 5), (40, 4), (24, 8), (64, 2), (64, 2), (64, 2), (110, 0)])
    d, tot = (6, rng.choice([[2] * 6, [1] * 5 + [64]])) if nb == 64 else (1, [nb])      # blocks with large numbers
    specs = [TaskSpec(tid="t0", beg=[0] * d, tot=tot, w=[1] * d, c0=[0] * d, c1=[0] * d, roff=[0] * d, fit="valid",
                      conf=False, maxr=mr, ups=[], nw=rng.randint(1, 3), base=[0] * d)]
    sim = ServerSim(specs, rng, crashes=0)
    sim.pf = rng.choice([1.1, 1.1, 0.9])
    sim.preport = 1.0
    sim.lies = False
    sim.random_rounds = 0
    sim.run(monitor=True)
    return sim.trace(), {"specs": [s.describe() for s in specs], "exc": sim.final["exc"], "stuck": sim.stuck}


def server_case(rng, params, i):
    if params.get("crowd"):
        return (crowd_case, tasks_case, crowd_case, failures_case)[i % 4](rng, params)
    mb = params.get("maxblocks", 9)
    specs = rand_world(rng, maxblocks=mb, maxtasks=3, dims=rng.choice([1, 1, 1, 2]))
    for s in specs:
        s.nw = rng.choice([1, 1, 2, 3])
        s.maxr = rng.choice([0, 0, 1, 1, 2])
    chk = rng.choice(["none", "none", "none", "some", "most", "pair", "all"])
    sim = ServerSim(specs, rng, chkmode=chk)
    ends = params.get("ends", 0.3)
    if rng.random() < ends:
        what = rng.choice(END_PLANS)
        sim.plans = {"what": what, "at": rng.randint(1, rng.choice([5, 40, 120])),
                     "note": rng.choice(["start", "acquire", "release", "done", "failure"]),
                     "task": rng.randint(1, len(specs))}
    plan = dict(sim.plans)
    sim.run(monitor=rng.random() < 0.5)
    meta = {"specs": [s.describe() for s in specs], "check": chk, "rounds": sim.rounds,
            "plan": plan, "exc": sim.final["exc"], "stuck": sim.stuck}
    if sim.final["exc"]:
        meta["excrepr"] = repr(getattr(sim, "exc", ""))[:300]
    return sim.trace(), meta
