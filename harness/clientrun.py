"""Drives daisy's real Client (and the worker loop of tasks) against a scripted
server end of the connection."""
import os, pickle, time
import simtime
from simtime import Clock
time.sleep = simtime._vsleep
from common import *
from world import *
import daisy.logging
daisy.logging.set_log_basedir(None)
from daisy import Client, Context, BlockStatus, Block
from daisy.tcp import TCPClient, StreamClosedError
from daisy.tcp.exceptions import NotConnected
from daisy.messages import (AcquireBlock, ReleaseBlock, BlockFailed, SendBlock, RequestShutdown)


class Rig:
    current = None


class Odd(Exception):
    """Can neither be pickled nor restored."""
    def __init__(self, a, b):
        super().__init__("odd")
        self.f = lambda: a


def _init(self, host, port):
    self.stream = None
    Rig.current.opened(host, port)


def _send(self, m):
    Rig.current.send(m)


def _get(self, timeout=None):
    return Rig.current.get(timeout)


def _disconnect(self):
    Rig.current.disconnect()


def _connected(self):
    return Rig.current is not None and Rig.current.conn


TCPClient.__init__ = _init
TCPClient.send_message = _send
TCPClient.get_message = _get
TCPClient.disconnect = _disconnect
TCPClient.connected = _connected
TCPClient.__del__ = lambda self: None


class Rig1:
    def __init__(self, rng, script, loop):
        self.rng, self.script, self.loop = rng, list(script), loop
        self.raised = None
        self.events = []
        self.conn = False
        self.err = None             # next error of the connection
        self.polls = 0
        self.round = None           # the current entry of the script
        self.inbox = []
        self.open_round = False
        self.n = 0
        self.total = Roi((0,), (1000,))
        self.num, self.sent = {}, []
        self.worker = str(rng.randint(0, 10**6))
        self.task = rng.choice(["t", "task 1", "täsk"])
        self.addr = (rng.choice(["127.0.0.1", "localhost", "host.example"]), rng.randint(1024, 65535))
        self.context = Context(hostname=self.addr[0], port=self.addr[1], task_id=self.task,
                               worker_id=self.worker)

    def ev(self, op, b=0, k="", ok=True):
        self.events.append({"op": op, "b": b, "k": k, "ok": bool(ok)})
        if len(self.events) > 500:
            self.ev2 = True
            raise HangError("client does not stop")

    def opened(self, host, port):
        self.conn = True
        self.ev("open", ok=(host == self.addr[0] and port == self.addr[1]))

    def fail(self):
        """The server is gone: told once, not connected from then on."""
        if self.err is not None:
            e, self.err = self.err, None
            self.conn = False
            raise e
        if not self.conn:
            raise NotConnected()

    def send(self, m):
        m = pickle.loads(pickle.dumps(m))
        if isinstance(m, AcquireBlock):
            if self.loop and self.open_round:
                self.leave("")
            self.ev("ask", ok=m.task_id == self.task)
            self.open_round = True
            self.round = self.script.pop(0) if self.script else {"a": "shutdown", "u": ""}
            # sometimes it takes hours until the server answers
            self.polls = self.rng.choice([0, 0, 1, 3] * 40 + [1000, 40000])
            r = self.round
            if r["a"] == "closed":
                how = self.rng.choice(["before", "wait"])
                self.ev("answer", k="closed")
                self.err = StreamClosedError(*self.addr) if self.rng.random() < .7 else None
                if self.err is None:
                    self.conn = False
                if how == "before":
                    self.fail()
            return
        self.fail()
        if isinstance(m, BlockFailed):
            u = self.round["u"] if self.round else ""
            # an exception that can not be sent is replaced by its description
            want = None if u == "raise_odd" else type(self.raised)
            good = (m.block.status == BlockStatus.FAILED and str(m.context["worker_id"]) == self.worker
                    and m.context["task_id"] == self.task and isinstance(m.exception, Exception)
                    and (want is None or type(m.exception) is want))
            self.ev("report", b=self.idx(m.block), ok=good)
        elif isinstance(m, ReleaseBlock):
            st = {BlockStatus.SUCCESS: "success", BlockStatus.FAILED: "failed"}.get(m.block.status, "other")
            self.ev("return", b=self.idx(m.block), k=st)
        else:
            self.ev("other")

    def idx(self, b):
        i = self.num.get(getattr(b, "block_id", None))
        if i is None:
            return -1
        return i if same_rois(self.blocks[i - 1], b) else -2

    blocks = None

    def get(self, timeout):
        Clock.now += 0.1 if timeout is None else timeout
        if self.round is not None and self.round["a"] == "closed" and self.polls == 0:
            self.fail()
        if self.polls > 0:
            self.polls -= 1
            return None
        r = self.round
        if r is None:
            raise HangError("nothing was requested")
        if r.get("answered"):
            self.polls_after = getattr(self, "polls_after", 0) + 1
            if self.polls_after > 50:
                self.ev("hang")
                raise HangError("waits for a second answer")
            return None
        r["answered"] = True
        if r["a"] == "block" and r.get("again") and self.blocks:
            # the last one once more
            b = self.blocks[-1]
            self.sent.append(self.n)
            self.ev("answer", b=self.n, k="block")
            return pickle.loads(pickle.dumps(SendBlock(b)))
        if r["a"] == "block":
            self.n += 1
            self.sent.append(self.n)
            b = Block(self.total, Roi((self.n - 1,), (3,)), Roi((self.n,), (1,)), task_id=self.task)
            b.status = self.rng.choice([BlockStatus.CREATED, BlockStatus.PROCESSING, BlockStatus.FAILED])
            self.blocks = (self.blocks or []) + [b]
            self.num[b.block_id] = self.n
            self.ev("answer", b=self.n, k="block")
            return pickle.loads(pickle.dumps(SendBlock(b)))
        self.ev("answer", k="shutdown")
        return RequestShutdown()

    def disconnect(self):
        self.conn = False

    # -- the user's code
    def user(self, block):
        """What happens inside of the with statement."""
        i = 0 if block is None else self.idx(block)
        self.ev("yield", b=i)
        if block is None:
            self.ev("user", k="ok")
            return
        u = self.round["u"]
        if self.round.get("gone"):
            self.ev("gone")
            self.err = StreamClosedError(*self.addr)
        self.ev("user", k=u)
        if u.startswith("set_ok"):
            block.status = BlockStatus.SUCCESS
        if u.startswith("set_fail"):
            block.status = BlockStatus.FAILED
        if u.endswith("interrupt"):
            raise KeyboardInterrupt()
        if u == "exit":
            raise SystemExit(0)
        if u == "raise_odd":
            raise Odd(1, 2)
        if u.endswith("raise"):
            self.raised = raised(self.rng)
            raise self.raised

    def name(self, e):
        return "ValueError" if type(e) is type(self.raised) else type(e).__name__

    def leave(self, exc):
        self.ev("leave", k=exc)
        self.open_round = False


def manual(rig):
    """A loop as in the documentation."""
    client = Client(rig.context if rig.rng.random() < .5 else None)
    for _ in range(60):
        exc, stop = "", False
        try:
            with client.acquire_block() as block:
                rig.user(block)
                if block is None:
                    stop = True
        except HangError:
            raise
        except BaseException as e:
            exc = rig.name(e)
        rig.leave(exc)
        if stop or (exc and rig.round["a"] != "block") or not rig.conn:
            break
    # once more: nothing is offered any more
    if rig.rng.random() < 0.3 and not rig.conn:
        rig.script = [{"a": "closed", "u": ""}]
        exc = ""
        try:
            with client.acquire_block() as block:
                rig.user(block)
        except HangError:
            raise
        except BaseException as e:
            exc = rig.name(e)
        rig.leave(exc)


def looped(rig):
    """The loop that tasks run in their workers."""
    def process(block):
        rig.user(block)
    task = build([TaskSpec(tid=rig.task, beg=[0], tot=[4], w=[1], c0=[0], c1=[0], roff=[0], fit="valid",
                           conf=False, maxr=0, ups=[], nw=1, base=[0])], process_function=process)[0]
    exc = ""
    try:
        task.spawn_worker_function()
    except HangError:
        raise
    except BaseException as e:
        exc = rig.name(e)
    if rig.open_round:
        if rig.round["a"] != "block":
            if rig.events[-1]["op"] == "answer":
                rig.ev("yield", b=0)
                rig.ev("user", k="ok")
        rig.leave(exc)
    rig.ev("loopend")


OUTCOMES = ["ok", "ok", "ok", "set_ok", "set_fail", "raise", "raise_odd", "set_ok_raise", "set_fail_raise",
            "interrupt", "exit", "set_fail_interrupt"]


def client_case(rng, params, hist=None):
    loop = rng.random() < 0.4
    if hist:
        script = [dict(x) for x in hist["m"]]
    else:
        script = [{"a": "block", "u": rng.choice(OUTCOMES)} for _ in range(rng.randint(0, 12))]
        for x in script:
            x["again"] = rng.random() < 0.15
        if script and rng.random() < 0.15:
            script[-1]["gone"] = True
        script.append({"a": rng.choice(["shutdown", "closed"]), "u": ""})
    rig = Rig1(rng, script, loop)
    Rig.current = rig
    os.environ[Context.ENV_VARIABLE] = rig.context.to_env()
    meta = {"script": [dict(x) for x in script], "loop": loop}
    try:
        (looped if loop else manual)(rig)
    except HangError as e:
        rig.events.append({"op": "hang", "b": 0, "k": "", "ok": False})
        meta["excrepr"] = repr(e)
    Rig.current = None
    return {"events": rig.events}, meta
