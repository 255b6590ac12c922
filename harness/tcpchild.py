"""Messages, and the command loop of a process (or thread) with real TCP
clients."""
import hashlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import REPO
sys.path.insert(0, REPO)
import daisy
from daisy import Coordinate, Roi
from daisy.block import Block, BlockStatus
from daisy.context import Context
from daisy.messages import AcquireBlock, BlockFailed, ClientException, ReleaseBlock, RequestShutdown, SendBlock
from daisy.tcp import TCPClient, TCPMessage
import daisy.logging
daisy.logging.set_log_basedir(None)

_sleep = time.sleep


def quick_sleep(t):
    _sleep(min(t, 0.004))


class Picky(Exception):
    """Can be pickled but not restored."""
    def __init__(self, a, b):
        super().__init__("only one argument")


def odd_exception(kind):
    if kind == 0:
        class Local(Exception):
            pass
        return Local("x")
    if kind == 1:
        return Picky(1, 2)
    if kind == 2:
        return ValueError(lambda: 0)
    e = KeyError("x")
    e.handle = open(os.devnull)
    return e


def text(size, salt):
    s = ("%d,%d;" % (size, salt)) * (size // 8 + 1)
    return s[:size]


def build(sp):
    """A message from its description."""
    tag, ty, size = sp["tag"], sp["ty"], sp["size"]
    block = None
    if ty in ("SendBlock", "ReleaseBlock", "BlockFailed"):
        o = (sp["salt"] % 97 - 40, sp["salt"] % 13)
        block = Block(Roi((-100, -100), (10**9, 10**9)), Roi(o, (12, 12)), Roi((o[0] + 1, o[1] + 1), (10, 10)),
                      block_id=sp["salt"], task_id=tag)
        block.status = BlockStatus(sp["salt"] % 4) if False else list(BlockStatus)[sp["salt"] % len(list(BlockStatus))]
    if ty == "AcquireBlock":
        return AcquireBlock(tag + "|" + text(size, sp["salt"]))
    if ty == "RequestShutdown":
        m = RequestShutdown()
        m.payload = tag
        return m
    if ty == "SendBlock":
        return SendBlock(block)
    if ty == "ReleaseBlock":
        return ReleaseBlock(block)
    exc = odd_exception(sp["salt"] % 4) if "odd" in tag else RuntimeError(text(size, sp["salt"]), sp["salt"])
    ctx = Context(task_id=tag, worker_id=sp["salt"], hostname="h", port=1)
    if ty == "BlockFailed":
        return BlockFailed(exc, block, ctx)
    if ty == "ClientException":
        return ClientException(exc, ctx)
    data = bytes(size) if sp["salt"] % 2 else text(size, sp["salt"])
    return TCPMessage((tag, [data, {"salt": sp["salt"]}]))


def mutate(m):
    """What a sender might do to its objects after sending."""
    b = getattr(m, "block", None)
    if b is not None:
        b.status = BlockStatus.FAILED if b.status != BlockStatus.FAILED else BlockStatus.SUCCESS
    p = getattr(m, "payload", None)
    if isinstance(p, tuple):
        p[1].append("changed")


def tag_of(m):
    try:
        for x in (lambda: m.payload[0] if isinstance(m.payload, tuple) else m.payload,
                  lambda: m.task_id.split("|")[0], lambda: m.block.task_id, lambda: m.context["task_id"]):
            try:
                t = x()
                if isinstance(t, str):
                    return t
            except Exception:
                pass
    except Exception:
        pass
    return ""


def digest(m):
    """The content of a message as text."""
    out = [type(m).__name__, tag_of(m)]
    b = getattr(m, "block", None)
    if b is not None:
        out += [repr(b.block_id), repr(b.task_id), repr(b.read_roi), repr(b.write_roi), repr(b.status)]
    c = getattr(m, "context", None)
    if c is not None:
        out += [c.to_env()]
    if hasattr(m, "exception"):
        e = m.exception
        if "odd" in tag_of(m):
            out.append("exception" if isinstance(e, BaseException) else "none")
        else:
            out.append(type(e).__name__ + repr(e.args))
    if hasattr(m, "task_id"):
        out.append(m.task_id)
    if getattr(m, "payload", None) is not None:
        out.append(repr(m.payload))
    s = "\x00".join(out)
    return "%s %s %d %s" % (out[0], out[1], len(s), hashlib.md5(s.encode()).hexdigest()[:12])


class Host:
    """Runs commands on clients of one process."""
    def __init__(self):
        self.clients = {}

    def run(self, cmd):
        op, c = cmd[0], cmd[1]
        try:
            if op == "connect":
                self.clients[c] = TCPClient(cmd[2], cmd[3])
                return ("ok",)
            cl = self.clients[c]
            if op == "send":
                m = build(cmd[2])
                d = digest(m)
                try:
                    cl.send_message(m)
                except Exception as e:
                    return ("err", repr(e))
                if cmd[3]:
                    mutate(m)
                return ("ok", d)
            if op == "get":
                end = time.time() + cmd[2]
                while True:
                    m = cl.get_message(timeout=0.02)
                    if m is not None:
                        return ("msg", digest(m))
                    if time.time() > end:
                        return ("none",)
            if op == "leave":
                cl.disconnect()
                return ("ok",)
        except Exception as e:
            return ("err", repr(e))


def main(conn):
    time.sleep = quick_sleep
    h = Host()
    while True:
        try:
            cmd = conn.recv()
        except EOFError:
            os._exit(0)
        if cmd[0] == "exit":
            os._exit(0)
        if cmd[0] == "fork":
            # a child that knows nothing of the connections
            pid = os.fork()
            if pid == 0:
                conn.close()
                _sleep(300)
                os._exit(0)
            conn.send(("ok", pid))
            continue
        if cmd[0] == "reset":
            h = Host()
            conn.send(("ok",))
            continue
        conn.send(h.run(cmd))
