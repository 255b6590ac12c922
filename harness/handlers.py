"""Log handlers while real monitors are at work."""
import io, logging, os, re, shutil, tempfile
from common import *
from world import *
from daisy.cl_monitor import CLMonitor


class Terminal(io.StringIO):
    def isatty(self):
        return True


class Collector(logging.Handler):
    """A handler without a stream."""
    def __init__(self):
        super().__init__()
        self.text = ""

    def emit(self, record):
        self.text += self.format(record) + "\n"


class Odd(io.StringIO):
    """A stream that can not be asked whether it is a terminal."""
    isatty = None

    def __getattribute__(self, k):
        if k == "isatty":
            raise AttributeError(k)
        return super().__getattribute__(k)


def handler_case(rng, params, i):
    top = tempfile.mkdtemp(prefix="verif_hdl_")
    root = logging.root
    saved = root.handlers[:], root.level, logging.root.manager.disable
    LEVELS = [10, 20, 25, 30, 40, 50]
    out = []
    try:
        logging.disable(logging.NOTSET)
        root.setLevel(1)
        hs = []
        for k in range(rng.randint(1, 4)):
            kind = rng.choice(["tty", "tty", "tty", "plain", "odd", "file", "none"])
            if kind == "file":
                h = logging.FileHandler(os.path.join(top, "log%d" % k))
            elif kind == "none":
                h = Collector()
            else:
                h = logging.StreamHandler({"tty": Terminal, "plain": io.StringIO, "odd": Odd}[kind]())
            h.setFormatter(logging.Formatter(rng.choice(["%(message)s", "%(levelname)s [%(name)s] %(message)s"])))
            h.setLevel(rng.choice([0, 0, 10, 20, 30]))
            hs.append((kind, h))
        root.handlers[:] = [h for _, h in hs]
        ms, exc, excrepr = [], False, ""
        names = [logging.getLogger("verif.%d" % k) for k in range(3)] + [root]
        monitors = 0
        try:
            for _ in range(rng.randint(3, 25)):
                r = rng.random()
                if r < 0.15 and monitors < 40:
                    server = daisy.SerialServer()
                    for _ in range(rng.choice([1, 1, 1, 8])):
                        CLMonitor(server)
                        monitors += 1
                elif r < 0.25:
                    rng.choice(hs)[1].setLevel(rng.choice([0, 20, 30, 40]))
                else:
                    n = len(ms) + 1
                    v = rng.choice(LEVELS)
                    ms.append({"n": n, "level": v, "lv": [h.level for _, h in hs]})
                    lg = rng.choice(names)
                    if rng.random() < .2:
                        try:
                            raise ValueError("planned")
                        except ValueError:
                            lg.log(v, "<%d>", n, exc_info=True)
                    else:
                        lg.log(v, rng.choice(["<%d>", "a\nb <%d>", "100%% <%d>"]), n)
        except ANY as e:
            exc, excrepr = True, repr(e)[:300]
        seen = []
        for kind, h in hs:
            if kind == "file":
                h.close()
                text = open(h.baseFilename).read()
            else:
                text = h.text if kind == "none" else h.stream.getvalue()
            seen.append([int(x) for x in re.findall(r"<(\d+)>", text)])
        return ({"ms": ms, "seen": seen, "exc": exc},
                {"kinds": [k for k, _ in hs], "monitors": monitors, "excrepr": excrepr})
    finally:
        root.handlers[:] = saved[0]
        root.setLevel(saved[1])
        logging.disable(saved[2])
        shutil.rmtree(top, ignore_errors=True)
