"""Real worker processes that write to their output streams in all ways, and
where that output is found."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from common import *
from world import *
import daisy.logging
from daisy import Context
from daisy.worker import Worker
from daisy.worker_pool import WorkerPool


WAIT = Patience(100, 15)


def number(line):
    """The number of a line written by a worker (0: something else)."""
    return int(line[1:-1]) if line[:1] == "<" and line[-1:] == ">" and line[1:-1].isdigit() else 0


def lines_of(path):
    with open(path, errors="replace") as f:
        return [n for n in map(number, f.read().split("\n")) if n]


class Captured:
    """The output of this process (and of what inherits it), in files."""
    def __init__(self, top):
        self.names = [os.path.join(top, "own." + s) for s in ("out", "err")]

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        for fd, n in zip((1, 2), self.names):
            f = os.open(n, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(f, fd)
            os.close(f)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, s in zip((1, 2), self.saved):
            os.dup2(s, fd)
            os.close(s)


def log_case(rng, params, i):
    top = tempfile.mkdtemp(prefix="verif_log_")
    here = os.getcwd()
    server = None
    try:
        os.chdir(top)
        logged = rng.random() < 0.8
        base = os.path.join(top, *[rng.choice(["logs", "a b", "x.y", "ä=1:2"]) for _ in range(rng.randint(1, 3))])
        plans = os.path.join(top, "plans")
        os.mkdir(plans)
        ends = rng.choice([["return"], ["return", "raise", "exit", "kill", "wait"]])
        seed = rng.randrange(10**9)
        size = rng.choice([1, 1, 1, 40])
        # workers that connect to a server, and start workers of their own
        nested = rng.random() < 0.3
        if nested:
            from daisy.tcp import TCPServer
            server = TCPServer(host="127.0.0.1")
            address = dict(zip(("hostname", "port"), server.address))

        def inner():
            act()

        def outer():
            act(True)

        def act(top=False):
            import random
            c = Context.from_env()
            wid = int(c["worker_id"])
            r = random.Random(seed + wid)
            side = os.open(os.path.join(plans, str(wid)), os.O_WRONLY | os.O_CREAT | os.O_APPEND)

            def note(**k):
                os.write(side, (json.dumps(k) + "\n").encode())
            note(op="hello", task=c.get("task_id"))
            n = wid * 100000
            for _ in range(r.randint(0, 6)):
                s = r.choice(["out", "err"])
                how = r.choice(["print", "write", "fd", "child", "dunder", "many"])
                k = size * 10 if how == "many" else 1
                text = "".join("<%d>\n" % (n + j + 1) for j in range(k))
                f = sys.stdout if s == "out" else sys.stderr
                if how == "print":
                    print(text, end="", file=f, flush=True)
                elif how in ("write", "many"):
                    f.write(text)
                    f.flush()
                elif how == "dunder":
                    g = sys.__stdout__ if s == "out" else sys.__stderr__
                    g.write(text)
                    g.flush()
                elif how == "fd":
                    os.write(1 if s == "out" else 2, text.encode())
                else:
                    subprocess.call(["sh", "-c", "printf '%s'%s" % (text, " >&2" if s == "err" else "")])
                for j in range(k):
                    n += 1
                    note(op="w", s=s, n=n)
            if top:
                import daisy
                client = daisy.Client()
                p = WorkerPool(inner, Context(task_id="inner"))
                p.set_num_workers(1)
                for w in p.workers.values():
                    f = os.path.join(plans, str(w.worker_id))
                    end = WAIT.until()
                    while not (os.path.exists(f) and '"end"' in open(f).read()) and not WAIT.over(end):
                        time.sleep(0.005)
                    if '"wait"' not in open(f).read():
                        w.process.join(WAIT.limit)
                p.stop()
            how = r.choice(ends)
            if how in ("return", "raise") and r.random() < 0.5:
                # what is buffered is written when the process ends
                s = r.choice(["out", "err"])
                n += 1
                note(op="w", s=s, n=n)
                print("<%d>" % n, file=sys.stdout if s == "out" else sys.stderr)
            note(op="end", how=how)
            if how == "raise":
                raise r.choice([ValueError, OSError, FileNotFoundError, KeyError, EOFError, BrokenPipeError, SystemExit,
                                KeyboardInterrupt, MemoryError, RuntimeError])("planned")
            if how == "exit":
                os._exit(r.choice([0, 3]))
            if how == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if how == "wait":
                time.sleep(1000)

        want = 0
        with Captured(top) as cap:
            daisy.logging.set_log_basedir(base if logged else None)
            pools = []
            also = address if nested else {}
            ctxs = [Context(**also, task_id=rng.choice(["t%d" % t, "task %d" % t, "t.%d" % t])) if nested or rng.random() < .85 else Context()
                    for t in range(rng.randint(1, 3))]
            # files of an earlier run are no part of this one
            stale = {}
            if logged and rng.random() < 0.4:
                first = Worker.get_next_id() + 1
                for wid in range(first, first + 20):
                    for ctx in ctxs + [{"task_id": "inner"}] * nested:
                        d = os.path.join(base, *([ctx["task_id"]] if ctx.get("task_id") else []))
                        os.makedirs(d, exist_ok=True)
                        for s in ("out", "err"):
                            name = os.path.join(d, "worker_%d.%s" % (wid, s))
                            stale[name] = "".join("<%d>\n" % (wid * 100000 + 99990 + j) for j in range(rng.randint(1, 3)))
                            with open(name, "w") as f:
                                f.write(stale[name])
            # the directory of a worker is the one its context was made with
            moved = rng.random() < 0.25
            if moved:
                daisy.logging.set_log_basedir(rng.choice([None, os.path.join(top, "moved")]))
            for ctx in ctxs:
                p = WorkerPool(outer if nested else inner, ctx)
                n = rng.randint(1, 3)
                p.set_num_workers(n)
                want += n * (2 if nested else 1)
                pools.append(p)
            # what is set later is of no concern to workers that run already
            if rng.random() < 0.3:
                daisy.logging.set_log_basedir(os.path.join(top, "later"))
            end = WAIT.until()

            def finished():
                fs = os.listdir(plans)
                return len(fs) >= want and all('"end"' in open(os.path.join(plans, f)).read() for f in fs)
            while not finished() and not WAIT.over(end):
                time.sleep(0.005)
            # those that end by themselves
            for p in pools:
                for w in list(p.workers.values()):
                    f = os.path.join(plans, str(w.worker_id))
                    if w.process is not None and not (os.path.exists(f) and '"wait"' in open(f).read()):
                        w.process.join(WAIT.limit)
                p.stop()
        writes, ids = [], {}
        for f in sorted(os.listdir(plans), key=int):
            ids[int(f)] = (len(ids) + 1, None)
            for line in open(os.path.join(plans, f)):
                x = json.loads(line)
                if x["op"] == "hello":
                    ids[int(f)] = (ids[int(f)][0], x["task"])
                elif x["op"] == "w":
                    writes.append({"w": ids[int(f)][0], "s": x["s"], "n": x["n"]})
        places = {}
        for wid, (w, task) in ids.items():
            for s in ("out", "err"):
                places[os.path.join(base, *([task] if task else []), "worker_%d.%s" % (wid, s))] = (w, s)
        files = []
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                if p in cap.names or d == plans:
                    continue
                w, s = places.get(p, (0, "out"))
                if p in stale and not w:
                    with open(p) as g:
                        if g.read() == stale[p]:
                            continue
                files.append({"w": w, "s": s, "lines": lines_of(p)})
        own = {s: lines_of(n) for s, n in zip(("out", "err"), cap.names)}
        return ({"writes": writes, "files": files, "own": own, "logged": logged, "nw": len(ids),
                 "missing": want - len(ids)},
                {"base": base, "logged": logged, "ends": ends, "moved": moved, "stale": len(stale),
                 "nested": nested})
    finally:
        os.chdir(here)
        if server is not None:
            server.ioloop.add_callback(server.stop)
        daisy.logging.set_log_basedir(None)
        shutil.rmtree(top, ignore_errors=True)
