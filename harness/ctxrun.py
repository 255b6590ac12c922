"""Uses daisy's contexts and records what they contain."""
import os, subprocess, tempfile
from common import *
from world import *
import daisy.logging
from daisy import Context

CHARS = list("ab1 /._-") + ["=", ":", "%", "=", ":", "%", "%3A", "é", "\u4e2d", "\n", "\t", "+", "&", ",", "\\", "'", '"', "#", ";"]
PLAIN = list("abc1/._-")


def text(rng, odd=0.5, empty=True):
    n = rng.randint(0 if empty and rng.random() < .2 else 1, 8)
    pool = CHARS if rng.random() < odd else PLAIN
    return "".join(rng.choice(pool) for _ in range(n))


def context_case(rng, params):
    events = []
    ctxs = {}
    keys = {"logdir"}
    meta = {}

    def ev(op, x=0, y=0, k="", v="", kv=(), ok=True):
        events.append({"op": op, "x": x, "y": y, "k": k, "v": v, "kv": [list(e) for e in kv], "ok": bool(ok)})

    def read(x):
        c = ctxs[x]
        kv, ok = [], True
        for k in sorted(keys) + ["no such key"]:
            g = c.get(k, None)
            g2 = c.get(k, "default")
            if g is None:
                if g2 is None:
                    kv.append((k, str(g)))      # the value is None
                continue
            try:
                ok = ok and c[k] == g and g2 == g
            except ANY:
                ok = False
            kv.append((k, str(g)))
        ev("read", x=x, kv=kv, ok=ok)

    def create(x):
        base = rng.choice([None, "./daisy_logs", text(rng, empty=False), "/tmp/" + text(rng, empty=False)])
        daisy.logging.set_log_basedir(base)
        kw = {}
        if rng.random() < 0.7:
            kw.update(hostname=rng.choice(["127.0.0.1", "host", "::1", "fe80::1%eth0"]),
                      port=rng.choice([0, 80, 65535, 12345]), task_id=text(rng), worker_id=rng.randint(0, 10**6))
        for _ in range(rng.randint(0, 3)):
            kw[text(rng, 0.3)] = rng.choice([text(rng), rng.randint(-5, 5), 1.5, None, True])
        kw.pop("logdir", None)
        keys.update(kw)
        ctxs[x] = Context(**kw)
        ld = daisy.logging.get_log_basedir()
        ev("new", x=x, kv=[(k, str(v)) for k, v in kw.items()] + [("logdir", str(ld))])

    create(1)
    n = 1
    for _ in range(rng.randint(2, 10)):
        x = rng.choice(sorted(ctxs))
        op = rng.choice(["set", "set", "copy", "env", "env", "read", "new"])
        if op == "new":
            n += 1
            create(n)
        elif op == "set":
            k = rng.choice(sorted(keys)) if rng.random() < .5 else text(rng, 0.4)
            v = rng.choice([text(rng), rng.randint(0, 99), text(rng, 0)])
            keys.add(k)
            try:
                ctxs[x][k] = v
                ok = True
            except Exception:
                ok = False
            ev("set", x=x, k=k, v=str(v), ok=ok)
        elif op == "copy":
            n += 1
            ctxs[n] = ctxs[x].copy()
            ev("copy", x=x, y=n)
        elif op == "env":
            # the reader has another default for the log directory
            n += 1
            try:
                env = ctxs[x].to_env()
                old = daisy.logging.get_log_basedir()
                daisy.logging.set_log_basedir(rng.choice([None, "elsewhere"]))
                os.environ[Context.ENV_VARIABLE] = env
                ctxs[n] = Context.from_env()
                daisy.logging.set_log_basedir(old)
                ok = True
            except ANY as e:
                ok = False
                meta["excrepr"] = repr(e)[:300]
            ev("env", x=x, y=n, ok=ok)
            if not ok:
                break
        read(x)
        if n in ctxs:
            read(n)
    for x in sorted(ctxs):
        read(x)
    daisy.logging.set_log_basedir(None)
    return {"events": events}, meta


def worker_case(rng, params):
    """A real worker process: which context it gets, and where its output goes."""
    import shutil
    from daisy.worker import Worker
    top = tempfile.mkdtemp(prefix="verif_ctx_")
    try:
        def name():
            return text(rng, 0.7, empty=False).replace("/", "x").replace("\n", "y").strip(" .") or "z"
        base = os.path.join(top, name(), name())
        task_id = rng.choice(["t", "task 1", name()])
        daisy.logging.set_log_basedir(base)
        ctx = Context(hostname="127.0.0.1", port=rng.randint(1, 65535), task_id=task_id)
        mark = "mark %d" % rng.randint(0, 10**9)
        names = ("hostname", "port", "task_id", "worker_id", "logdir")

        def spawn():
            c = Context.from_env()
            n = 0
            while os.path.exists(os.path.join(top, "seen.%d.%d" % (os.getpid(), n))):
                n += 1
            with open(os.path.join(top, "seen.%d.%d" % (os.getpid(), n)), "w") as f:
                for k in names:
                    f.write(str(c.get(k, "?")).replace("\n", "\\n") + "\n")
            print(mark, flush=True)
        e = dict(x=1, y=1, k="", v="", kv=[], ok=True)
        events = []
        before = ctx.to_env()

        def over(w):
            """What the worker saw, after it ended."""
            pid = w.process.pid
            w.process.join(100)
            w.stop()
            fs = [f for f in os.listdir(top) if f.startswith("seen.%d." % pid)]
            got = open(os.path.join(top, fs[0])).read().split("\n")[:-1] if len(fs) == 1 else ["?"] * 5
            for f in fs:
                os.remove(os.path.join(top, f))
            want = (ctx["hostname"], ctx["port"], task_id, w.worker_id, base)
            log = os.path.join(base, task_id, "worker_%s.out" % w.worker_id)
            try:
                with open(log) as f:
                    logged = mark in f.read()
                os.remove(log)
            except OSError:
                logged = False
            x = len(events) + 1
            events.append(dict(e, op="new", x=x, kv=[[k, str(v)] for k, v in zip(names, want)]))
            events.append(dict(e, op="read", x=x, kv=[[k, v] for k, v in zip(names, got)]))
            events.append(dict(e, op="logs", ok=logged))
        ws = [Worker(spawn, ctx) for _ in range(rng.choice([1, 1, 2, 3]))]
        for w in ws:
            over(w)
        if rng.random() < 0.4:
            # started once more
            w = rng.choice(ws)
            w.start()
            over(w)
        # the context that they were made from
        x = len(events) + 1
        events.append(dict(e, op="new", x=x, kv=[["env", before]]))
        events.append(dict(e, op="read", x=x, kv=[["env", ctx.to_env()]]))
        return {"events": events}, {"base": base, "task_id": task_id}
    finally:
        daisy.logging.set_log_basedir(None)
        shutil.rmtree(top, ignore_errors=True)
