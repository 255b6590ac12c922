"""Real runs with real worker processes, some of which are killed."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from common import *
from world import *
from summary import parse_summary

LONG = Patience(150, 30)     # without any progress
ALONE = Patience(60, 20)     # until workers notice that they are alone


def badlogs(top, s):
    """Number of failures (of the first ten) for which the summary does not
    name the log of the worker that had it."""
    n = abs(len(s["logs"]) - min(10, len(s["fails"])))
    for name, (b, _) in zip(s["logs"], s["fails"]):
        try:
            text = open(os.path.join(top, name + ".out")).read()
            open(os.path.join(top, name + ".err")).close()
        except OSError:
            n += 1
            continue
        if ("FAIL %d" % b) not in text.splitlines():
            n += 1
    return n


def left_over(group):
    """Processes of the group that still run."""
    n = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                st = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                if int(st[2]) == group and st[0] != "Z" and b"resource_tracker" not in open("/proc/%s/cmdline" % p, "rb").read():
                    n += 1
            except OSError:
                pass
    return n


def e2e_case(rng, params, i):
    specs = rand_world(rng, maxblocks=10, maxtasks=3, dims=rng.choice([1, 1, 2]))
    for s in specs:
        s.nw = rng.choice([1, 2, 2, 3, 4])
        s.maxr = rng.choice([0, 1, 1, 2])
    world = World(specs, build(specs))
    nb = len(world.blocks)
    kinds = rng.choice([["ok"], ["ok"] * 4 + ["mark"], ["ok"] * 2 + ["kill", "exit", "mark", "raise"],
                        ["ok"] * 3 + ["kill", "orphan"], ["ok", "raise"], ["ok", "ok", "leave"]])
    die = params.get("die") and rng.randint(1, 4)      # the process that serves is killed
    if die:
        kinds = [k for k in kinds if k != "orphan"]
    raised = {}
    raw = []
    for b in world.blocks:
        r = []
        for k in range(4):
            x = rng.choice(kinds)
            if x == "raise":
                # a worker is replaced if it raises too often
                raised[b.task_id] = raised.get(b.task_id, 0) + 1
                if raised[b.task_id] > 3:
                    x = "mark"
            r.append(x)
        raw.append(r)
    done = [b + 1 for b in range(nb) if rng.random() < .3] if rng.random() < .25 else []
    interrupt = params.get("interrupt") and rng.randint(1, 4)
    # the interrupt reaches another thread than the caller's, and no worker
    elsewhere = bool(interrupt) and rng.random() < .3
    if elsewhere:
        interrupt = 1
    plan = {"elsewhere": elsewhere, "specs": [s.describe() for s in specs], "raw": raw, "done": done,
            "nap": rng.choice([0, 0, .01, .05]) if not interrupt and not die else 600 if elsewhere else .2,
            "slow": rng.choice([0, .4, 1]) if die else rng.choice([0, 0, 0, .3]),
            "late": 0 if die or rng.random() < .7 else 45, "before": rng.random() < .2,
            "styles": [rng.choice(["fn", "spawn"]) for _ in specs],
            "mode": "run" if interrupt else rng.choice(["run", "server"]),
            "listed": [k for k in range(len(specs)) if rng.random() < .4]}
    top = tempfile.mkdtemp(prefix="verif_e2e_")
    p = None
    try:
        pj, log, out = (os.path.join(top, x) for x in ("plan.json", "log", "out"))
        json.dump(plan, open(pj, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        with open(os.path.join(top, "stdout"), "w") as so, open(os.path.join(top, "stderr"), "w") as se:
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, "harness", "e2erun.py"), pj, log, out],
                                 cwd=top, env=env, stdout=so, stderr=se, start_new_session=True)
        t0 = time.time()
        cut = seen = -1
        killed, left = False, 0
        stuck = False
        while p.poll() is None:
            time.sleep(0.02)
            if (interrupt or die) and cut < 0 and os.path.exists(log):
                n = sum(1 for x in open(log) if '"start"' in x)
                if n >= (interrupt or die):
                    cut = sum(1 for _ in open(log))
                    if die:
                        killed = True
                        p.kill()
                    else:
                        os.killpg(p.pid, signal.SIGINT)
            size = os.path.getsize(log) if os.path.exists(log) else 0
            if size != seen:
                seen, end = size, LONG.until()
            if LONG.over(end):
                stuck = True
                if os.environ.get("VERIF_DUMP"):
                    os.killpg(p.pid, signal.SIGUSR1)
                    time.sleep(2)
                    shutil.copytree(top, os.environ["VERIF_DUMP"] + os.path.basename(top))
                break
        if killed:
            end = ALONE.until()
            while left_over(p.pid) and not ALONE.over(end):
                time.sleep(0.1)
            left = left_over(p.pid)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        if killed:
            stuck = False
        elif not stuck and not os.path.exists(out):
            raise MachineryError("e2e run left no result: " + open(os.path.join(top, "stderr")).read()[-2000:])
        fin = {"res": -1, "exc": "killed" if killed else "stuck", "live": 0, "late": ""}
        if not stuck and not killed:
            fin = json.load(open(out))
        events, pids = [], {}
        if os.path.exists(log):
            for line in open(log):
                x = json.loads(line)
                events.append({"op": x["op"], "b": x["b"], "t": x["t"], "ok": x.get("ok", True),
                               "w": pids.setdefault(x["pid"], len(pids) + 1)})
        nsum, summ = parse_summary(open(os.path.join(top, "stdout")).read(), world.tnum, world.num, {}, logs=True)
        for s in summ:
            s["badlogs"] = badlogs(top, s) if fin["exc"] not in ("stuck", "killed") else 0
        trace = {"world": world.rec(), "done": done,
                 "raw": [[x == "ok" for x in r] for r in raw],
                 "told": [[x == "raise" for x in r] for r in raw],
                 "events": events, "res": fin["res"], "exc": fin["exc"], "live": fin["live"],
                 "left": left, "late": fin["late"],
                 "nsum": nsum, "sum": [{k: s[k] for k in ("t", "n", "c", "s", "f", "o", "all", "fails", "more", "badlogs")} for s in summ],
                 "cut": cut}
        return trace, {"plan": plan, "exc": fin["exc"], "tb": fin.get("tb", "")[-1500:], "wall": round(time.time() - t0, 1)}
    finally:
        if p is not None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(top, ignore_errors=True)
