"""Tasks with functions of all kinds: which are accepted, and how they are
called in workers."""
import simbase
from simbase import Sim
import functools, os
import clientrun
from clientrun import Rig, Rig1
from common import *
from world import *
import daisy.logging
from daisy import Context, Task
from daisy.worker import Worker
from daisy.serial_server import SerialServer
CALLS = []


def called(*a):
    CALLS.append(a)


def f0():
    called()


def f1(block):
    called(block)


def f2(block, more):
    called(block, more)


def f2k(block, more):
    called(block)


def f3(a, b, c):
    called(a, b, c)


class Thing:
    def m0(self):
        called()

    def m1(self, block):
        called(block)

    def m2(self, block, more):
        called(block, more)

    @staticmethod
    def s0():
        called()

    @staticmethod
    def s1(b):
        called(b)


class Call0:
    def __call__(self):
        called()


class Call1:
    def __call__(self, block):
        called(block)


def closures():
    x = []

    def c0():
        x.append(1)
        called()

    def c1(chunk):
        x.append(1)
        called(chunk)

    def c2(chunk, y):
        called(chunk, y)
    return c0, c1, c2


def kinds():
    t = Thing()
    c = closures()
    return [(0, f0), (1, f1), (2, f2), (3, f3), (0, t.m0), (1, t.m1), (2, t.m2), (0, Thing.s0), (1, t.s1),
            (0, lambda: called()), (1, lambda b: called(b)), (2, lambda a, b: called(a, b)),
            (1, lambda b=None: called(b)), (2, lambda a, b=3: called(a, b)), (1, functools.partial(f2k, more=3)),
            (1, lambda b, *, scale=2: called(b)), (2, lambda a=1, b=2: called(a, b)),
            (0, c[0]), (1, c[1]), (2, c[2]), (0, Call0()), (1, Call1())]


class Quiet:
    """Simulated processes, of which nothing is recorded."""
    def on_start(self, p):
        pass
    on_started = on_terminate = on_start

    def ignores_term(self, p):
        return False


def task_case(rng, params, i):
    n, f = rng.choice(kinds())
    spec = rand_world(rng, maxblocks=8, maxtasks=1)[0]
    CALLS.clear()
    runs, serial, kept, ran, nb = [], [], True, False, 0
    kw = dict(num_workers=rng.randint(1, 9), max_retries=rng.randint(0, 9), timeout=rng.choice([None, 5]),
              read_write_conflict=rng.random() < .5, fit=rng.choice(FITS))
    base = build([spec])[0]
    up = build([spec])[0]
    ups = [up]
    try:
        task = Task(spec.tid, base.total_roi, base.read_roi, base.write_roi, f, upstream_tasks=ups, **kw)
        ups.append(base)     # is of no concern to the task
        made = True
    except Exception:
        made = False
    if made:
        kept = (all(getattr(task, k) == v for k, v in kw.items()) and task.task_id == spec.tid
                and task.total_roi == base.total_roi and task.read_roi == base.read_roi
                and task.write_roi == base.write_roi and task.requires() == [up]
                and task.total_write_roi.begin == base.total_roi.begin + (base.write_roi.begin - base.read_roi.begin)
                and task.total_write_roi.end == base.total_roi.end - (base.read_roi.end - base.write_roi.end)
                and Task("x", base.total_roi, base.read_roi, base.write_roi, f).requires() == [])
        for _ in range(rng.randint(1, 2)):
            script = [{"a": "block", "u": "ok", "again": rng.random() < 0.2} for _ in range(rng.randint(0, 9))]
            script.append({"a": rng.choice(["shutdown", "closed"]), "u": ""})
            rig = Rig1(rng, script, True)
            Rig.current = rig
            CALLS.clear()
            exc = ""
            try:
                if rng.random() < 0.5:
                    # as in a worker process
                    Sim.current = Quiet()
                    w = Worker(task.spawn_worker_function, rig.context)
                    if w.process is not None and w.process.exitcode != 0:
                        exc = "exit %s" % w.process.exitcode
                else:
                    os.environ[Context.ENV_VARIABLE] = rig.context.to_env()
                    task.spawn_worker_function()
            except HangError:
                raise
            except ANY as e:
                exc = repr(e)[:200]
            calls = [0 if a == () else (rig.idx(a[0]) if len(a) == 1 else -1) for a in CALLS]
            runs.append({"sent": rig.sent, "calls": calls, "exc": exc})
            Rig.current = None
        if n == 1 and rng.random() < 0.5:
            ran = True
            task = Task(spec.tid, base.total_roi, base.read_roi, base.write_roi, f, **kw)
            world = World([spec], build([spec]))
            if kw["fit"] != spec.fit or kw["read_write_conflict"] != spec.conf:
                ran = False
            else:
                CALLS.clear()
                SerialServer().run_blockwise([task])
                nb = len(world.blocks)
                serial = [world.index(a[0]) if len(a) == 1 else -1 for a in CALLS]
    return ({"n": n, "made": made, "runs": runs, "kept": bool(kept), "serial": serial, "ran": ran, "nb": nb},
            {"kind": str(f), "n": n})
