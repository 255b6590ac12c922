"""Shared machinery of all checks: running TLC, collecting verdicts, evidence,
violations, known findings."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """Something is wrong with the check itself (never a verdict)."""


class HangError(BaseException):
    """Raised by the watchdog inside the code under test when it does not
    return (not an Exception, so that the code does not swallow it)."""


ANY = (Exception, HangError)


class PlannedError(Exception):
    """An exception class of the user's own."""


def raised(rng):
    """An exception as user functions may raise it."""
    return rng.choice([RuntimeError("planned"), ValueError("planned"), KeyError("planned"), OSError(2, "planned"),
                       PlannedError("planned"), ZeroDivisionError(), StopIteration(), AssertionError(),
                       NotImplementedError("planned"), EOFError(), AttributeError("planned"), TimeoutError(),
                       StopAsyncIteration(), MemoryError(), UnicodeError("planned"), Warning("planned")])


_wall, _cpu = time.monotonic, time.process_time


class Patience:
    """How long to wait for something that has to happen: long, because the
    machine may be busy; less long after it did not happen once (which will be
    reported anyway)."""
    def __init__(self, first, later):
        self.first, self.later, self.spent = first, later, False

    @property
    def limit(self):
        return self.later if self.spent else self.first

    def until(self):
        return _wall() + self.limit

    def over(self, end):
        if _wall() < end:
            return False
        self.spent = True
        return True


class watchdog:
    """Turns an endless loop or a deadlock in the code under test into an
    exception.  Judges by the processor time used, so that a busy machine does
    not matter: too much of it, or none at all for a long time."""
    fired = False

    def __init__(self, seconds, children=False):
        self.seconds, self.children = seconds, children

    def __enter__(self):
        import signal
        limit = max(8, self.seconds // 3) if watchdog.fired else self.seconds
        idle = 20 if watchdog.fired else 60
        w0, c0 = _wall(), _cpu()
        last = [w0, c0]          # when the process was last seen working

        def handler(*a):
            w, c = _wall(), _cpu()
            if c - last[1] > 0.05:
                last[:] = [w, c]
            if (c - c0 > limit or w - w0 > 600
                    or (not self.children and w - last[0] > idle)):
                watchdog.fired = True
                raise HangError("no answer after %d s (%d s of work)" % (w - w0, c - c0))
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, 2, 2)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Scratch:
    """A scratch directory that is removed at the end of the check."""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="daisyverif_")
    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p
    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


class TLCResult:
    pass


def run_tlc(module, cfg, scratch, env=None, workers=None, timeout=800, extra=(),
            heap="6g", name=None):
    """Run TLC, return a TLCResult with output, state counts and whether it
    finished without reporting an error."""
    name = name or (module + "_" + os.path.basename(cfg).replace(".cfg", ""))
    meta = scratch.sub("meta_" + name + "_%d" % len(os.listdir(scratch.path)))
    if workers is None:
        workers = os.cpu_count() or 4
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        rc = -1
    r = TLCResult()
    r.out, r.rc, r.wall = out, rc, time.time() - t0
    r.cmd = " ".join(cmd)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"(?:states generated|The number of states generated): ([\d,]+)", out)
        r.generated = int(m[-1].replace(",", "")) if m else 0
        r.distinct = 0
    r.ok = rc == 0
    shutil.rmtree(meta, ignore_errors=True)
    return r


def write_ndjson(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")


VERDICT = re.compile(r'^<<"VERDICT", (\d+), (.*)>>$')


def parse_verdicts(out, n):
    """Verdict lines are  <<"VERDICT", tid, {...}>>  with a set of clause names
    (or <<clause, step>> pairs); returns tid -> list of (clause, step)."""
    res = {}
    # TLC wraps long values over several lines
    text = re.sub(r"\n\s+", " ", out)
    for line in text.split("\n"):
        line = line.strip()
        m = re.match(r'^<<\s*"VERDICT",\s*(\d+),\s*(.*?)\s*>>$', line)
        if not m:
            continue
        tid = int(m.group(1))
        body = m.group(2)
        viol = []
        for c in re.finditer(r'<<\s*"([^"]*)",\s*(-?\d+)\s*>>|"([^"]*)"', body):
            if c.group(1) is not None:
                viol.append((c.group(1), int(c.group(2))))
            else:
                viol.append((c.group(3), 0))
        res[tid] = viol
    missing = [i for i in range(1, n + 1) if i not in res]
    return res, missing


class OutsideSpec(MachineryError):
    """A recording can not be evaluated by the specification."""


def validate_traces(module, cfg, traces, scratch, timeout=800, env=None, name=None,
                    heap="8g"):
    """Let TLC judge recorded traces. Returns (verdicts, TLCResult). Raises
    MachineryError if any trace did not get a verdict."""
    if not traces:
        raise MachineryError("no traces recorded for %s" % module)
    path = os.path.join(scratch.path, "%s_%d.ndjson" % (name or module, len(os.listdir(scratch.path))))
    write_ndjson(path, traces)
    e = {"TRACE_FILE": path}
    e.update(env or {})
    r = run_tlc(module, cfg, scratch, env=e, timeout=timeout, heap=heap)
    verdicts, missing = parse_verdicts(r.out, len(traces))
    if missing or not r.ok:
        tail = "\n".join(r.out.splitlines()[-60:])
        # evaluation errors (75, 76) come from what was recorded
        kind = OutsideSpec if r.rc in (75, 76) else MachineryError
        raise kind("TLC gave no verdict on %d of %d traces of %s (rc %s):\n%s"
                             % (len(missing), len(traces), module, r.rc, tail))
    r.trace_file = path
    return verdicts, r


def model_check(module, cfg, scratch, timeout=800, extra=(), heap="8g", workers=None, env=None):
    """Check the specification itself; an error there is a defect of the
    specification (or its bounds), not of the code under test."""
    r = run_tlc(module, cfg, scratch, timeout=timeout, extra=extra, heap=heap,
                workers=workers, env=env)
    if not r.ok:
        raise MachineryError("model checking %s/%s failed (rc %s):\n%s"
                             % (module, cfg, r.rc, "\n".join(r.out.splitlines()[-60:])))
    return r
