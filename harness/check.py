"""Decides one property: `check.py ID` (VERIF_TIER=quick|thorough, VERIF_SEED).

A check consists of parts: model checking of the specification, recordings of
the real code judged by the specification, and replays of behaviours that TLC
generated from the specification.  Exit 0: held; 1: violated (with a VIOLATION
line); 2: the machinery itself failed."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import parts as P

KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NPROC = 8


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = Scratch()
        self.states = self.transitions = self.traces = 0
        self.breakdown, self.samples, self.viol = [], [], []
        self.failure = None
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if tier == "quick" else 6 * 3600)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- model checking of the specification
    def mc(self, module, cfg, what, timeout=700, workers=None, extra=(), env=None, heap="8g"):
        r = model_check(module, cfg, self.scratch, timeout=timeout, workers=workers,
                        extra=extra, env=env, heap=heap)
        self.states += r.distinct
        self.transitions += r.generated
        self.breakdown.append({"part": "model checking", "spec": module + " / " + cfg,
                               "what": what, "distinct_states": r.distinct,
                               "generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    # -- recording
    def record(self, kind, n, params=None, seed=None, procs=NPROC, timeout=600):
        """Run recorders in parallel; returns list of {"trace", "meta"}."""
        params = dict(params or {})
        seed = self.seed if seed is None else seed
        n = max(n, 1)
        procs = min(procs, n)
        jobs = []
        out = self.scratch.sub("rec")
        tag = "%s_%d" % (kind, len(os.listdir(out)))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        for j in range(procs):
            share = n // procs + (1 if j < n % procs else 0)
            lo = j * (n // procs) + min(j, n % procs)
            path = os.path.join(out, "%s_%d.ndjson" % (tag, j))
            pp = dict(params, _lo=lo)
            cmd = [PY, os.path.join(VERIF, "harness", "rec.py"), kind,
                   str(seed), str(lo), str(share), path, json.dumps(pp)]
            err = open(path + ".err", "w")
            jobs.append((subprocess.Popen(cmd, stdout=err, stderr=subprocess.STDOUT, env=env,
                                          cwd=self.scratch.path, start_new_session=True), path))
        recs = []
        end = min(time.time() + timeout, self.deadline)
        fail = None
        for p, path in jobs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                rc = "timeout"
            kill_group(p)
            if not os.path.exists(path):
                if os.path.exists(path + ".part"):
                    # complete lines
                    with open(path + ".part") as f:
                        recs += [json.loads(x) for x in f if x.endswith("\n")]
                tail = open(path + ".err").read()[-3000:]
                fail = "recorder %s failed (%s):\n%s" % (kind, rc, tail)
                continue
            with open(path) as f:
                recs += [json.loads(x) for x in f]
        if fail:
            # what was recorded may show why
            self.failure = self.failure or fail
            if not recs:
                raise MachineryError(fail)
        return recs

    # -- judging
    def judge(self, module, recs, what, cfg="Trace.cfg", timeout=700):
        """Let TLC judge recordings against the specification."""
        for r in recs:
            if r.get("crash"):
                # the code under test raised where nothing may raise
                self.viol.append({"clause": self.pid + ".crash", "step": 0, "rec": r, "spec": module})
        good = [r for r in recs if not r.get("crash")]
        if not good:
            return
        try:
            verdicts, t = validate_traces(module, cfg, [r["trace"] for r in good], self.scratch,
                                          timeout=timeout)
        except OutsideSpec as e:
            if len(good) > 1:
                # some recording does something the specification has no value
                # for; find it
                k = len(good) // 2
                for part in (good[:k], good[k:]):
                    if len([v for v in self.viol if v["clause"].endswith("outside_spec")]) < 3:
                        self.judge(module, part, what, cfg, timeout)
                return
            self.viol.append({"clause": self.pid + ".outside_spec", "step": 0, "rec": good[0],
                              "spec": module})
            good[0]["meta"]["tlc"] = str(e)[-1500:]
            return
        self.states += t.distinct
        self.transitions += t.generated
        self.traces += len(good)
        self.breakdown.append({"part": "trace validation", "spec": module, "what": what,
                               "traces": len(good), "distinct_states": t.distinct,
                               "events": sum(P.length(r["trace"]) for r in good),
                               "wall_s": round(t.wall, 1)})
        self.samples += [{"spec": module, "meta": shorten(r["meta"]),
                          "trace": shorten(r["trace"])} for r in good[:1]]
        for i, r in enumerate(good):
            for clause, step in verdicts[i + 1]:
                if clause.endswith(".harness"):
                    raise MachineryError("recording broke the protocol: %s %s" % (clause, r["meta"]))
                if clause.startswith(self.pid + "."):
                    self.viol.append({"clause": clause, "step": step, "rec": r, "spec": module})

    def generated(self, module, cfg, what, timeout=600, **kw):
        """Histories that TLC prints as <<"GEN", json>>."""
        r = self.mc(module, cfg, what, timeout=timeout, **kw)
        return [json.loads(json.loads(m.group(1)))
                for m in re.finditer(r'"GEN",\s*("(?:[^"\\]|\\.)*")', r.out)]

    def finish(self):
        known = known_findings(self.pid)
        new, hit = [], {}
        for v in self.viol:
            k = next((k for k in known if v["clause"] == k["clause"]
                      and (k["case"] in ("*", v["rec"]["meta"].get("case", "")))), None)
            if k is not None:
                hit[k["text"]] = hit.get(k["text"], 0) + 1
            else:
                new.append(v)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        rdir = os.path.join(EVID, "replays")
        lines = []
        if new:
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for v in new:
                if v["clause"] in seen:
                    continue
                seen.add(v["clause"])
                path = os.path.join(rdir, "%s-%s.json" % (self.pid, v["clause"].split(".", 1)[1]))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "clause": v["clause"], "step": v["step"],
                               "spec": v["spec"], "tier": self.tier, "seed": self.seed,
                               "how": "python harness/check.py --replay " + path,
                               "meta": v["rec"]["meta"], "trace": v["rec"].get("trace")}, f,
                              indent=1, default=str)
                lines.append((v, path))
            for v, path in lines:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  clause %s at event %s, %s" % (v["clause"], v["step"],
                                                       json.dumps(shorten(v["rec"]["meta"]))[:600]))
            print("  (%d violations in all)" % len(new))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": P.LEVEL, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(new),
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "parts": self.breakdown, "samples": self.samples[:6]},
              "assumptions": P.ASSUME.get(self.pid, P.ASSUME["*"])}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.scratch.close()
        print("%s %s: %d traces, %d states, %.1f s" % (
            self.pid, "VIOLATED" if new else "held", self.traces, self.states, ev["wall_s"]))
        return 1 if new else 0


def kill_group(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def shorten(x, n=12):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    return x


def known_findings(pid):
    """Lines `known: property=ID clause=CLAUSE case=CASE text`; `fixed:` lines
    are a record only and suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) clause=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append({"clause": m.group(2), "case": m.group(3), "text": m.group(4)})
    return out


def replay(path):
    """Record the same case again and judge it."""
    v = json.load(open(path))
    m = v["meta"]
    sc = Run(v["property"], "quick", v["seed"])
    out = os.path.join(sc.scratch.path, "r.ndjson")
    subprocess.run([PY, os.path.join(VERIF, "harness", "rec.py"), m["kind"], str(m["base_seed"]),
                    str(m["i"]), "1", out, json.dumps(m["params"])], check=True)
    recs = [json.loads(x) for x in open(out)]
    sc.judge(v["spec"], recs, "replay")
    for x in sc.viol:
        print("reproduced: clause %s at event %s" % (x["clause"], x["step"]))
    if not sc.viol:
        print("not reproduced")
    sc.scratch.close()
    return 1 if sc.viol else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(pid, tier, seed)
    try:
        P.CHECKS[pid](run)
        if run.failure:
            raise MachineryError(run.failure)
        return run.finish()
    except MachineryError as e:
        print("MACHINERY ERROR in check %s: %s" % (pid, e))
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("MACHINERY ERROR in check %s" % pid)
    if run.viol:
        # what was found before the machinery failed still counts
        return run.finish()
    run.scratch.close()
    return 2


if __name__ == "__main__":
    sys.exit(main())
