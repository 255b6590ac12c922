"""Makes and confirms planted bugs.  A definition file calls
   seed(id, property, edits=[(file, old, new), ...], demo=python source, needs=..., breaks=...)
Everything happens in scratch copies of /repo; what is confirmed (tests pass
with the change, the demonstration passes without and fails with it) is kept as
seeded/<id>/.   usage: mkseed.py DEFS.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def run(cmd, cwd, timeout=280):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("VERIF_REPO", None)
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass


def make(id):
    s = SEEDS[id]
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        with open(d + "/demo.py", "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].strip("\n") + "\n")
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec timeout 250 %s "$(dirname "$0")/demo.py"\n' % PY)
        rc0, out0 = run(["bash", d + "/demo.sh"], repo)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            src = open(p).read()
            if src.count(old) != 1:
                return id, "edit of %s matches %d times: %r" % (f, src.count(old), old[:60])
            open(p, "w").write(src.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        rc1, out1 = run(["bash", d + "/demo.sh"], repo)
        rct, outt = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider",
                         "--timeout=60", "--basetemp=" + tmp + "/bt", "-x"], repo)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        if rc0 != 0:
            return id, "demo fails on the unchanged tree: %s\n%s" % (rc0, out0[-1500:])
        if rc1 == 0:
            return id, "demo passes with the change"
        if rct != 0:
            return id, "tests fail with the change: %s" % outt[-400:]
        dst = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return id, "ok (demo %s; %s)" % (rc1, (out1.strip().splitlines() or [""])[-1][:150])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    ids = sys.argv[2:] or list(SEEDS)
    with cf.ThreadPoolExecutor(4) as ex:
        for id, msg in ex.map(make, ids):
            print(id, msg, flush=True)
