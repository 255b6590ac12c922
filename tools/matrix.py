"""Runs checks against planted bugs, each in a scratch copy of /repo:
   matrix.py [--all] ID...   (default: the property's own check; --all: every
check).  Results are merged into seeded/RESULTS.json."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    allc = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not ids:
        ids = sorted(d for d in os.listdir(VERIF + "/seeded") if os.path.isdir(VERIF + "/seeded/" + d))
    checks = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    path = VERIF + "/tools/seed_results.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    for id in ids:
        meta = json.load(open("%s/seeded/%s/meta.json" % (VERIF, id)))
        tmp = tempfile.mkdtemp(prefix="mx_")
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        p = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (VERIF, id)], cwd=repo)
        if p.returncode:
            print(id, "PATCH DOES NOT APPLY"); continue
        out = {}
        for c in (checks if allc else [meta["property"]]):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp + "/ev", PYTHONPATH=repo)
            q = subprocess.run([sys.executable, VERIF + "/harness/check.py", c], env=env, cwd=VERIF,
                               capture_output=True, text=True)
            cl = [l.strip().split()[1] for l in q.stdout.splitlines() if l.strip().startswith("clause ")]
            out[c] = {"rc": q.returncode, "clauses": cl}
            if q.returncode not in (0, 1):
                out[c]["tail"] = q.stdout[-800:]
        shutil.rmtree(tmp, ignore_errors=True)
        r = res.setdefault(id, {"property": meta["property"], "checks": {}})
        r["checks"].update(out)
        own = out.get(meta["property"], {})
        print(id, meta["property"], "CAUGHT" if own.get("rc") == 1 else "MISSED(%s)" % own.get("rc"),
              {c: (o["rc"], o["clauses"], o.get("tail", "")) for c, o in out.items() if o["rc"]}, flush=True)
        json.dump(res, open(path, "w"), indent=1, sort_keys=True)


main()
