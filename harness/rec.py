"""Recorder: `rec.py KIND SEED LO N OUT [JSON-params]` runs the code under test
N times (cases LO..LO+N-1) and writes one line {"trace":..., "meta":...} per
run."""
import json, random, sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import HangError, REPO


def in_daisy(e):
    """Whether an exception was raised by (or below) the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    root = os.path.join(os.path.realpath(REPO), "daisy") + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in tb)


def main():
    kind, seed, lo, n, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    params = json.loads(sys.argv[6]) if len(sys.argv) > 6 else {}
    import recorders
    f = recorders.KINDS[kind]
    tmp = out + ".part"
    with open(tmp, "w") as fh:
        for i in range(lo, lo + n):
            s = (seed * 1000003 + i * 7919 + len(kind)) & 0x7FFFFFFF
            rng = random.Random(s)
            m = {"seed": s, "kind": kind, "base_seed": seed, "i": i, "params": params}
            try:
                trace, meta = f(rng, params, i)
                fh.write(json.dumps({"trace": trace, "meta": dict(meta, **m)}, default=str) + "\n")
            except (Exception, HangError) as e:
                if not in_daisy(e):
                    raise
                m["exc"] = repr(e)[:500]
                m["tb"] = traceback.format_exc()[-3000:]
                fh.write(json.dumps({"crash": True, "meta": m}) + "\n")
            fh.flush()
    os.rename(tmp, out)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
