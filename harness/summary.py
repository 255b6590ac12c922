"""Reads the execution summary that a run prints."""
import re


def parse_summary(text, tnum, num, by_worker_id, logs=False):
    """The execution summary as the specification talks about it."""
    out, cur, n = [], None, 0
    names = sorted(tnum, key=len, reverse=True)
    for line in text.splitlines():
        x = line.strip()
        if x == "Execution Summary":
            n += 1
        m = re.match(r"Task (.*):$", x)
        if m and n:
            cur = {"t": tnum.get(m.group(1), 0), "id": m.group(1), "n": -1, "c": -1, "s": -1,
                   "f": -1, "o": -1, "all": False, "fails": [], "more": 0, "logs": []}
            out.append(cur)
        if cur is None:
            continue
        m = re.match(r"num blocks\s*: (\d+)$", x)
        if m:
            cur["n"] = int(m.group(1))
        m = re.match(r"completed\s*\S*\s*: (\d+) \(skipped (\d+)\)$", x)
        if m:
            cur["c"], cur["s"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"failed\s*\S*\s*: (-?\d+)$", x)
        if m:
            cur["f"] = int(m.group(1))
        m = re.match(r"orphaned\s*\S*\s*: (-?\d+)$", x)
        if m:
            cur["o"] = int(m.group(1))
        m = re.match(r"block (\d+) in worker (\d+) with exception", x)
        if m:
            cur["fails"].append([num.get((cur["id"], int(m.group(1))), -1),
                                 by_worker_id.get(m.group(2), 0)])
        m = re.match(r"\(and (\d+) more\)", x)
        if m:
            cur["more"] = int(m.group(1))
        m = re.match(r"(.*)\.err / \.out$", x)
        if m:
            cur["logs"].append(m.group(1))
        if x == "all blocks processed successfully":
            cur["all"] = True
    for c in out:
        del c["id"]
        if not logs:
            del c["logs"]
    return n, out
