"""Records what the region-expansion functions return."""
from common import *
from world import *
from daisy.blocks import expand_request_roi_to_grid


def grid_case(rng):
    d = rng.choice([1, 1, 2, 3, 4])
    big = rng.choice([5, 20, 1000, 4 * 10**5, 10**8])
    w = [rng.randint(1, rng.choice([3, 10, 64])) for _ in range(d)]
    c0 = [rng.randint(0, 8) for _ in range(d)]
    c1 = [rng.randint(0, 8) for _ in range(d)]
    roff = [rng.randint(-big, big) for _ in range(d)]
    base = [rng.randint(-big, big) for _ in range(d)]
    tot = [rng.randint(1, big) + a + b for a, b in zip(c0, c1)]
    total = Roi(base, tot)
    read = Roi(roff, [a + x + b for a, x, b in zip(c0, w, c1)])
    write = Roi([r + a for r, a in zip(roff, c0)], w)
    sb = [rng.randint(-2 * big, 2 * big) for _ in range(d)]
    sh = [rng.randint(1, big) for _ in range(d)]
    if rng.random() < 0.3:   # aligned begin, to hit the boundaries
        g = [b + a for b, a in zip(base, c0)]
        sb = [x + rng.randint(-3, 3) * y for x, y in zip(g, w)]
        if rng.random() < 0.5:
            sh = [rng.randint(1, 3) * y for y in w]
    if rng.random() < 0.12:  # nothing in some dimension
        k = rng.randrange(d)
        sh = [0 if i == k or rng.random() < .3 else x for i, x in enumerate(sh)]
    sub = Roi(sb, sh)
    # everything moved by a multiple of the grid: results move as well
    far = [0] * d
    if rng.random() < .4:
        far = [rng.choice([-1, 1]) * rng.randint(1, 10**rng.choice([3, 9, 15])) * x for x in w]
        sub = Roi([x + y for x, y in zip(sb, far)], sh)
        total = Roi([x + y for x, y in zip(base, far)], tot)
    exc = []
    def call(name, f):
        try:
            r = f()
            return {"b": [clamp(x - y) for x, y in zip(r.begin, far)], "e": [clamp(x - y) for x, y in zip(r.end, far)]}
        except ANY as e:
            exc.append(name)
            return {"b": [0] * d, "e": [0] * d}
    r1 = call("roi", lambda: daisy.expand_roi_to_grid(sub, total, read, write))
    r2 = call("write", lambda: daisy.expand_write_roi_to_grid(sub, write))
    r3 = call("request", lambda: expand_request_roi_to_grid(sub, total, read, write))
    def again(r, f):
        return call("again", lambda: f(Roi([b + y for b, y in zip(r["b"], far)],
                                            [e - b for b, e in zip(r["b"], r["e"])])))
    a1 = again(r1, lambda x: daisy.expand_roi_to_grid(x, total, read, write))
    a2 = again(r2, lambda x: daisy.expand_write_roi_to_grid(x, write))
    trace = {"w": w, "c0": c0, "c1": c1, "org": [b + a for b, a in zip(base, c0)],
             "sb": sb, "se": [a + b for a, b in zip(sb, sh)],
             "roi": r1, "write": r2, "request": r3, "roi2": a1, "write2": a2, "exc": exc}
    return trace, {"sub": str(sub), "total": str(total), "read": str(read), "write": str(write)}
