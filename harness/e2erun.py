"""One real run, in this process, with real worker processes: `e2erun.py
PLAN.json LOG OUT`.  Workers append what they do to LOG."""
import contextlib, faulthandler, io, json, os, signal, subprocess, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import *

LATE = """
import daisy
with daisy.Client().acquire_block() as block:
    print("ended" if block is None else "block", flush=True)
"""


def main():
    plan = json.load(open(sys.argv[1]))
    logpath, out = sys.argv[2], sys.argv[3]
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    specs = [TaskSpec(**s) for s in plan["specs"]]
    world = World(specs, build(specs))
    index = {"%s|%d" % b.block_id: i + 1 for i, b in enumerate(world.blocks)}
    rois = [[str(b.read_roi), str(b.write_roi)] for b in world.blocks]
    tnum = dict(world.tnum)
    raw, done, nap, styles = plan["raw"], plan["done"], plan["nap"], plan["styles"]

    def log(**k):
        fd = os.open(logpath, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(dict(k, pid=os.getpid())) + "\n").encode())
        os.close(fd)

    def work(block):
        b = index.get("%s|%d" % block.block_id, -1)
        if b > 0 and [str(block.read_roi), str(block.write_roi)] != rois[b - 1]:
            b = -2
        t = tnum.get(block.task_id, 0)
        log(op="start", b=b, t=t)
        k = 0
        with open(logpath) as f:
            for line in f:
                x = json.loads(line)
                k += x["op"] == "start" and x["b"] == b
        what = raw[b - 1][min(k, len(raw[b - 1])) - 1] if b > 0 else "ok"
        time.sleep(nap)
        if what in ("kill", "orphan"):
            log(op="kill", b=b, t=t)
            if what == "orphan" and os.fork() == 0:
                # a process of its own that stays
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                time.sleep(1000)
                os._exit(0)
            os.kill(os.getpid(), signal.SIGKILL)
        if what == "exit":
            log(op="kill", b=b, t=t)
            os._exit(3)
        if what == "leave" and styles[t - 1] != "spawn":
            what = "mark"
        log(op="end", b=b, t=t, ok=what == "ok")
        if what == "raise":
            print("FAIL", b, flush=True)
            raise ValueError("planned")
        if what == "mark":
            block.status = daisy.BlockStatus.FAILED
        return what

    def worker():
        c = daisy.Context.from_env()
        t = tnum.get(c["task_id"], 0)
        log(op="hello", b=0, t=t)
        if plan["slow"]:
            time.sleep(plan["slow"])
        client = daisy.Client()
        while True:
            left = False
            try:
                with client.acquire_block() as block:
                    if block is None:
                        break
                    left = work(block) == "leave"
                    if left:
                        # hangs up with the block in hand, and calls again
                        client.tcp_client.disconnect()
            except Exception:
                if not left:
                    raise
            if left:
                client = daisy.Client()
        log(op="bye", b=0, t=t)

    def process(s):
        if styles[[x.tid for x in specs].index(s.tid)] == "spawn":
            return worker
        return work

    def check(s):
        def f(block):
            return index.get("%s|%d" % block.block_id, 0) in done
        return f
    if plan["before"]:
        # not the first run of this process
        daisy.logging.set_log_basedir("before")
        pre = [s for s in specs if not s.ups][:1]
        with contextlib.redirect_stdout(io.StringIO()):
            daisy.run_blockwise(build(pre, process_function=lambda block: None))
        daisy.logging.set_log_basedir("daisy_logs")
    tasks = build(specs, process_function=PerTask(process), check=check if done else None)
    where = []
    for t in tasks:
        t.init_callback_fn = lambda context: where.append(context)
    needed = {u for s in specs for u in s.ups}
    res, exc, tb = -1, "", ""
    if plan["elsewhere"]:
        threading.Thread(target=lambda: [time.sleep(1) for _ in range(10000)], daemon=True).start()
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGINT])
    try:
        if plan["mode"] == "server":
            from daisy.cl_monitor import CLMonitor
            server = daisy.Server()
            CLMonitor(server)
            server.run_blockwise(tasks)
        else:
            listed = [t for k, t in enumerate(tasks) if k not in needed or k in plan["listed"]]
            res = 1 if daisy.run_blockwise(listed) else 0
    except BaseException as e:
        exc = type(e).__name__
        tb = traceback.format_exc()
    sys.stdout.flush()
    # worker processes that are left
    live = 0
    me = os.getpid()
    for p in os.listdir("/proc"):
        if p.isdigit() and int(p) != me:
            try:
                st = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                if int(st[1]) == me and st[0] != "Z" and b"resource_tracker" not in open("/proc/%s/cmdline" % p, "rb").read():
                    live += 1
            except OSError:
                pass
    late = ""
    if plan["late"] and where:
        # a worker that comes after the run has ended, from another machine
        env = dict(os.environ, DAISY_CONTEXT=where[0].to_env())
        p = subprocess.Popen([sys.executable, "-c", LATE], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            late = p.communicate(timeout=plan["late"])[0].decode().strip() or "ended"
        except subprocess.TimeoutExpired:
            late = "waits"
    with open(out + ".part", "w") as f:
        json.dump({"res": res, "exc": exc, "live": live, "late": late, "tb": tb}, f)
    os.rename(out + ".part", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
