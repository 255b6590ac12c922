"""What each check consists of."""
import concurrent.futures as cf
import json, os, random
from common import *

LEVEL = "model_checking"
ASSUME = {"*": ["bounded: model checking covers the stated small constants; recordings are a "
                "seeded random sample of inputs and histories",
                "a trace judged conforming only shows conformance of that run"]}


_G = ("TLA+ (TLC): declarative Geometry vs. LevelGraph design, exhaustively for small tasks; answers of the real "
      "dependency graph on random, large and huge task sets judged by the same specification")
_S = ("TLA+ (TLC): Sched/SchedMC, all schedules, failures and skips of small task sets, liveness; TLC histories replayed "
      "into the real scheduler; recorded scheduler sessions judged step by step (trace validation)")
_R = ("TLA+ (TLC): Server/ServerMC (event loop, workers, crashes, losses), safety and liveness; behaviours replayed into "
      "and random runs recorded from the real server on simulated time, processes and connections; real "
      "multi-process runs (TraceE2E)")
TECHNIQUE = {
    "C01": _G, "C05": _G, "C06": _G,
    "C02": _G + "; ids seen by several processes (Identity/TraceIdent)",
    "C03": _G + "; " + _S + "; real multi-process runs (TraceE2E)",
    "C04": _G + "; " + _S + "; real multi-process runs (TraceE2E)",
    "C07": "TLA+ (TLC): smallest-cover arithmetic for all small values; recorded calls judged by TraceGrid",
    "C08": _S, "C09": _S, "C10": _S, "C11": _S,
    "C12": _S + "; recorded serial runs (TraceSerial)",
    "C13": _R, "C14": _R, "C15": _R + "; interrupted runs of run_blockwise (TraceFinal)",
    "C16": "TLA+: requirements of Server/Serial on the notifications, applied to recorded runs of the real servers "
           "(trace validation); the design ServerMC meets the same requirements (checked by C13-C15)",
    "C17": "TLA+ (TLC): WorkerPool/WorkerPoolMC, all short histories; behaviours replayed into and random sessions "
           "recorded from the real pools; real multi-process runs",
    "C18": "TLA+ (TLC): confluence of SchedMC (every schedule ends in FinalState); serial and distributed runs of the real "
           "code on the same outcomes compared with FinalState (TraceFinal, TraceSerial, TraceServer, TraceE2E)",
    "C19": "TLA+ (TLC): Client/ClientMC; all scripts of answers and user behaviour replayed into the real client, "
           "random sessions judged by TraceClient",
    "C20": "TLA+ (TLC): Tcp/TcpMC, all schedules of callbacks, sockets and disconnects, liveness; behaviours replayed over "
           "and random sessions recorded from real sockets and client processes (TraceTcp)",
    "C21": "TLA+ (TLC): Context/ContextMC round trip over an alphabet with separators; recorded uses and real worker "
           "processes judged by TraceContext",
    "C22": "TLA+ (TLC): Bookkeeper/BookkeeperMC with time; behaviours replayed into and random sessions recorded from the "
           "real bookkeeper (TraceBook)",
    "C23": "TLA+ (TLC): algorithm vs. definition on all DAGs of 4 (5) nodes and all histories, all of which are replayed into "
           "the real ready surface; random larger DAGs (TraceRS)",
    "C24": "TLA+: Summary requirements applied to the text printed by the real monitor in recorded serial, simulated "
           "and real runs (trace validation); Handlers/HandlersMC: log handlers behind monitors (TraceHandlers)",
    "C25": "TLA+ (TLC): Logs/LogsMC (descriptors, streams, processes that end anywhere), all interleavings; output of "
           "real worker processes, found in files, judged by TraceLogs",
    "C26": "TLA+ (TLC): Address/AddressMC, every failure while the address is tested; real servers on a made-up "
           "network, and real clients that connect to them, judged by TraceAddress",
    "C28": _R.replace("; real multi-process runs (TraceE2E)", ""),
    "C27": "TLA+ (TLC): TaskFunction/TaskFunctionMC; tasks with functions of all kinds recorded in workers and serial runs, "
           "judged by TraceTaskFunction",
}
NOTE = {"*": "The specification is checked exhaustively for small constants; conformance of the code is "
             "checked on replayed behaviours and seeded samples of inputs and histories (see DESIGN.md)."}
NA = {}


def length(trace):
    for k in ("events", "ev"):
        if k in trace:
            return len(trace[k])
    return 1


def together(*fs):
    """Run parts concurrently (recorders are single threaded, TLC uses what is
    left); the first error is raised after all have ended."""
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
    return [r.result() for r in rs]


def traces(run, kind, module, nq, nt, what, params=None, timeout=600):
    n = nt if run.thorough else nq
    done = 0
    k = 0
    while done < n:
        m = min(n - done, 4000)
        recs = run.record(kind, m, params, seed=run.seed + 101 * k, timeout=timeout)
        run.judge(module, recs, what)
        done += m
        k += 1
        if run.viol and k > 1:
            break


def geometry(run, tlc=True):
    def mc():
        run.mc("GeometryMC", "GeometryMC1.cfg", "levels and queries vs. declarative geometry, all small 1D tasks")
        run.mc("GeometryMC", "GeometryMC2.cfg", "the same for small 2D tasks")
        if run.thorough:
            run.mc("GeometryMC", "GeometryMC1big.cfg", "larger 1D tasks", timeout=5000)
            run.mc("GeometryMC", "GeometryMC2big.cfg", "larger 2D tasks", timeout=5000)
    mc()
    traces(run, "geom", "TraceGeom", 1600, 60000, "answers of the dependency graph on random task sets")
    traces(run, "geom", "TraceGeom", 32, 480, "the same on large task sets",
           {"big": ["wide", "deep", "plane", "cube", "box", "tess", "funnel", "funnel"]})
    traces(run, "far", "TraceFar", 400, 12000, "blocks at far positions of huge tasks")
    traces(run, "far", "TraceFar", 8, 80, "all blocks of big tasks", {"mass": True})


def c02(run):
    geometry(run)
    traces(run, "ident", "TraceIdent", 400, 8000, "identities in several processes with different histories")


def sched_mc(run):
    run.mc("SchedMC", "SchedMC_small.cfg", "all schedules, failures and skips of a family of small task sets")
    run.mc("SchedMC", "SchedLive.cfg", "every fair schedule finishes")
    if run.thorough:
        run.mc("SchedMC", "SchedMC_large.cfg", "larger task sets", timeout=3000)


def sched_replay(run, nq=1500):
    h = run.generated("SchedMC", "SchedGen.cfg", "complete histories of small task sets, for replay")
    if not h:
        raise MachineryError("no histories generated")
    if not run.thorough:
        random.Random(run.seed).shuffle(h)
        h = h[:nq]
    path = os.path.join(run.scratch.path, "schedhist")
    for k in range(0, len(h), 5000):
        part = h[k:k + 5000]
        write_ndjson(path + str(k), part)
        run.judge("TraceSched", run.record("sched", len(part), {"hist": path + str(k)}),
                  "histories of the model, replayed into the scheduler")


def scheduling(run, nq=1500, nt=20000, **params):
    sched_mc(run)
    sched_replay(run)
    traces(run, "sched", "TraceSched", nq, nt, "scheduler sessions", params)
    traces(run, "sched", "TraceSched", 36, 600, "scheduler sessions on large task sets",
           {"big": ["wide", "deep", "plane", "cube", "box", "tess", "layers", "layers", "storm", "chain", "skips", "orphans", "burst", "burst",
                    "stubborn", "stubborn", "stubborn", "sea", "funnel"]})


def c03(run):
    geometry(run)
    scheduling(run)
    e2e(run)


def c07(run):
    run.mc("GridMC", "GridMC.cfg", "floor/ceil arithmetic gives the smallest cover, all small values")
    traces(run, "grid", "TraceGrid", 8000, 200000, "region expansions")


def c23(run):
    run.mc("ReadySurfaceMC", "ReadySurfaceMC4.cfg", "algorithm = definition, all DAGs of 4 nodes, all histories")
    if run.thorough:
        run.mc("ReadySurfaceMC", "ReadySurfaceMC5.cfg", "the same for 5 nodes")
    for n in (3, 4):
        h = run.generated("ReadySurfaceMC", "ReadySurfaceGen%d.cfg" % n,
                          "all complete histories of all DAGs of %d nodes, replayed into the code" % n)
        if not h:
            raise MachineryError("no histories generated")
        path = os.path.join(run.scratch.path, "hist%d" % n)
        write_ndjson(path, h)
        recs = run.record("rs", len(h), {"hist": path, "n": n})
        run.judge("TraceRS", recs, "replayed histories (%d nodes)" % n)
    traces(run, "rs", "TraceRS", 4000, 100000, "random histories of random DAGs", {"maxn": 14})
    traces(run, "rs", "TraceRS", 120, 4000, "the same with large DAGs", {"maxn": 160})


def server(run, nq=1800, nt=40000, **params):
    traces(run, "server", "TraceServer", nq, nt, "simulated runs of the real server", params)
    traces(run, "server", "TraceServer", 48, 1200, "the same with many workers, mass crashes, many failures",
           {"crowd": True})


def server_design(run):
    run.mc("ServerMC", "ServerLive.cfg", "event loop, workers, crashes, lost connections: all schedules are "
           "sound and every fair one finishes")
    if run.thorough:
        run.mc("ServerMC", "ServerMC_small.cfg", "more task sets", timeout=3000)
        run.mc("ServerMC", "ServerMC_large.cfg", "larger task sets", timeout=5000)
        run.mc("ServerMC", "ServerLive_small.cfg", "every fair schedule of more task sets finishes", timeout=5000,
               heap="20g")
    h = simulated(run, "ServerMC", "ServerGen.cfg", "random behaviours of the design, for replay",
                  8000 if run.thorough else 400, 400)
    replay_in(run, "server", "TraceServer", h, "behaviours of the design, replayed into the real server")


def e2e(run, nq=40, nt=1200):
    traces(run, "e2e", "TraceE2E", nq, nt, "real runs with real worker processes, some killed", timeout=3000)


def e2e_cut(run, nq=16, nt=400):
    traces(run, "e2e", "TraceE2E", nq, nt, "real runs interrupted by the user", {"interrupt": True}, timeout=3000)


def e2e_die(run, nq=16, nt=400):
    run.mc("LifeMC", "LifeMC.cfg", "who holds which sockets, and who is left when a server ends or is killed")
    traces(run, "e2e", "TraceE2E", nq, nt, "real runs, the serving process is killed", {"die": True}, timeout=3000)


def distributed(run, nq=1800):
    server_design(run)
    server(run, nq)
    e2e(run)


def c28(run):
    server_design(run)
    server(run, nq=2500)


def c14(run):
    distributed(run)
    dense(run)


def c15(run):
    distributed(run)
    interrupted(run)
    e2e_cut(run)
    e2e_die(run)


def serial(run, nq=800, nt=30000):
    traces(run, "serial", "TraceSerial", nq, nt, "runs of the serial server")


def interrupted(run, nq=300, nt=6000):
    traces(run, "final", "TraceFinal", nq, nt, "run_blockwise, interrupted by the user", {"interrupt": True})


def dense(run):
    traces(run, "final", "TraceFinal", 4, 200, "complete runs of dozens of tasks with many dependencies",
           {"dense": True}, timeout=1200)


def final(run, nq=700, nt=30000):
    traces(run, "final", "TraceFinal", nq, nt,
           "complete serial and distributed runs on the same outcomes vs. the determined result")
    interrupted(run)


def c12(run):
    scheduling(run)
    serial(run, nq=500)


def c16(run):
    run.mc("ObserversMC", "ObserversMC.cfg", "observers that leave while they are told: all are told everything")
    server(run)
    serial(run)


def c24(run):
    c16(run)
    e2e(run)
    run.mc("HandlersMC", "HandlersMC.cfg", "log handlers behind monitors, all short histories")
    traces(run, "handler", "TraceHandlers", 1500, 40000, "log messages while monitored")


def c18(run):
    sched_mc(run)
    final(run, nq=1500)
    dense(run)
    serial(run, nq=500)
    server(run, nq=500)
    e2e(run)
    e2e_cut(run)


def simulated(run, module, cfg, what, num, depth):
    """Random behaviours of the specification."""
    h = run.generated(module, cfg, what, extra=("-simulate", "num=%d" % num, "-depth", str(depth),
                                                "-seed", str(run.seed)), workers=1)
    if not h:
        raise MachineryError("no histories generated")
    # TLC prints every successor that it considers, more than it visits
    h = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in h})]
    return random.Random(run.seed).sample(h, min(len(h), num))


def replay_in(run, kind, module, hist, what, seed=None, **params):
    path = os.path.join(run.scratch.path, "hist_%s_%d" % (kind, len(os.listdir(run.scratch.path))))
    write_ndjson(path, hist)
    run.judge(module, run.record(kind, len(hist), dict(params, hist=path), seed=seed), what)


def c22(run):
    run.mc("BookkeeperMC", "BookkeeperMC.cfg", "custody ends once, all short histories")
    if run.thorough:
        run.mc("BookkeeperMC", "BookkeeperMCbig.cfg", "larger", timeout=3000)
    h = simulated(run, "BookkeeperMC", "BookkeeperGen.cfg", "random behaviours, for replay",
                  20000 if run.thorough else 2000, 31)
    replay_in(run, "book", "TraceBook", h, "behaviours of the model, replayed into the code")
    traces(run, "book", "TraceBook", 4000, 100000, "random use of the record of sent blocks")
    run.judge("TraceBook", run.record("book", 1, {"task_timeout": True}), "a worker that keeps a block")
    server(run, nq=400)


def c19(run):
    run.mc("ClientMC", "ClientMC.cfg", "the server gets every block back, once, before the next request")
    h = run.generated("ClientMC", "ClientGen3.cfg" if run.thorough else "ClientGen.cfg",
                      "all scripts of answers and user behaviour")
    if not h:
        raise MachineryError("no scripts generated")
    for k in range(3):
        replay_in(run, "client", "TraceClient", h, "all scripts, replayed into the client",
                  seed=run.seed + k)
    traces(run, "client", "TraceClient", 4000, 100000, "random sessions of the client")


def c21(run):
    run.mc("ContextMC", "ContextMCbig.cfg" if run.thorough else "ContextMC.cfg",
           "contexts over an alphabet with separators survive encoding, all short ones")
    traces(run, "context", "TraceContext", 8000, 200000, "use of contexts")
    traces(run, "context", "TraceContext", 160, 2000, "real worker processes: context and logs",
           {"worker": True})
    traces(run, "client", "TraceClient", 500, 5000, "clients connect where the context says")
    server(run, nq=400)


def c17(run):
    run.mc("WorkerPoolMC", "WorkerPoolMCbig.cfg" if run.thorough else "WorkerPoolMC.cfg",
           "numbers of workers under deaths, exits, failures and recruiting, all short histories",
           timeout=3000)
    h = simulated(run, "WorkerPoolMC", "WorkerPoolGen.cfg", "random behaviours, for replay",
                  10000 if run.thorough else 1000, 26)
    replay_in(run, "pool", "TracePool", h, "behaviours of the model, replayed into the pools")
    traces(run, "pool", "TracePool", 2500, 60000, "random use of worker pools")
    traces(run, "pool", "TracePool", 4, 200, "pools with hundreds of workers", {"mass": True})
    server(run, nq=700)
    e2e(run)


def c20(run):
    run.mc("TcpMC", "TcpMC.cfg", "callbacks, sockets, read loops, graceful disconnect, killed clients: all schedules")
    run.mc("TcpMC", "TcpLive.cfg", "disconnecting terminates")
    if run.thorough:
        run.mc("TcpMC", "TcpMCmid.cfg", "more messages", timeout=3000)
        run.mc("TcpMC", "TcpMCbig.cfg", "more messages and killed clients", timeout=7200, heap="20g")
    h = simulated(run, "TcpMC", "TcpGen.cfg", "random behaviours, for replay", 3000 if run.thorough else 150, 200)
    replay_in(run, "tcp", "TraceTcp", h, "behaviours of the model, replayed over real sockets")
    traces(run, "tcp", "TraceTcp", 400, 10000, "real servers and clients over real sockets",
           {"maxsize": 60 * 10**6} if run.thorough else None, timeout=3000)
    traces(run, "tcp", "TraceTcp", 16, 400, "many clients at once; huge messages", {"crowd": True}, timeout=3000)
    traces(run, "tcp", "TraceTcp", 8, 60, "thousands of unread messages", {"flood": True}, timeout=3000)
    run.judge("TraceTcp", run.record("tcp", 8, {"storm": 60 if run.thorough else 8}),
              "clients that connect while others are being disconnected (last rounds)")


def c25(run):
    run.mc("LogsMC", "LogsMCbig.cfg" if run.thorough else "LogsMC.cfg",
           "writers that share files and descriptors: nothing is lost, all interleavings")
    traces(run, "log", "TraceLogs", 500, 10000, "output of real worker processes", timeout=3000)


def c26(run):
    run.mc("AddressMC", "AddressMC.cfg", "every failure while testing the address")
    traces(run, "addr", "TraceAddress", 300, 5000, "real servers on a made-up network", timeout=3000)


def c27(run):
    run.mc("TaskFunctionMC", "TaskFunctionMC.cfg", "worker loop, all scripts")
    traces(run, "task", "TraceTaskFunction", 2500, 60000, "task functions of all kinds")


CHECKS = {
    "C25": c25, "C26": c26, "C27": c27, "C28": c28,
    "C20": c20,
    "C17": c17,
    "C21": c21,
    "C19": c19,
    "C22": c22,
    "C13": distributed, "C14": c14, "C15": c15, "C16": c16, "C18": c18, "C24": c24,
    "C01": geometry, "C02": c02, "C05": geometry, "C06": geometry,
    "C03": c03, "C04": c03, "C07": c07, "C23": c23,
    "C08": scheduling, "C09": scheduling, "C10": scheduling, "C11": scheduling, "C12": c12,
}
