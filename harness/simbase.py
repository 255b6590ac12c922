"""A simulated environment for daisy's server side: virtual time, worker
processes as threads that run in lockstep, in-memory connections.  Must be
imported before daisy.  Only standard-library names and public methods of daisy
are replaced."""
import queue, random, threading, pickle
from common import raised
from simtime import Clock                                        # noqa (before daisy)
import multiprocessing, multiprocessing.pool                     # noqa

REAL = {"Process": multiprocessing.Process, "Queue": multiprocessing.Queue}


class SimKilled(BaseException):
    """Ends a simulated process."""


class SimQueue:
    """Like multiprocessing.Queue: what is put is pickled."""
    def __init__(self, maxsize=0, **kw):
        self.q = queue.Queue(maxsize)
    def put(self, x, block=True, timeout=None):
        try:
            x = pickle.dumps(x)
        except Exception:
            return   # the feeder thread of a real queue drops it
        if self.q.full():
            raise queue.Full
        self.q.put(x)
    def get(self, block=True, timeout=None):
        if self.q.empty():
            raise queue.Empty
        return pickle.loads(self.q.get_nowait())
    def get_nowait(self):
        return self.get(False)
    def put_nowait(self, x):
        self.put(x, False)
    def empty(self):
        return self.q.empty()
    def qsize(self):
        return self.q.qsize()
    def close(self):
        pass
    def join_thread(self):
        pass
    def cancel_join_thread(self):
        pass


class Sim:
    """The current simulation; replaced for every run."""
    current = None


class FakeProcess:
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name or "fake"
        self.thread = None
        self._exit = None
        self._pid = None
        self.cmd = None
        self.go = threading.Semaphore(0)      # sim -> process
        self.back = threading.Semaphore(0)    # process -> sim
        self.worker = None
        self.killed = None

    @property
    def pid(self):
        return self._pid

    @property
    def exitcode(self):
        return self._exit

    def start(self):
        assert self.thread is None
        FakeProcess.count += 1
        self._pid = 100000 + FakeProcess.count
        Sim.current.on_start(self)
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()
        self.back.acquire()      # until it waits for commands or has ended
        Sim.current.on_started(self)

    def _run(self):
        self._env = None
        threading.current_thread().fake_process = self
        try:
            self.target(*self.args, **self.kwargs)
            code = 0
        except SimKilled:
            code = self.killed
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            code = 1
        self._exit = code
        self.back.release()

    def command(self, cmd):
        """Let the process do something; returns when it waits again or ended."""
        if self._exit is not None:
            return
        self.cmd = cmd
        self.go.release()
        self.back.acquire()

    def wait_command(self):
        """Called from within the process."""
        self.back.release()
        self.go.acquire()
        return self.cmd

    def is_alive(self):
        return self.thread is not None and self._exit is None

    def _kill(self, code):
        if self.is_alive():
            self.killed = code
            self.command("die")

    def terminate(self):
        if self.thread is None:
            raise AttributeError("process was not started")
        Sim.current.on_terminate(self)
        if Sim.current.ignores_term(self):
            return
        self._kill(-15)

    def kill(self):
        Sim.current.on_terminate(self)
        self._kill(-9)

    def join(self, timeout=None):
        if self.is_alive() and getattr(self, "slow", 0):
            Sim.current.on_join(self, timeout)

    def close(self):
        pass

    @property
    def sentinel(self):
        return 0


class SlowEnds:
    """Some processes take their time to end after they were terminated."""
    pslow = 0.0

    def ignores_term(self, p):
        if not hasattr(p, "slow"):
            r = self.slow_rng
            p.slow = r.choice([0.3, 2.0, 30.0, 1000.0]) if r.random() < self.pslow else 0
        return p.slow > 0 and p.is_alive()

    def on_join(self, p, timeout):
        if timeout is None or timeout >= p.slow:
            Clock.now += p.slow
            p._kill(-15)
        else:
            Clock.now += timeout
            p.slow -= timeout


COUNT = [0]


def sim_spawn():
    """The worker function of simulated runs: registers with the simulation and
    does what it is told."""
    p = threading.current_thread().fake_process
    Sim.current.on_worker(p)
    while True:
        c = p.wait_command()
        if c == "die":
            raise SimKilled()
        if c == "exit":
            return
        if c == "sysexit":
            raise SystemExit(3)
        if c == "raise":
            COUNT[0] += 1
            raise raised(random.Random(COUNT[0]))
        if c == "raise_odd":
            class Odd(Exception):     # can not be pickled
                pass
            raise Odd("worker error")


def install():
    multiprocessing.Process = FakeProcess
    multiprocessing.Queue = SimQueue


install()
