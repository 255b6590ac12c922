"""Virtual time for daisy, real time for everybody else.  Must be imported
before daisy."""
import sys, time
import asyncio, selectors, logging, socket                      # noqa (before time is patched)
import tornado.ioloop, tornado.tcpserver, tornado.iostream, tqdm  # noqa
import multiprocessing, multiprocessing.pool                     # noqa

assert "daisy" not in sys.modules
real_time, real_monotonic, real_sleep = time.time, time.monotonic, time.sleep


class Clock:
    now = 1_000_000.0


def _from_daisy():
    return sys._getframe(2).f_globals.get("__name__", "").startswith("daisy")


def _vtime():
    return Clock.now if _from_daisy() else real_time()


def _vmono():
    return Clock.now if _from_daisy() else real_monotonic()


def _vsleep(t):
    if _from_daisy():
        Clock.now += t
    else:
        real_sleep(t)


time.time = _vtime
time.monotonic = _vmono
