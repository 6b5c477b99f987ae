"""Puts every clock behind a seam and makes /repo the source of aiok8s.

Must be imported before asyncio users of the code under test: it replaces the functions of the `time`
module by trampolines that read the active simulation's clock (and the real clock when no simulation is
active), so that even `from time import time` in the code under test reads simulated time.
"""
import logging
import os
import sys
import time as _time

REPO = os.environ.get("DST_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter

active = None  # the active core.Sim

WALL0 = 1_700_000_000.0


def _wall():
    return real_time() if active is None else active.wall()


def _mono():
    return real_monotonic() if active is None else active.mono()


def _sleep(d):
    if active is None:
        raise RuntimeError("time.sleep outside a simulation")
    active.stall(max(0.0, d), "time.sleep")


def install():
    _time.time = _wall
    _time.time_ns = lambda: int(_wall() * 1e9)
    _time.monotonic = _mono
    _time.monotonic_ns = lambda: int(_mono() * 1e9)
    _time.perf_counter = _mono
    _time.perf_counter_ns = lambda: int(_mono() * 1e9)
    real_sleep = _time.sleep
    _time.sleep = lambda d: real_sleep(d) if active is None else _sleep(d)
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.WARNING)


install()
