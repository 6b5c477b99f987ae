"""Backoff, polling and periodic loop helpers under slow, hanging and failing callbacks, stops, cancels and stalls (C25)."""
import asyncio

from dst.core import Sim, crash_text

from aiok8s.util import retry, wait

NONTRIVIAL = "a helper was stopped, cancelled, timed out or stalled while it waited or called"
REAL = ["aiok8s.util.wait", "aiok8s.util._time", "asyncio primitives"]
STUB = ["event loop clock and timers", "conditions and periodic functions", "random (seeded)"]
SHRINK = ["jobs"]
TOL = 0.001
INF = float("inf")


class Failed(Exception):
    """What failing callbacks raise."""


# ---------------------------------------------------------------------------------- plans
def call_spec(rng, scale, last):
    c = {"d": rng.choice([0, 0, 0, 1, 3, round(rng.random() * scale * 0.5, 4) + 1e-4, round(rng.random() * scale * 3, 4) + 1e-4])}
    r = rng.random()
    if r < 0.06:
        c["d"] = "hang"
    if last is not None:
        c["r"] = last
    elif r < 0.12:
        c["r"] = "raise"
    else:
        c["r"] = rng.choice(["false", "false", "false", "none", "zero"])
    if rng.random() < 0.1:
        c["clean"] = rng.choice([1, 0.02])
    return c


def gen(rng, tier, focus):
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["backoff", "backoff", "poll", "poll", "poll_immediate", "poll_infinite", "poll_immediate_infinite",
                           "loop", "jitter_loop", "jitter_loop", "until", "jitter_until", "jitter_until", "default_retry"])
        scale = rng.choice([0.01, 0.3, 1, 1, 7, 100])
        period = rng.choice([0, round(scale * (0.1 + rng.random()), 4), round(scale * (0.1 + rng.random()), 4), scale])
        j = {"k": kind, "at": [round(rng.random() * scale, 4), rng.randint(0, 3)], "period": period}
        n = rng.choice([1, 2, 3, 5, 8, 14])
        end = rng.choice(["true", "one", "raise", None, None])
        j["calls"] = [call_spec(rng, scale, end if i == n - 1 else None) for i in range(n)]
        if kind == "backoff":
            j["steps"] = rng.choice([0, 1, 2, 3, 5, 8])
            j["factor"] = rng.choice([0, 1, 2, 2, 1.5, 3])
            j["jitter"] = rng.choice([0, 0, 0.1, 1, 0.5])
            j["cap"] = rng.choice([0, 0, 0, round(period * 3, 4), round(period * 10, 4)])
        elif kind in ("poll", "poll_immediate"):
            j["timeout"] = rng.choice([round(period * rng.choice([0.5, 3, 10]) * rng.random() + 0.01, 4), period * 4 + 0.01])
        elif "jitter" in kind:
            j["jitter"] = rng.choice([0, 0.1, 1, 1.2, 3, -1])
            j["sliding"] = rng.random() < 0.5
        j["default"] = rng.choice([0, 1, round(rng.random() * max(period, 0.01) * 1.5, 4) + 1e-4]) if period else 0.01
        horizon = (period + 0.01) * n * 1.5
        j["horizon"] = round(horizon, 4)
        if "until" in kind and rng.random() < 0.8:
            j["stop"] = aim(rng, n, period, horizon)
            if rng.random() < 0.1:
                j["stop"] = [0.0, 0]
        if rng.random() < 0.35:
            j["cancel"] = aim(rng, n, period, horizon)
        jobs.append(j)
    cfg = {}
    if rng.random() < 0.25:
        cfg["stall"] = {"p": 0.05, "max": rng.choice([0.1, 2.0]), "n": 6}
    return {"cfg": cfg, "jobs": jobs}


def aim(rng, n, period, horizon):
    if rng.random() < 0.6:
        return [rng.choice(["call", "called"]), rng.randint(1, n + 1),
                rng.choice([0, 0, 1, 2, 3, 4, round(rng.random() * (period + 0.01), 4) + 1e-6, period + 0.0]), horizon]
    return [round(rng.random() * horizon, 4), rng.randint(0, 3)]


def simpler(plan):
    if "stall" in plan["cfg"]:
        yield lambda p: p["cfg"].pop("stall")
    for k, j in enumerate(plan["jobs"]):
        for f in ("cancel", "stop"):
            if f in j:
                yield lambda p, k=k, f=f: p["jobs"][k].pop(f)
        for n in (1, len(j["calls"]) // 2, len(j["calls"]) - 1):
            if 0 < n < len(j["calls"]):
                yield lambda p, k=k, n=n: p["jobs"][k].__setitem__("calls", p["jobs"][k]["calls"][:n])
        for i, c in enumerate(j["calls"]):
            if c["d"]:
                yield lambda p, k=k, i=i: p["jobs"][k]["calls"][i].__setitem__("d", 0)
            if "clean" in c:
                yield lambda p, k=k, i=i: p["jobs"][k]["calls"][i].pop("clean")
        if j["at"] != [0.0, 0]:
            yield lambda p, k=k: p["jobs"][k].__setitem__("at", [0.0, 0])


# ---------------------------------------------------------------------------------- one helper
class Job:
    def __init__(self, h, k, spec):
        self.h, self.sim, self.k, self.spec = h, h.sim, k, spec
        self.kind = spec["k"]
        self.calls = []  # [start, end, outcome]
        self.inside = False
        self.stop_event = asyncio.Event()
        self.stop_at = self.cancel_at = self.ended = None
        self.task = None
        self.started = None
        self.began = self.stopped_first = False
        self.tail = 0.0
        self.error = Failed(f"callback of job {k} failed")

    def bad(self, cls, msg):
        self.sim.fail("C25", cls, f"{self.kind}: {msg}")

    async def callback(self):
        sim, spec = self.sim, self.spec
        n = len(self.calls)
        sim.event("call", self.k)
        if self.inside:
            self.bad("overlap", f"call {n + 1} began while call {n} was running")
        if self.stop_at is not None and "until" in self.kind:
            self.bad("called_after_stop", f"call {n + 1} at {sim.now:.4f}, stopped at {self.stop_at:.4f}")
        if self.ended is not None:
            self.bad("called_after_end", f"call {n + 1} at {sim.now:.4f}, the helper ended at {self.ended:.4f}")
        self.inside = True
        rec = [sim.now, None, None]
        self.calls.append(rec)
        c = spec["calls"][n] if n < len(spec["calls"]) else {"d": spec.get("default", 0), "r": "false"}
        try:
            if c["d"] == "hang":
                await sim.loop.create_future()
            await sim.pause(c["d"])
            if c["r"] == "raise":
                rec[2] = "raise"
                raise self.error
            rec[2] = "true" if c["r"] in ("true", "one") else "false"
            return {"true": True, "one": 1, "false": False, "none": None, "zero": 0}[c["r"]]
        except asyncio.CancelledError:
            rec[2] = "cancelled"
            if "clean" in c:
                await sim.pause(c["clean"])
            raise
        finally:
            rec[1] = sim.now
            self.inside = False
            sim.event("called", self.k, rec[2])

    def start(self):
        s = self.spec
        p = s["period"]
        k = self.kind
        if k == "backoff":
            self.backoff = wait.Backoff(steps=s["steps"], duration=p, factor=s["factor"], jitter=s["jitter"], cap=s["cap"])
            self.before = dict(self.backoff.__dict__)
            return wait.exponential_backoff(self.backoff, self.callback)
        if k == "default_retry":
            self.backoff = retry.default_retry
            self.before = dict(self.backoff.__dict__)
            return wait.exponential_backoff(self.backoff, self.callback)
        if k in ("poll", "poll_immediate"):
            return getattr(wait, k)(p, s["timeout"], self.callback)
        if k in ("poll_infinite", "poll_immediate_infinite"):
            return getattr(wait, k)(p, self.callback)
        if k == "loop":
            return wait.loop(self.callback, p)
        if k == "jitter_loop":
            return wait.jitter_loop(self.callback, p, s["jitter"], s["sliding"])
        if k == "until":
            return wait.until(self.callback, p, self.stop_event)
        return wait.jitter_until(self.callback, p, s["jitter"], s["sliding"], self.stop_event)

    async def stop(self):
        await self.sim.instant(self.spec["stop"])
        if self.ended is None:
            self.sim.event("stop", self.k)
            self.sim.fault("stopped")
            self.stop_at = self.sim.now
            self.stop_event.set()

    async def cancel(self):
        await self.sim.instant(self.spec["cancel"])
        if self.task is not None and not self.task.done():
            self.sim.event("cancel", self.k)
            self.sim.fault("cancelled")
            self.cancel_at = self.sim.now
            self.task.cancel()

    def own_steps(self):
        """The waits of a caller who steps through a backoff of his own."""
        s = self.spec
        b = wait.Backoff(steps=s["steps"], duration=s["period"], factor=s["factor"], jitter=s["jitter"], cap=s["cap"])
        d, left = s["period"], s["steps"]
        for n in range(s["steps"] + 3):
            got = b.step()
            hi = d * (1 + s["jitter"])
            if not d - 1e-9 <= got <= hi + 1e-9 * (1 + hi):
                return self.bad("step", f"step {n + 1} gives {got!r} instead of {d!r} to {hi!r}")
            if left >= 1:
                left -= 1
                if s["factor"]:
                    d *= s["factor"]
                    if s["cap"] and d > s["cap"]:
                        d, left = s["cap"], 0
        for f in (-1, 0, 0.2, 2):
            got = wait.jitter(s["period"], f)
            if not s["period"] <= got <= s["period"] * (1 + (f if f > 0 else 1)) + 1e-9:
                return self.bad("jitter", f"jitter({s['period']}, {f}) gives {got!r}")

    async def run(self):
        sim, spec = self.sim, self.spec
        if self.kind == "backoff":
            self.own_steps()
        if "stop" in spec and spec["stop"] == [0.0, 0]:
            self.stop_at = 0.0
            self.stopped_first = True
            self.stop_event.set()
        await sim.instant(spec["at"])
        if "cancel" in spec:
            self.h.mine.add(sim.helper(self.cancel()))
        if "stop" in spec and self.stop_at is None:
            self.h.mine.add(sim.helper(self.stop()))
        self.started = sim.now

        async def go():
            self.began = True
            try:
                await self.start()
            finally:
                self.ended = sim.now
                sim.event("end", self.k)

        self.task = asyncio.ensure_future(go())
        await asyncio.wait([self.task], timeout=spec["horizon"] + spec.get("timeout", 0) + 1)
        if self.task.done() and len(self.h.jobs) == 1:
            await sim.pause(10)
            self.left = [t for t in sim.loop.live_tasks() if t not in self.h.mine]
            if sim.violations:
                return
            await asyncio.sleep(spec["period"] * 5 + 1)  # no call comes any more
        self.verdict()
        self.timeout_verdict()
        self.task.cancel()

    # -- the verdict
    def verdict(self):
        sim, s, k = self.sim, self.spec, self.kind
        t = self.task
        if sim.violations or not self.began:
            return
        ended = self.ended
        outcome = None
        if t.done():
            outcome = "cancelled" if t.cancelled() else t.exception()
            if outcome is not None and outcome != "cancelled" and outcome is not self.error and not isinstance(outcome, wait.WaitTimeoutError):
                return self.bad("raised:" + type(outcome).__name__, crash_text(outcome))
        now = sim.now if ended is None else ended

        def late(since, limit=0.0):
            """True when the helper did not do something in time that was due at since + limit."""
            due = since + limit + TOL
            return now > due + sim.stalled(since, now)

        calls = self.calls
        # a result ends the helper, and at once
        for n, (a, b, r) in enumerate(calls):
            ends = r == "raise" or r == "true" and "loop" not in k and "until" not in k
            if ends and n + 1 < len(calls):
                return self.bad("called_again", f"call {n + 2} was made although call {n + 1} gave {r}")
            if ends and self.cancel_at is None and not ("timeout" in s and late(self.t0(), s["timeout"] - TOL * 2)):
                if late(b):
                    return self.bad("late_result", f"call {n + 1} gave {r} at {b:.4f}, the helper ended at {ended}")
                if r == "raise" and outcome is not self.error:
                    return self.bad("error_lost", f"call {n + 1} raised, the helper ended with {outcome!r}")
                if r == "true" and outcome is not None:
                    return self.bad("success_lost", f"call {n + 1} succeeded, the helper ended with {outcome!r}")
        last = calls[-1][2] if calls else None
        # it must not end for no reason
        if ended is not None and last not in ("raise", "true"):
            if outcome is None and not ("until" in k and self.stop_at is not None):
                return self.bad("gave_up", f"returned at {ended:.4f} after {len(calls)} calls without success")
            if isinstance(outcome, wait.WaitTimeoutError) and k not in ("backoff", "default_retry", "poll", "poll_immediate"):
                return self.bad("timed_out", f"timed out at {ended:.4f}")
            if outcome is self.error:
                return self.bad("alien_error", "raised an error no call raised")
        if outcome == "cancelled" and self.cancel_at is None:
            return self.bad("cancelled", f"ended cancelled at {ended:.4f} although nobody cancelled it")
        # cancelled: ends as soon as its call does
        if self.cancel_at is not None:
            done = max([self.cancel_at] + [c[1] for c in calls if c[1] is not None])
            if late(done):
                return self.bad("cancel_late", f"cancelled at {self.cancel_at:.4f}, ended at {ended}")
        if self.stop_at is not None and self.cancel_at is None and "until" in k and not (calls and calls[-1][1] is None):
            done = max([self.started, self.stop_at] + [c[1] for c in calls])
            if late(done):
                return self.bad("stop_late", f"stopped at {self.stop_at:.4f}, its last call ended at {done:.4f}, it ended at {ended}")
        if self.stopped_first and calls:
            return self.bad("called_after_stop", "a stopped loop made a call")
        self.spacing(late, outcome)
        if sim.violations:
            return
        if k in ("backoff", "default_retry") and self.backoff.__dict__ != self.before:
            return self.bad("changed", f"changed the backoff it was given to {self.backoff.__dict__}")
        left = getattr(self, "left", None)
        if left:
            names = sorted(getattr(x.get_coro(), "__qualname__", "?") for x in left)
            self.bad("left_running", f"left {names} running after it had ended")

    def t0(self):
        if self.kind == "poll_immediate":
            return self.calls[0][1] if self.calls and self.calls[0][1] is not None else INF
        return self.started

    def gaps(self):
        """[lower, upper] of the wait before call n + 1, and what it is measured from."""
        s, k = self.spec, self.kind
        p = s["period"]
        if k in ("backoff", "default_retry"):
            b = self.before
            d = b["duration"]
            steps = b["steps"]
            yield 0.0, 0.0
            while steps > 1:
                if b["factor"] and b["cap"] and d * b["factor"] > b["cap"]:
                    self.tail = d * (1 + b["jitter"])  # reaching the cap ends it, after a last wait
                    return
                yield d, d * (1 + b["jitter"])
                steps -= 1
                if b["factor"]:
                    d *= b["factor"]
            return
        j = max(0, s.get("jitter", 0)) if "jitter" in k else 0
        yield (0.0, 0.0) if "immediate" in k or "poll" not in k else (p, p)
        while True:
            yield p, p * (1 + j)

    def spacing(self, late, outcome):
        sim, s, k, calls = self.sim, self.spec, self.kind, self.calls
        sliding = not ("jitter" in k and not s["sliding"])
        seen = []
        gaps = self.gaps()
        n = -1
        for n, (lo, hi) in enumerate(gaps):
            if n == 0:
                since = ended = self.started
                if k in ("backoff", "default_retry") and not self.before["steps"]:
                    break
            else:
                a, b, r = calls[n - 1]
                if b is None or r in ("cancelled", "raise") or r == "true" and "loop" not in k and "until" not in k:
                    return
                ended = b
                since = b if sliding else a
            if n < len(calls):
                got = calls[n][0]
                if got < since + lo - 1e-6 or got < ended:
                    return self.bad("early", f"call {n + 1} came at {got:.6f}, {got - since:.6f} s after {since:.6f} instead of {lo:.6f}")
                if got > max(ended, since + hi) + TOL + sim.stalled(since, got):
                    return self.bad("late", f"call {n + 1} came at {got:.6f}, {got - since:.6f} s after {since:.6f} instead of at most {hi:.6f}")
                if hi > lo:
                    seen.append((got - max(since, ended)) / (hi / (1 + s.get("jitter", 0)) or 1))
                continue
            # this call was not made
            if self.cancel_at is not None or self.stop_at is not None and "until" in k:
                return
            if isinstance(outcome, wait.WaitTimeoutError) and "timeout" in s:
                break
            if late(max(ended, since), hi):
                return self.bad("missed", f"call {n + 1} was due by {max(ended, since + hi):.4f} and had not come at {sim.now if self.ended is None else self.ended:.4f}")
            if isinstance(outcome, wait.WaitTimeoutError):
                return self.bad("timed_out_early", f"gave up at {self.ended:.4f} after {n} calls")
            return
        else:
            n += 1
            if len(calls) > n:
                return self.bad("too_many", f"{len(calls)} calls instead of at most {n}")
        if k in ("backoff", "default_retry"):
            if self.cancel_at is not None or calls and calls[-1][2] != "false":
                return
            if self.ended is None and not late(calls[-1][1] if calls else self.started, self.tail):
                return
            if not isinstance(outcome, wait.WaitTimeoutError):
                return self.bad("no_error", f"ended with {outcome!r} after {len(calls)} failed calls")
        elif "timeout" in s and self.cancel_at is None:
            t0 = self.t0()
            if self.ended < t0 + s["timeout"] - 1e-6:
                return self.bad("timed_out_early", f"timed out after {self.ended - t0:.4f} s instead of {s['timeout']}")
        if len(seen) > 6 and s.get("jitter", 0) >= 0.5 and max(seen) - min(seen) < 1e-3 and sliding and s["period"] > 0.1 and not sim.stalls:
            return self.bad("no_jitter", "the period is not jittered")

    def timeout_verdict(self):
        """A poll ends in time whatever its condition does."""
        sim, s = self.sim, self.spec
        if sim.violations or "timeout" not in s or self.started is None or self.t0() == INF:
            return
        due = self.t0() + s["timeout"]
        extra = max([0.0] + [0.02 + TOL for c in s["calls"] if "clean" in c])
        now = sim.now if self.ended is None else self.ended
        if self.cancel_at is None and now > due + extra + TOL + sim.stalled(self.t0(), now):
            self.bad("timeout_late", f"should have timed out at {due:.4f}, ended at {self.ended}")


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]

    async def main(self, sim):
        self.jobs = [Job(self, k, s) for k, s in enumerate(self.plan["jobs"])]
        runs = [sim.helper(j.run()) for j in self.jobs]
        self.mine = set(runs) | set(sim.loop.live_tasks())
        await asyncio.wait(runs)


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C25")
    sim.nontrivial = bool(sim.faults) or any(isinstance(j.task and j.task.done() and not j.task.cancelled() and j.task.exception(), wait.WaitTimeoutError)
                                             for j in getattr(h, "jobs", ()))
    sim.stats["calls"] = sum(len(j.calls) for j in getattr(h, "jobs", ()))
    for j in getattr(h, "jobs", ()):
        sim.probe(j.kind)
    return sim
