"""Real timers and tickers under stalls, clock steps and stops; fake clocks against a reference (C26)."""
import asyncio

from dst.core import Sim, blames_code, crash_text

from aiok8s.util import _time, clock

NONTRIVIAL = "a timer was stopped or reset, the clock stepped or stalled, or a ticker left unread, while waiters were pending"
REAL = ["aiok8s.util.clock", "aiok8s.util._time", "asyncio primitives"]
STUB = ["event loop clock and timers", "wall clock", "readers"]
SHRINK = ["ops", "faults"]
TOL = 0.001


def gen(rng, tier, focus):
    faults = []
    if rng.random() < 0.5:
        scale = rng.choice([0.01, 1, 1, 60])
        ops = []
        for _ in range(rng.choice([1, 2, 4, 7])):
            o = {"at": [round(rng.random() * scale * 3, 4), rng.randint(0, 3)], "api": rng.choice(["clock", "raw"])}
            o["d"] = rng.choice([0, 0, round(rng.random() * scale, 4), round(rng.random() * scale, 4), round(rng.random() * scale * 5, 4), -1])
            if rng.random() < 0.5:
                o["o"] = "timer"
                o["wait"] = rng.choice([0, 0, 1, round(rng.random() * scale * 4, 4)])  # before it is read
            else:
                o["o"] = "ticker"
                o["d"] = max(o["d"], round(scale * (0.05 + rng.random()), 4))
                o["reads"] = [rng.choice([0, 0, 0, 1, round(rng.random() * o["d"] * 0.5, 4), round(rng.random() * o["d"] * 4, 4), o["d"] + 0.0])
                              for _ in range(rng.choice([3, 6, 12]))]
            if rng.random() < 0.5:
                r = rng.random()
                if r < 0.3:
                    o["stop"] = [0, rng.randint(0, 4)]
                elif r < 0.7:
                    o["stop"] = [round(max(0, o["d"]) * rng.choice([1, 1, 2, 3]), 6), rng.choice([0, 0, 1, 2, 3])]  # just when it is due
                else:
                    o["stop"] = [round(rng.random() * (max(0, o["d"]) * 4 + 0.01), 4), rng.randint(0, 3)]
            if rng.random() < 0.15:
                o["cancel_read"] = rng.choice([0, 1, 2, round(rng.random() * scale, 4) + 1e-6])
            ops.append(o)
        cfg = {"mode": "real"}
        if rng.random() < 0.4:
            cfg["stall"] = {"p": 0.05, "max": scale * rng.choice([0.1, 2]), "n": 5}
        for _ in range(rng.choice([0, 0, 1, 3])):
            faults.append({"t": round(rng.random() * scale * 5, 4), "d": round(rng.choice([-1, 1]) * rng.choice([1, 100]) * scale * rng.random(), 4)})
        return {"cfg": cfg, "ops": ops, "faults": faults}
    ops = []
    n = 0
    for _ in range(rng.choice([4, 8, 16, 30])):
        d = rng.choice([0, 1, 1, 2, 3, 5, 10, 0.5])
        o = {"o": rng.choices(["timer", "ticker", "step", "set", "stop", "reset", "read", "await", "look"], [4, 2, 7, 2, 2, 3, 4, 2, 1])[0], "d": d,
             "w": rng.randrange(4)}
        if o["o"] in ("timer", "ticker"):
            o["n"] = n
            n += 1
            if o["o"] == "ticker":
                o["d"] = d or 1
            elif rng.random() < 0.05:
                o["d"] = -1
        elif o["o"] in ("stop", "reset", "read", "await"):
            o["n"] = rng.randrange(max(1, n))
        elif o["o"] in ("step", "set") and rng.random() < 0.1:
            o["d"] = -o["d"]
        if o["o"] == "step" and rng.random() < 0.08:
            o["c"] = rng.randint(0, 2)
        ops.append(o)
    return {"cfg": {"mode": "fake", "gap": rng.choice([0, 0, 1, 2]), "tasks": rng.choice([1, 1, 2, 4])}, "ops": ops, "faults": []}


def simpler(plan):
    if "stall" in plan["cfg"]:
        yield lambda p: p["cfg"].pop("stall")
    for k, o in enumerate(plan["ops"]):
        for f in ("cancel_read", "c"):
            if f in o:
                yield lambda p, k=k, f=f: p["ops"][k].pop(f)
        if "reads" in o and len(o["reads"]) > 1:
            yield lambda p, k=k: p["ops"][k].__setitem__("reads", p["ops"][k]["reads"][:-1])


class Real:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]

    def late(self, since, due, now):
        return now > due + TOL + self.sim.stalled(since, now)

    def make(self, o):
        if o["api"] == "raw":
            t = (_time.Timer if o["o"] == "timer" else _time.Ticker)(o["d"])
            return t, t.c
        c = clock.RealClock()
        t = (c.new_timer if o["o"] == "timer" else c.new_ticker)(o["d"])
        return t, t.c()

    async def jumps(self):
        for f in sorted(self.plan["faults"], key=lambda f: f["t"]):
            await asyncio.sleep(max(0.0, f["t"] - self.sim.now))
            self.sim.jump(f["d"])

    async def one(self, k, o):
        sim = self.sim
        await sim.instant(o["at"])
        stop = {"t": None}
        t0 = sim.now
        timer, c = self.make(o)
        sim.event("new", k, o["o"], o["d"])
        d = max(0, o["d"])

        async def stopper():
            await sim.pause(o["stop"][0] + 0.0 if o["stop"][0] else 0)
            await sim.pause(o["stop"][1])
            stop["had"] = c.qsize()
            stop["t"] = sim.now
            stop["n"] = sim.event("stop", k)
            sim.fault("stopped")
            timer.stop()

        if "stop" in o:
            sim.helper(stopper())
        got = []
        waits = [o["wait"]] if o["o"] == "timer" else o["reads"]
        last = t0  # when the queue was last known to be empty
        for w in waits:
            await sim.pause(w)
            if c.qsize() > 1:
                sim.fail("C26", "unread", f"{o['o']} {k} has {c.qsize()} unread ticks")
            asked = sim.now
            seen = {}

            async def read():
                v = await c.get()
                seen["t"], seen["n"] = sim.now, sim.event("tick", k)
                return v

            r = asyncio.ensure_future(read())
            if "cancel_read" in o and not got:
                await sim.pause(o["cancel_read"])
                if not r.done():
                    r.cancel()
                    sim.fault("cancel_read")
                    await sim.pause(1)
                if r.cancelled():
                    asked = sim.now
                    r = asyncio.ensure_future(read())
            limit = max(d, 0.001) * 3 + 1
            a, stopped_before = sim.now, stop["t"]
            await asyncio.wait([r], timeout=limit)
            now = seen.get("t", sim.now)
            if not r.done():
                r.cancel()
                if self.late(last, last + d, sim.now if stop["t"] is None else stop["t"]):
                    sim.fail("C26", "no_tick", f"{o['o']} {k} of {o['d']} s, pending since {last:.4f}, had not ticked at {now:.4f}")
                return
            n = len(got)
            if stop["t"] is not None and not stop["had"] and seen["n"] > stop["n"]:
                sim.fail("C26", "tick_after_stop", f"{o['o']} {k} ticked although it was stopped at {stop['t']:.4f}, before its tick")
                return
            due = t0 + d * (n + 1)
            if now < due - 1e-6:
                sim.fail("C26", "early", f"{o['o']} {k} gave tick {n + 1} at {now:.6f}, not due before {due:.6f}")
                return
            at = max(last + d, asked)
            if self.late(last, at, now):
                sim.fail("C26", "late", f"{o['o']} {k} gave tick {n + 1} at {now:.6f}, it was due at {at:.6f}")
                return
            g = r.result()
            if not sim.jumps:
                from dst import boot
                g -= boot.WALL0
                if o["o"] == "ticker" and got and g < got[-1][0] - 1e-5:
                    sim.fail("C26", "kept_tick", f"ticker {k} gave a tick of {g:.6f} at {now:.6f}, made before the one read at {got[-1][0]:.6f} was taken")
                    return
            if not sim.jumps and not sim.stalls:
                if not (last + d - 1e-5 <= g + 1e-5 and g <= max(last + d, t0) + TOL) and o["o"] == "timer":
                    sim.fail("C26", "tick_value", f"timer {k} reports {g:.6f} instead of {last + d:.6f}")
                    return
                if o["o"] == "ticker" and (got and g < got[-1][1] + d - 1e-5 or g > last + d + TOL):
                    sim.fail("C26", "tick_value", f"tick {n + 1} of ticker {k} is of {g:.6f}, the one before was read at {last:.6f}")
                    return
            got.append((now, g))
            last = now
            if stop["t"] is not None:
                break
        if o["o"] == "timer" or stop["t"] is not None:
            first = c.qsize()
            if o["o"] == "timer" and first:
                sim.fail("C26", "twice", f"timer {k} ticked twice")
            await asyncio.sleep(d * 2 + 0.5)
            if c.qsize() > (first if stop["t"] is not None else 0):
                sim.fail("C26", "tick_after_stop" if stop["t"] is not None else "twice", f"{o['o']} {k} ticked again")
        else:
            timer.stop()

    async def main(self, sim):
        sim.helper(self.jumps())
        await asyncio.wait([sim.helper(self.one(k, o)) for k, o in enumerate(self.plan["ops"])])
        sim.nontrivial = bool(sim.faults)


class Model:
    """One waiter of the reference clock."""

    def __init__(self, kind, obj, target, step):
        self.kind, self.obj, self.target, self.step = kind, obj, target, step
        self.pending = True
        self.tick = None  # the unread tick
        self.readers = []


class Fake:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.w = {}
        self.now = 1000.0

    def fail(self, cls, msg):
        self.sim.fail("C26", cls, msg)

    def advance(self, t):
        self.now = t
        for m in self.w.values():
            if m.pending and m.target <= t:
                if m.tick is None:
                    m.tick = t
                if m.step:
                    while m.target <= t:
                        m.target += m.step
                else:
                    m.pending = False

    def settle(self, n, m):
        """A reader that was waiting takes the tick."""
        if m.readers and m.tick is not None:
            fut = m.readers.pop(0)
            want, m.tick = m.tick, None
            self.sim.helper(self.taken(n, fut, want))
            return True

    async def taken(self, n, fut, want):
        await self.sim.pause(6)
        if not fut.done():
            return self.fail("late", f"a reader of {n} waits although it was due")
        if fut.result() != want:
            self.fail("tick_value", f"{n} ticked with {fut.result()} instead of {want}")

    def compare(self, what):
        c = self.clock
        if c.now() != self.now or c.since(self.now - 5) != 5:
            return self.fail("clock", f"after {what} the clock shows {c.now()} instead of {self.now}")
        if c.has_waiters() != any(m.pending for m in self.w.values()):
            return self.fail("waiters", f"after {what} has_waiters() is {c.has_waiters()}")
        for n, m in self.w.items():
            if m.readers or self.cfg["tasks"] > 1:
                continue
            q = m.obj.c()
            if (q.qsize() == 1) != (m.tick is not None) or q.qsize() > 1:
                return self.fail("missed" if m.tick is not None else "alien_tick", f"after {what} {m.kind} {n} has {q.qsize()} ticks, expected {m.tick}")

    async def do(self, o):
        sim, c = self.sim, self.clock
        what = o["o"]
        m = self.w.get(o.get("n"))
        sim.event(what, o.get("n"), o["d"])
        if what == "timer":
            self.w[o["n"]] = Model(what, c.new_timer(o["d"]), self.now + o["d"], 0)
        elif what == "ticker":
            self.w[o["n"]] = Model(what, c.new_ticker(o["d"]), self.now + o["d"], o["d"])
        elif what in ("step", "set"):
            if self.cfg["tasks"] > 1 and what == "set":
                return
            if "c" in o:
                t = asyncio.ensure_future(self.step(o["d"]))
                sim.fault("cancel_step")
                await sim.pause(o["c"])
                if not t.done():
                    t.cancel()
                    await asyncio.wait([t])
                if t.cancelled():
                    return
            elif what == "step":
                await self.step(o["d"])
            else:
                self.advance(self.now + o["d"])
                await c.set_time(self.now)
            if any(x.pending for x in self.w.values()):
                sim.nontrivial = True
            if any([self.settle(n, x) for n, x in self.w.items()]):
                await sim.pause(7)
        elif m is None:
            return
        elif what == "stop":
            r = m.obj.stop()
            if m.kind == "timer":
                sim.nontrivial = True
                if bool(r) != m.pending:
                    self.fail("stop_result", f"stop() of timer {o['n']} gave {r}, it was {'pending' if m.pending else 'not pending'}")
                m.pending = False
        elif what == "reset":
            if m.kind != "timer":
                return
            r = m.obj.reset(o["d"])
            sim.nontrivial = True
            if bool(r) != m.pending:
                self.fail("reset_result", f"reset() of timer {o['n']} gave {r}, it was {'pending' if m.pending else 'not pending'}")
            if m.pending:
                m.target = self.now + o["d"]
        elif what == "read":
            if m.readers or self.cfg["tasks"] > 1:
                return
            q = m.obj.c()
            got = q.get_nowait() if q.qsize() else None
            if got != m.tick:
                self.fail("tick_value", f"{m.kind} {o['n']} gave {got} instead of {m.tick}")
            m.tick = None
        elif what == "await":
            if not m.readers and m.tick is None and self.cfg["tasks"] == 1:
                m.readers.append(asyncio.ensure_future(m.obj.c().get()))
                await sim.pause(1)

    async def step(self, d):
        self.advance(self.now + d)
        await self.clock.step(d)

    async def part(self, ops):
        for o in ops:
            await self.sim.pause(o["w"] if self.cfg["gap"] else 0)
            try:
                await self.do(o)
            except Exception as e:
                if not blames_code(e):
                    raise
                if not self.sim.violations:
                    self.fail("raised:" + type(e).__name__, f"{o['o']} raised {crash_text(e)}")
                return
            if self.cfg["tasks"] == 1:
                await self.sim.pause(self.cfg["gap"])
            self.compare(o["o"])
            if self.sim.violations:
                return

    async def main(self, sim):
        self.clock = clock.FakeClock(self.now)
        k = self.cfg["tasks"]
        await asyncio.wait([sim.helper(self.part(self.plan["ops"][i::k])) for i in range(k)], timeout=60)
        await sim.pause(10)


def run(plan):
    sim = Sim(plan)
    h = (Real if plan["cfg"]["mode"] == "real" else Fake)(sim, plan)
    sim.run(h.main, "C26")
    sim.probe("mode_" + plan["cfg"]["mode"])
    sim.stats["waiters"] = sum(o["o"] in ("timer", "ticker") for o in plan["ops"])
    return sim
