"""Delayed adds under a steady clock (exact expectation) and under clock steps, stalls, cancelled callers (C04)."""
import asyncio
import bisect

from dst.core import Sim, crash_text
from dst.gen import item

from aiok8s.workqueue import default_rate_limiters, delaying_queue, rate_limiting_queue

NONTRIVIAL = "at least two delays were outstanding at once"
REAL = ["aiok8s.workqueue.queue", "aiok8s.workqueue.delaying_queue", "aiok8s.util.clock", "aiok8s.util._time",
        "asyncio primitives"]
STUB = ["event loop clock and timers", "wall clock", "producers and workers"]
SHRINK = ["ops", "faults"]
TOL = 0.01
HEARTBEAT = 10.0


def gen(rng, tier, focus):
    mode = rng.choices(["exact", "loose", "burst"], [5, 6, 0.15])[0]
    n_items = rng.choice([1, 2, 3, 5])
    n = rng.choice([3, 6, 12, 20])
    big = rng.choice([0.3, 2, 12, 40])
    ops, faults = [], []
    cfg = {"mode": mode, "kind": rng.choice(["delaying", "rate"])}
    if mode == "burst":
        cfg["n"] = rng.choice([1001, 1200, 1600])
        cfg["max"] = rng.choice([0.01, 3, 20])
        cfg["same"] = rng.random() < 0.2
        cfg["digits"] = rng.choice([5, 2])
        return {"cfg": cfg, "ops": [], "faults": []}
    slot = rng.choice([0.1, 0.4, 1.7])
    # distinct instants: calls at k*slot + k*0.004, delays with fractions that keep ready times apart
    for k in range(n):
        r = rng.random()
        o = {"t": round(k * slot + 0.0037 * k, 6), "i": rng.randrange(n_items)}
        if r < 0.12:
            o["o"] = "add"
        elif r < 0.2:
            o["o"] = "after"
            o["d"] = rng.choice([0, -1, -0.001])
        else:
            o["o"] = "after"
            o["d"] = round(rng.random() ** 2 * big + 0.0005 + 0.00013 * k, 6)
        if mode == "loose":
            if rng.random() < 0.15:
                o["c"] = rng.choice([0, 1, 2, 0.001])
            if rng.random() < 0.3 and ops:
                o["t"] = ops[-1]["t"]
        ops.append(o)
    if mode == "loose" and rng.random() < 0.3:  # delays that end at the very same time
        same = rng.choice([0.5, 2])
        for o in ops:
            if o["o"] == "after" and rng.random() < 0.7:
                o["d"] = same
                o["t"] = round(int(o["t"] / same) * same, 6)
        ops.sort(key=lambda o: o["t"])
    cfg["hold"] = rng.choice([0, 0, 0.02, 0.7])
    if mode == "loose":
        cfg["workers"] = rng.choice([1, 3])
        if rng.random() < 0.4:
            cfg["stall"] = {"p": 0.02, "max": rng.choice([0.1, 1.0]), "n": 8}
        t = 0.0
        for _ in range(rng.choice([0, 1, 2, 4])):
            t += rng.random() * (n * slot + big) / 3
            faults.append({"t": round(t, 4), "d": round(rng.choice([-1, 1]) * rng.choice([0.05, 1, 15, 15, 300, 300, 3000]) * rng.random(), 4)})
    return {"cfg": cfg, "ops": ops, "faults": faults}


def simpler(plan):
    yield lambda p: p["cfg"].__setitem__("hold", 0)
    yield lambda p: p["cfg"].pop("stall")
    for k in range(len(plan["ops"])):
        if "c" in plan["ops"][k]:
            yield lambda p, k=k: p["ops"][k].pop("c")


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.handouts = []  # (t, item, t_done)
        self.reqs = []

    async def worker(self):
        hold = self.cfg.get("hold", 0)
        while True:
            x, down = await self.q.get()
            if down:
                return
            rec = [self.sim.now, x, None]
            self.handouts.append(rec)
            self.sim.event("handed", repr(x))
            if hold:
                await asyncio.sleep(hold)
            rec[2] = self.sim.now
            await self.q.done(x)

    async def request(self, k, o):
        sim = self.sim
        x = item(o["i"])
        rec = {"k": k, "x": x, "t": sim.now, "lo": sim.wall(), "hi": sim.wall(), "d": o.get("d", 0), "o": o["o"], "optional": False}
        self.reqs.append(rec)

        async def call():
            rec["t"] = sim.now
            rec["lo"] = rec["hi"] = sim.wall()
            sim.event("call", o["o"], o["i"], o.get("d", 0))
            try:
                await (self.q.add(x) if o["o"] == "add" else self.q.add_after(x, o["d"]))
            finally:
                rec["lo"] = min(rec["lo"], sim.wall())
                rec["hi"] = max(rec["hi"], sim.wall())

        task = asyncio.ensure_future(call())
        if "c" in o:
            await sim.pause(o["c"])
            if not task.done():
                rec["optional"] = True
                task.cancel()
                sim.fault("cancel_add_after")
        try:
            await task
        except asyncio.CancelledError:
            pass
        except Exception as e:
            sim.fail("C04", "raised:" + type(e).__name__, f"add_after raised {crash_text(e)}")

    async def jumps(self):
        for f in self.plan["faults"]:
            await asyncio.sleep(max(0.0, f["t"] - self.sim.now))
            self.sim.jump(f["d"])

    async def main(self, sim):
        cfg = self.cfg
        self.q = delaying_queue.new() if cfg["kind"] == "delaying" else rate_limiting_queue.new(
            default_rate_limiters.ItemExponentialFailureRateLimiter(1, 2))
        if cfg["mode"] == "burst":
            return await self.burst(sim)
        n = 6 if cfg["mode"] == "exact" else cfg["workers"]
        for _ in range(n):
            self.sim.helper(self.worker())
        self.sim.helper(self.jumps())
        tasks = []
        for k, o in enumerate(self.plan["ops"]):
            d = o["t"] - sim.now
            if d > 0:
                await asyncio.sleep(d)
            tasks.append(asyncio.ensure_future(self.request(k, o)))
        jump = sum(abs(f["d"]) for f in self.plan["faults"])
        horizon = max([o["t"] + max(0, o.get("d", 0)) for o in self.plan["ops"]], default=0)
        last_fault = max([f["t"] for f in self.plan["faults"]], default=0)
        self.until = max(horizon, last_fault) + jump + 40 + 30 * cfg.get("hold", 0)
        await asyncio.sleep(max(0.0, self.until - sim.now))
        for t in tasks:
            if not t.done():
                sim.fail("C04", "stuck", "add_after never returned")

    async def burst(self, sim):
        cfg = self.cfg
        rng = sim.rng("burst")
        n = cfg["n"]
        seen = {}
        late = []

        async def work():
            while True:
                x, down = await self.q.get()
                if down:
                    return
                seen.setdefault(x, []).append(sim.now)
                await self.q.done(x)

        for _ in range(3):
            asyncio.ensure_future(work())
        delays = [round(0.001 + rng.random() * cfg["max"], cfg.get("digits", 5)) + 0.001 for _ in range(n)]
        t0 = sim.now
        await asyncio.wait([asyncio.ensure_future(self.q.add_after(item(0 if cfg["same"] else k), d)) for k, d in enumerate(delays)],
                           timeout=60)
        await asyncio.sleep(cfg["max"] + 30)
        sim.event("burst", n, len(seen))
        sim.probe("burst_over_1000")
        self.peak = n
        want = {0: min(delays)} if cfg["same"] else dict(enumerate(delays))
        for k, d in want.items():
            got = seen.get(item(k), [])
            if len(got) != 1:
                sim.fail("C04", "lost" if not got else "extra", f"item {k} of a burst of {n} delayed adds was handed out {len(got)} times")
                return
            if not d - 1e-4 <= got[0] - t0 <= d + TOL:
                sim.fail("C04", "early" if got[0] - t0 < d else "late", f"item {k} with delay {d} came after {got[0] - t0:.4f} s")
                return

    # -- oracles
    def verdict(self):
        sim = self.sim
        if sim.violations or self.cfg["mode"] == "burst":
            return
        if self.cfg["mode"] == "exact":
            self.exact()
        else:
            self.loose()

    def exact(self):
        sim, hold = self.sim, self.cfg["hold"]
        for x in dict.fromkeys(r["x"] for r in self.reqs):
            reqs = [r for r in self.reqs if r["x"] == x]
            expected = reference(reqs, hold)
            got = [h[0] for h in self.handouts if h[1] == x]
            for a, b in zip(expected, got):
                if b < a - 1e-4:
                    sim.fail("C04", "early", f"{x!r} was handed out at {b:.4f}, expected {a:.4f}")
                    return
                if b > a + TOL:
                    sim.fail("C04", "late", f"{x!r} was handed out at {b:.4f}, expected {a:.4f}")
                    return
            if len(got) < len(expected):
                sim.fail("C04", "lost", f"{x!r} was never handed out for the delay that ended at {expected[len(got)]:.4f}")
                return
            if len(got) > len(expected):
                sim.fail("C04", "extra", f"{x!r} was handed out once too often, at {got[len(expected)]:.4f}")
                return

    def loose(self):
        sim = self.sim
        hold = self.cfg["hold"]
        wall = Wall(sim)
        n_items = len({r["x"] for r in self.reqs})
        for x in dict.fromkeys(r["x"] for r in self.reqs):
            reqs = [r for r in self.reqs if r["x"] == x]
            outs = [h[0] for h in self.handouts if h[1] == x]
            # never early, never more often than asked
            reached = sorted(wall.first_reach(r["t"], r["lo"] + max(0, r["d"]) - 1e-5) - 1e-4 for r in reqs)
            for n, t in enumerate(outs):
                if bisect.bisect_right(reached, t) < n + 1:
                    sim.fail("C04", "early", f"hand-out {n + 1} of {x!r} at {t:.4f} although only {bisect.bisect_right(reached, t)} "
                             "requests were due by then")
                    return
            for r in reqs:
                if r["optional"]:
                    continue
                # the queue may be busy: every hand-out may hold its worker
                slack = TOL + (len(self.handouts) if self.cfg["workers"] == 1 else n_items + 1) * hold * 1.01
                due = wall.steady_reach(r["t"], r["hi"] + max(0, r["d"]))
                if due is None:
                    continue
                t, stepped = due
                deadline = t + slack + (HEARTBEAT if stepped else 0)
                while True:  # stalls delay everything
                    d2 = t + slack + (HEARTBEAT if stepped else 0) + sim.stalled(r["t"], deadline) + 1e-6
                    if d2 <= deadline + 1e-9:
                        break
                    deadline = d2
                if deadline > self.until:
                    continue
                if not any(r["t"] <= o <= deadline for o in outs):
                    later = [o for o in outs if o > deadline]
                    sim.fail("C04", "late" if later else "lost",
                             f"{x!r} asked for at {r['t']:.4f} with delay {r['d']} was due at {t:.4f} and "
                             + (f"came at {later[0]:.4f}" if later else "never came"))
                    return


def reference(reqs, hold):
    """Exact hand-out times of one item with a free worker, distinct instants and a steady clock."""
    ev = sorted([(r["t"], r["d"] if r["o"] == "after" else 0) for r in reqs])
    out = []
    ready = None
    busy_until = -1.0
    dirty = False
    i = 0
    inf = float("inf")
    while True:
        t_call = ev[i][0] if i < len(ev) else inf
        t_fire = ready if ready is not None else inf
        t_done = busy_until if dirty else inf
        t = min(t_call, t_fire, t_done)
        if t == inf:
            return out
        if t == t_done:
            dirty = False
            out.append(t)
            busy_until = t + hold
            continue
        if t == t_fire:
            ready = None
            arrive = True
        else:
            d = ev[i][1]
            i += 1
            arrive = d <= 0
            if not arrive:
                ready = t + d if ready is None else min(ready, t + d)
        if arrive:
            if hold and t < busy_until:
                dirty = True
            else:
                out.append(t)
                busy_until = t + hold


class Wall:
    """The wall clock as a piecewise linear function of loop time."""

    def __init__(self, sim):
        from dst import boot

        self.segs = []  # (t0, t1, offset, stepped into)
        off, t = boot.WALL0, 0.0
        for jt, d in sim.jumps:
            self.segs.append((t, jt, off))
            off += d
            t = jt
        self.segs.append((t, float("inf"), off))

    def first_reach(self, since, ready):
        for t0, t1, off in self.segs:
            if t1 < since:
                continue
            a = max(t0, since)
            if a + off >= ready:
                return a
            t = ready - off
            if a <= t <= t1:
                return t
        return float("inf")

    def steady_reach(self, since, ready):
        """The start of the first period of more than the heartbeat during which the clock shows ready or more,
        and whether a step happened since the request."""
        start = None
        stepped = False
        best = None
        for n, (t0, t1, off) in enumerate(self.segs):
            if t1 <= since:
                continue
            a = max(t0, since)
            if t0 > since:
                stepped = True
            t = max(a, ready - off)
            if start is not None and a + off < ready:
                start = None
            if start is None and t <= t1:
                start = t
                best = stepped
            if start is not None and t1 - start > HEARTBEAT + 3:
                # a step while waiting may cost the heartbeat even if the period began without one
                return start, best or stepped or n + 1 < len(self.segs) and self.segs[n][1] < start + HEARTBEAT + 3
        return None


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C04")
    h.verdict()
    live = 0
    for r in h.reqs:
        live += r["d"] > 0
    sim.nontrivial = live > 1 or plan["cfg"]["mode"] == "burst"
    sim.probe("mode_" + plan["cfg"]["mode"])
    sim.stats = {"delayed_adds": live, "hand_outs": len(h.handouts)}
    return sim
