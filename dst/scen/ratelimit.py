"""Rate limiters driven by tasks under simulated time, and the rate limiting queue (C05)."""
import asyncio
import math

from dst.core import Sim, crash_text
from dst import gen as plans

from aiok8s.workqueue import default_rate_limiters as drl
from aiok8s.workqueue import rate_limiting_queue

NONTRIVIAL = "some delay was neither zero nor the maximum"
REAL = ["aiok8s.workqueue.default_rate_limiters", "aiok8s.workqueue.rate_limiting_queue",
        "aiok8s.workqueue.delaying_queue", "aiok8s.workqueue.queue"]
STUB = ["event loop clock and timers", "wall clock", "callers"]
SHRINK = ["ops", "faults"]


def gen(rng, tier, focus):
    mode = rng.choices(["item", "bucket", "max", "queue", "many", "crowd"], [3, 4, 3, 3, 0.6, 0.3])[0]
    items = rng.choice([1, 2, 4])
    n = rng.choice([5, 15, 40, 80])
    cfg = {"mode": mode, "base": rng.choice([0.001, 0.005, 1, 3]), "max": rng.choice([0.004, 1, 60, 1000]),
           "rate": rng.choice([0.5, 1, 10, 1000]), "burst": rng.choice([1, 2, 5, 100])}
    if mode in ("item", "many") and rng.random() < 0.3:  # a long way from the first delay to the last
        cfg["base"], cfg["max"] = rng.choice([1e-6, 0.001]), rng.choice([86400, 1e7, 1e9])
    if mode == "max" and rng.random() < 0.4:
        cfg["default"] = 1
    if mode == "max" and rng.random() < 0.7:  # any number of limiters in any order, or combined ones again
        part = lambda: rng.choice([["item", rng.choice([0.001, 0.7, 3]), rng.choice([0.5, 60, 1000])],
                                   ["bucket", rng.choice([0.5, 1, 10]), rng.choice([1, 5, 100])]])
        cfg["parts"] = [part() for _ in range(rng.choice([1, 2, 2, 3]))]
        cfg["nested"] = int(rng.random() < 0.3)
        cfg["max"], cfg["rate"] = 1000, 0.5
    gap = rng.choice([0, 0.01, 0.3, 5])
    ops, faults = [], []
    t = 0.0
    for _ in range(n):
        if rng.random() < 0.6:
            t += round(rng.random() * gap * 2, 6)
        r = rng.random()
        o = {"t": t, "i": rng.randrange(items)}
        if r < 0.78:
            o["o"] = "when"
        elif r < 0.88:
            o["o"] = "forget"
        else:
            o["o"] = "num"
        if mode == "bucket" and rng.random() < 0.05:
            o["rep"] = cfg["burst"] + rng.randint(0, 5)
        ops.append(o)
    if mode == "many":
        ops = [{"t": 0.0, "i": 0, "o": "when", "rep": rng.choice([60, 1030, 1100, 2500])}, *ops[:6]]
        cfg["default"] = int(rng.random() < 0.4)
    if mode == "crowd":  # very many items fail, some of them again and again
        cfg["n"] = rng.choice([100, 1000, 5000])
        ops = ops[:30]
    if mode in ("bucket", "max") and rng.random() < 0.35:
        for _ in range(rng.randint(1, 3)):
            faults.append({"t": round(rng.random() * (t + 1), 4), "d": round(rng.choice([-1, 1]) * rng.random() * rng.choice([0.5, 60, 1e6]), 4)})
    if mode == "queue":
        cfg["fail"] = [rng.randint(0, 12) for _ in range(items)]
        cfg["base"] = rng.choice([0.001, 0.005, 0.05])
        cfg["hold"] = rng.choice([0, 0.01])
        ops = []
    return {"cfg": cfg, "ops": ops, "faults": sorted(faults, key=lambda f: f["t"])}


class Item:
    def __init__(self, base, cap):
        self.base, self.cap, self.f = base, cap, {}

    def when(self, x, now):
        n = self.f.get(x, 0)
        self.f[x] = n + 1
        if n > 1000:
            return self.cap
        return min(self.base * 2.0**n, self.cap)

    def forget(self, x):
        self.f.pop(x, None)

    def num(self, x):
        return self.f.get(x, 0)


class Bucket:
    """A full token bucket; a start is permitted as soon as it has a whole token."""

    def __init__(self, rate, burst):
        self.rate, self.burst = rate, burst
        self.tokens, self.last = float(burst), None

    def when(self, x, now):
        if self.last is not None:
            self.tokens = min(self.burst, self.tokens + max(0.0, now - self.last) * self.rate)
        self.last = now
        self.tokens -= 1
        return max(0.0, -self.tokens / self.rate)

    def forget(self, x):
        pass

    def num(self, x):
        return 0


class Max:
    def __init__(self, *parts):
        self.parts = parts

    def when(self, x, now):
        return max([p.when(x, now) for p in self.parts])

    def forget(self, x):
        for p in self.parts:
            p.forget(x)

    def num(self, x):
        return max(p.num(x) for p in self.parts)


def build(cfg):
    mode = cfg["mode"]
    if cfg.get("parts") and hasattr(drl, "_MaxOfRateLimiters"):
        def part(kind, a, b):
            if kind == "item":
                return drl.ItemExponentialFailureRateLimiter(a, b), Item(a, b)
            return drl.BucketRateLimiter(a, b), Bucket(a, b)
        pairs = [part(*p) for p in cfg["parts"]]
        if cfg["nested"] and len(pairs) > 1:
            tail = pairs[1:]
            pairs[1:] = [(drl._MaxOfRateLimiters(*[a for a, _ in tail]), Max(*[b for _, b in tail]))]
        return drl._MaxOfRateLimiters(*[a for a, _ in pairs]), Max(*[b for _, b in pairs])
    if cfg.get("default") or mode == "max" and not hasattr(drl, "_MaxOfRateLimiters"):
        cfg["default"] = 1
        return drl.default_controller_rate_limiter(), Max(Item(0.005, 1000), Bucket(10, 100))
    if mode == "bucket":
        return drl.BucketRateLimiter(cfg["rate"], cfg["burst"]), Bucket(cfg["rate"], cfg["burst"])
    item = lambda: (drl.ItemExponentialFailureRateLimiter(cfg["base"], cfg["max"]), Item(cfg["base"], cfg["max"]))
    if mode == "max":
        a, ra = item()
        b, rb = drl.BucketRateLimiter(cfg["rate"], cfg["burst"]), Bucket(cfg["rate"], cfg["burst"])
        return drl._MaxOfRateLimiters(a, b), Max(ra, rb)
    return item()


name = plans.item


async def main(sim, plan):
    cfg = plan["cfg"]
    if cfg["mode"] == "queue":
        return await queue_main(sim, plan)
    lim, ref = build(cfg)
    if cfg["mode"] == "crowd":
        sim.probe("crowd")
        for k in range(3):
            got, want = lim.when(name(0)), ref.when(name(0), sim.wall())
            if abs(got - want) > 1e-9 + want * 1e-9:
                sim.fail("C05", "delay-crowd", f"retry {k + 1} is delayed by {got:.6f} s instead of {want:.6f} s")
        for i in range(1, cfg["n"]):
            got, want = lim.when(name(i)), ref.when(name(i), sim.wall())
            if abs(got - want) > 1e-9 + want * 1e-9:
                sim.fail("C05", "delay-crowd", f"the first retry of item {i} is delayed by {got:.6f} s instead of {want:.6f} s")
                return
        for i in (0, 1, cfg["n"] - 1):
            if lim.num_requeues(name(i)) != ref.num(name(i)):
                sim.fail("C05", "num_requeues", f"num_requeues reports {lim.num_requeues(name(i))} instead of {ref.num(name(i))} "
                         f"after {cfg['n']} items failed")
                return
    starts = []
    events = [(o["t"], 1, o) for o in plan["ops"]] + [(f["t"], 0, f) for f in plan["faults"]]
    stepped = False
    calls = 0
    seen = (sim.now, sim.wall())  # at the last call of when
    owed = sim.wall()  # the time that has passed for certain: by any clock, and without what a step took back
    for t, kind, o in sorted(events, key=lambda e: (e[0], e[1])):
        if t > sim.now:
            await asyncio.sleep(t - sim.now)
        if kind == 0:
            sim.jump(o["d"])
            stepped = True
            continue
        x = name(o["i"])
        for _ in range(o.get("rep", 1)):
            sim.event(o["o"], o["i"])
            try:
                if o["o"] == "forget":
                    lim.forget(x)
                    ref.forget(x)
                    got, want = lim.num_requeues(x), ref.num(x)
                    if got != want:
                        sim.fail("C05", "num_requeues", f"num_requeues is {got} after forget")
                elif o["o"] == "num":
                    got, want = lim.num_requeues(x), ref.num(x)
                    if got != want:
                        sim.fail("C05", "num_requeues", f"num_requeues reports {got} instead of {want}")
                else:
                    calls += 1
                    got = lim.when(x)
                    owed += max(0.0, min(sim.now - seen[0], sim.wall() - seen[1]))
                    seen = (sim.now, sim.wall())
                    want = ref.when(x, owed)
                    if 0 < got < cfg["max"]:
                        sim.nontrivial = True
                    if not (isinstance(got, (int, float)) and math.isfinite(got) and got >= 0):
                        sim.fail("C05", "not-a-delay", f"when returned {got!r}")
                    elif not stepped:
                        starts.append(sim.now + got)
                        eps = 2e-3 / cfg["rate"] + 1e-4 if cfg["mode"] not in ("item", "crowd") else 1e-9 + want * 1e-9
                        if abs(got - want) > eps:
                            which = "late" if got > want else "early"
                            sim.fail("C05", "delay-" + which, f"call {calls} was given a delay of {got:.6f} s instead of {want:.6f} s")
                    elif got > want + 2e-3 / cfg["rate"] + 1e-3 + want * 1e-9:
                        sim.fail("C05", "delay-unbounded", f"a delay of {got:.3f} s after a clock step (at most {want:.3f} s is owed)")
            except Exception as e:
                sim.fail("C05", "raised:" + type(e).__name__, f"{o['o']} raised {crash_text(e)} (call {calls} of when)")
            if sim.violations:
                return
    if cfg["mode"] == "bucket" and not stepped:
        starts.sort()
        rate, burst = cfg["rate"], cfg["burst"]
        for i in range(len(starts)):
            for j in range(i + burst, len(starts)):
                if j - i + 1 > burst + rate * (starts[j] - starts[i]) + 0.02:
                    sim.fail("C05", "rate", f"{j - i + 1} starts permitted within {starts[j] - starts[i]:.4f} s")
                    return
    sim.stats = {"limiter_calls": calls}


async def queue_main(sim, plan):
    """Items that keep failing and are retried through the rate limiting queue."""
    cfg = plan["cfg"]
    q = rate_limiting_queue.new(drl.ItemExponentialFailureRateLimiter(cfg["base"], cfg["max"]))
    left = dict(enumerate(cfg["fail"]))
    done_at = {}
    count = {i: 0 for i in left}
    finished = {i: 0 for i in left}
    index = {name(i): i for i in left}

    async def worker():
        while True:
            x, down = await q.get()
            if down:
                return
            i = index[x]
            if i in done_at:
                gap = sim.now - done_at[i]
                want = min(cfg["base"] * 2 ** (count[i] - 1), cfg["max"])
                if gap < want - 1e-4:
                    sim.fail("C05", "queue-early", f"retry {count[i]} of an item came after {gap:.5f} s instead of {want:.5f} s")
                if gap > want + 0.02 + cfg["hold"]:
                    sim.fail("C05", "queue-late", f"retry {count[i]} of an item came after {gap:.5f} s instead of {want:.5f} s")
            if q.num_requeues(name(i)) != count[i]:
                sim.fail("C05", "num_requeues", f"num_requeues reports {q.num_requeues((i, 'x'))} instead of {count[i]}")
            sim.event("try", i, count[i])
            if cfg["hold"]:
                await asyncio.sleep(cfg["hold"])
            if left[i] > 0:
                left[i] -= 1
                count[i] += 1
                done_at[i] = sim.now
                sim.nontrivial = True
                await q.add_rate_limited(name(i))
            else:
                q.forget(name(i))
                count[i] = 0
                done_at.pop(i, None)
                finished[i] += 1
                if finished[i] == 1:
                    left[i] = 2
                    await q.add(name(i))
            await q.done(name(i))

    workers = [sim.helper(worker()) for _ in range(3)]
    for i in left:
        await q.add(name(i))
    total = sum(min(cfg["base"] * 2**k, cfg["max"]) for f in cfg["fail"] for k in range(f + 3))
    await asyncio.sleep(total + 5 + 2 * len(left))
    for i in left:
        if finished[i] != 2:
            sim.fail("C05", "queue-lost", f"an item that still has to be retried never came back ({finished[i]} successes)")
    for w in workers:
        if w.done() and w.exception():
            sim.fail("C05", "raised:" + type(w.exception()).__name__, crash_text(w.exception()))


def run(plan):
    sim = Sim(plan)
    sim.run(lambda s: main(s, plan), "C05")
    sim.probe("mode_" + plan["cfg"]["mode"])
    return sim
