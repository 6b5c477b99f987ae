"""Producers, workers, cancelled callers and shutdown on the three work queues (C01, C02, C03)."""
import asyncio
import collections

from dst import lin
from dst.core import Sim, crash_text
from dst.gen import pause

from aiok8s.workqueue import default_rate_limiters, delaying_queue, queue, rate_limiting_queue

NONTRIVIAL = "two calls of different actors overlapped and an item was handed out"
REAL = ["aiok8s.workqueue.queue", "aiok8s.workqueue.delaying_queue", "aiok8s.workqueue.rate_limiting_queue",
        "aiok8s.workqueue.default_rate_limiters", "aiok8s.util.clock", "aiok8s.util._time", "asyncio primitives"]
STUB = ["event loop clock and timers", "wall clock", "producers and workers"]
ASSUMPTIONS = ["a worker marks done every item it was handed, once"]

ITEMS = [("ns", "a"), 0, "", ("ns", "b"), None, "x"]


def item(i):
    if i >= len(ITEMS):
        return ("many", i)
    v = ITEMS[i]
    return tuple(list(v)) if isinstance(v, tuple) else v


def gen_bulk(rng, kind):
    """One caller and very many items."""
    n = rng.choice([40, 150, 150, 400, 400, 1500])
    ops = []
    if rng.random() < 0.3:  # all of them wait at once
        for i in range(n):
            ops.append({"o": "add", "i": i} if kind == "plain" or rng.random() < 0.9 else {"o": "after", "i": i, "d": 0})
        for i in range(n):
            ops.append({"o": "get", "h": 0, "c": 0.001})
            if rng.random() < 0.05:
                ops[-1]["r"] = 1
    for phase in range(rng.choice([0, 1, 3]) if ops else rng.choice([1, 3])):
        for _ in range(n):
            i = 100 * phase + rng.randrange(n)
            if rng.random() < 0.7:
                o = {"o": "add", "i": i}
                if kind != "plain" and rng.random() < 0.1:
                    o.update(o="after", d=0)
            else:
                o = {"o": "get", "h": 0, "c": 0.001}
                if rng.random() < 0.3:
                    o["r"] = 1
            ops.append(o)
        for _ in range(rng.choice([0, n // 2, n])):
            ops.append({"o": "get", "h": 0, "c": 0.001})
    for o in ops:
        o.update(a=0, p=0)
    return {"cfg": {"kind": kind, "stall": None, "shut_twice": False}, "ops": ops, "late": []}


def gen_crew(rng, kind, focus):
    """Many workers that finish together, while others are idle or arrive, around a shutdown."""
    timed = rng.random() < 0.3
    busy, idle = rng.randint(1, 7), rng.randint(0, 4) if rng.random() < 0.9 else rng.choice([12, 25, 60, 150])
    hold = rng.randint(4, 10)
    ops = [{"a": 10 + k, "p": 0, "o": "get", "h": hold + rng.choice([0, 0, 0, 1])} for k in range(busy)]
    for o in ops:
        if rng.random() < 0.3:
            o["r"] = 1
    ops += [{"a": (30 if k < 4 else 200) + k, "p": rng.choice([1, 2, hold]), "o": "get", "h": pause(rng, 20, timed)} for k in range(idle)]
    names = [i if i < len(ITEMS) else 90 + i for i in range(busy + 3)]
    rng.shuffle(names)
    for k in range(busy):
        ops.append({"a": 0, "p": 0, "o": "add", "i": names[k]})
    # while they are held, or as they are finished
    for k in range(rng.randint(1, busy + 2)):
        ops.append({"a": 1 + rng.randrange(3), "p": rng.choice([0, 0, 1, hold - 1, hold, hold + 1]), "o": "add", "i": rng.choice(names)})
    if rng.random() < (0.9 if focus == "C03" else 0.3):
        ops.append({"a": 4, "p": rng.choice([3, hold, hold + 2, 2 * hold]), "o": "shut"})
        for k in range(rng.randint(0, 3)):
            ops.append({"a": 50 + k, "p": rng.choice([4, hold, hold + 3]), "o": "get", "h": rng.choice([0, 3, 20])})
    for k in range(rng.randint(0, 4)):
        ops.append({"a": rng.choice([10, 11, 30, 31, 50]), "p": 0, "o": "get", "h": rng.choice([0, hold])})
    return {"cfg": {"kind": kind, "stall": None, "shut_twice": False}, "ops": ops, "late": []}


def gen(rng, tier, focus):
    kind = rng.choice(["plain", "plain", "delaying", "rate"])
    r = rng.random()
    if r < 0.01:
        return gen_bulk(rng, kind)
    if r < 0.1:
        return gen_crew(rng, kind, focus)
    n_items = rng.choice([1, 2, 2, 3, 4, 6])
    actors = rng.randint(2, 5)
    n_ops = rng.choice([4, 8, 12, 16, 24, 30])
    p_cancel = rng.choice([0, 0.1, 0.3, 0.6])
    p_kill = rng.choice([0, 0.1, 0.3, 0.5])
    w_get = rng.choice([0.3, 0.45, 0.6])
    spread = rng.choice([1, 3, 6])
    timed = rng.random() < 0.4
    p_shut = rng.choice([0, 0, 0.05]) if focus != "C03" else rng.choice([0.05, 0.1])
    ops = []
    base = rng.sample(range(len(ITEMS)), n_items)
    for _ in range(n_ops):
        o = {"a": rng.randrange(actors), "p": pause(rng, spread, timed)}
        r = rng.random()
        if r < p_shut:
            o["o"] = "shut"
        elif r < p_shut + w_get:
            o["o"] = "get"
            o["h"] = pause(rng, spread * 2, timed)
            if rng.random() < 0.3:
                o["r"] = 1  # adds the item again while holding it
        elif r < 0.93:
            o["o"] = "add"
            o["i"] = rng.choice(base)
            if kind != "plain" and rng.random() < 0.5:
                o["o"] = "after" if kind == "delaying" or rng.random() < 0.5 else "rate"
                if o["o"] == "after":
                    o["d"] = rng.choice([-1, 0, 0.001, 0.005, 0.01, 0.02, 0.5])
        else:
            o["o"] = "len"
        if o["o"] in ("get", "add", "after", "rate") and rng.random() < p_cancel:
            o["c"] = rng.randint(0, spread + 2) if not timed or rng.random() < 0.7 else rng.random() * 0.02
        elif o["o"] in ("add", "after", "rate", "len", "get") and rng.random() < p_kill:
            # then kills a worker that is blocked in get, just when something may have been handed to it
            o["x"] = [rng.randint(0, 2), rng.randint(0, 3)]
        ops.append(o)
    if rng.random() < 0.3:  # workers blocked in get when items and kills arrive
        ops = [{"a": 10 + k, "p": rng.randint(0, 2), "o": "get", "h": pause(rng, 4, timed)} for k in range(rng.randint(2, 5))]
        for k in range(rng.randint(1, 3)):
            o = {"a": rng.randint(0, 1), "p": rng.randint(3, 8), "o": "add", "i": rng.choice(base)}
            if rng.random() < 0.6:
                o["x"] = [rng.randint(0, 2), rng.randint(0, 3)]
            ops.append(o)
        for _ in range(rng.randint(0, 2)):
            ops.append({"a": rng.randint(10, 14), "p": rng.randint(0, 4), "o": "get", "h": 0})
    stall = {"p": 0.02, "max": 0.05, "n": 6} if rng.random() < 0.3 else None
    late = []
    for _ in range(rng.randint(0, 3)):
        late.append({"o": rng.choice(["add", "after"]) if kind != "plain" else "add", "i": rng.choice(base),
                     "d": rng.choice([0, 0.001, 0.3])})
    return {"cfg": {"kind": kind, "stall": stall, "shut_twice": rng.random() < 0.5}, "ops": ops, "late": late}


SHRINK = ["ops", "late"]


def simpler(plan):
    def no_stall(p):
        p["cfg"]["stall"] = None

    yield no_stall
    for k in range(len(plan["ops"])):
        for key in ("c", "r", "x"):
            if key in plan["ops"][k]:
                yield lambda p, k=k, key=key: p["ops"][k].pop(key)
        if plan["ops"][k]["p"]:
            yield lambda p, k=k: p["ops"][k].__setitem__("p", 0)


# model state: (queue, dirty, processing, shut)
INIT = ((), frozenset(), frozenset(), False)


def step(s, op):
    q, dirty, proc, shut = s
    k = op.kind
    if k == "add":
        x = op.args[0]
        if shut or x in dirty:
            return (s,)
        if x in proc:
            return ((q, dirty | {x}, proc, shut),)
        return ((q + (x,), dirty | {x}, proc, shut),)
    if k == "get":
        if op.res is None:  # not known to have returned
            return ()
        kind, x = op.res
        if kind == "shutdown":
            return (s,) if shut and not q else ()
        if q and q[0] == x:
            return ((q[1:], dirty - {x}, proc | {x}, shut),)
        return ()
    if k == "done":
        x = op.args[0]
        if x not in proc:
            return ()
        if x in dirty:
            return ((q + (x,), dirty, proc - {x}, shut),)
        return ((q, dirty, proc - {x}, shut),)
    if k == "shut":
        return ((q, dirty, proc, True),)
    if k == "len":
        return (s,) if len(q) == op.res else ()
    if k == "down":
        return (s,) if shut == op.res else ()
    raise AssertionError(k)


class Harness:
    def __init__(self, sim, plan):
        self.sim = sim
        self.plan = plan
        self.hist = []
        self.held = collections.Counter()
        self.open = 0
        self.overlap = False
        self.handed = 0
        self.pending_gets = 0
        self.blocked = []

    def make(self):
        kind = self.plan["cfg"]["kind"]
        if kind == "plain":
            self.q = queue.new()
        elif kind == "delaying":
            self.q = delaying_queue.new()
        else:
            self.q = rate_limiting_queue.new(default_rate_limiters.ItemExponentialFailureRateLimiter(0.005, 0.5))

    def start(self, kind, *args):
        if self.open:
            self.overlap = True
        self.open += 1
        op = lin.Op(kind, args, self.sim.event("call", kind, *args))
        self.hist.append(op)
        return op

    def end(self, op, res=None, cancelled=False):
        self.open -= 1
        op.done(self.sim.event("cancelled" if cancelled else "ret", op.kind, *op.args, res), res, optional=cancelled)

    async def call(self, kind, args, coro, cancel):
        """Runs one call, cancelling it after a pause when asked; returns True when it returned."""
        prop = {"shut": "C03"}.get(kind, "C02")
        op = self.start(kind, *args)
        if cancel is None:
            try:
                r = await coro
            except Exception as e:
                self.sim.fail(prop, f"{kind}-raised:{type(e).__name__}", f"{kind}{args!r} raised {crash_text(e)}")
                self.end(op, None, cancelled=True)
                return None
        else:
            task = asyncio.ensure_future(coro)
            if kind == "get":
                self.blocked.append(task)
            if cancel >= 0:
                await self.sim.pause(cancel)
                if not task.done():
                    task.cancel()
                    self.sim.fault("cancel_" + kind)
            try:
                r = await task
            except asyncio.CancelledError:
                self.end(op, None, cancelled=True)
                if kind == "get":
                    self.hist.remove(op)
                return None
            except Exception as e:
                self.sim.fail(prop, f"{kind}-raised:{type(e).__name__}", f"{kind}{args!r} raised {crash_text(e)}")
                self.end(op, None, cancelled=True)
                return None
        if kind == "get":
            x, down = r
            r = ("shutdown",) + (None,) if down else ("item", x)
            if not down:
                self.handed += 1
                if self.held[x]:
                    self.sim.fail("C01", "held-twice", f"{x!r} was handed out while another worker holds it")
                self.held[x] += 1
        self.end(op, r)
        return op

    async def get(self, hold=0, readd=False, cancel=None):
        op = await self.call("get", (), self.q.get(), cancel)
        if op is None or op.res[0] == "shutdown":
            return op
        x = op.res[1]
        try:
            await self.sim.pause(hold)
            if readd:
                await self.call("add", (x,), self.q.add(x), None)
                await self.sim.pause(hold)
        finally:
            self.held[x] -= 1
            await self.call("done", (x,), self.q.done(x), None)
        return op

    def fire(self, x):
        # a delayed add may take effect at any time from now on
        self.hist.append(lin.Op("add", (x,), self.sim.seq()))

    async def do(self, o):
        k, c = o["o"], o.get("c")
        q = self.q
        if k == "get":
            await self.get(o["h"], o.get("r"), -1 if c is None else c)
        elif k == "add":
            x = item(o["i"])
            await self.call("add", (x,), q.add(x), c)
        elif k == "after":
            x, d = item(o["i"]), o["d"]
            if d <= 0:
                await self.call("add", (x,), q.add_after(x, d), c)
            else:
                self.fire(x)
                await self.call("after", (x, d), q.add_after(x, d), c)
        elif k == "rate":
            x = item(o["i"])
            self.fire(x)
            await self.call("after", (x, "rate"), q.add_rate_limited(x), c)
        elif k == "shut":
            await self.call("shut", (), q.shut_down(), c)
        elif k == "len":
            op = self.start("len")
            self.end(op, len(q))
            op = self.start("down")
            self.end(op, bool(q.shutting_down()))

    async def actor(self, ops):
        for o in ops:
            await self.sim.pause(o["p"])
            await self.do(o)
            if "x" in o:
                n, pick = o["x"]
                await self.sim.pause(n)
                self.blocked = [t for t in self.blocked if not t.done()]
                if self.blocked:
                    self.blocked[pick % len(self.blocked)].cancel()
                    self.sim.fault("cancel_blocked_get")

    async def main(self, sim):
        self.make()
        plan = self.plan
        actors = {}
        for o in plan["ops"]:
            actors.setdefault(o["a"], []).append(o)
        tasks = [self.sim.helper(self.actor(ops)) for ops in actors.values()]
        if tasks:
            await asyncio.wait(tasks, timeout=40)
        sim.event("quiescent")
        cut = sim.seq()
        self.check_quiescent(cut)
        # drain and release
        for _ in range(2 if plan["cfg"]["shut_twice"] else 1):
            t = asyncio.ensure_future(self.call("shut", (), self.q.shut_down(), None))
            await asyncio.wait([t], timeout=5)
            if not t.done():
                sim.fail("C03", "shutdown-stuck", "shut_down did not return within 5 s")
                return
        if sim.violations:
            return
        for o in plan["late"]:
            await self.do(o)
        t = asyncio.ensure_future(self.get())
        await asyncio.sleep(20)
        if not t.done():
            sim.fail("C03", "get-blocked", "a get after shutdown still blocks 20 s later")
            return
        blocked = [t for t in tasks if not t.done()]
        if blocked:
            sim.fail("C03", "worker-blocked", f"{len(blocked)} callers are still blocked 20 s after shutdown")
            return
        for _ in range(40 + len(plan["ops"])):
            t = asyncio.ensure_future(self.get())
            await asyncio.wait([t], timeout=20)
            if not t.done():
                sim.fail("C03", "get-blocked", "a get after shutdown still blocks 20 s later")
                return
            op = t.result()
            if op is None or op.res[0] == "shutdown":
                break
        else:
            sim.fail("C03", "endless", "a shut down queue hands out items without end")
        for t in tasks:
            if t.exception():
                raise t.exception()

    def check_quiescent(self, cut):
        """Nothing happens any more: calls other than get must have returned, and no item waits while
        a get blocks."""
        for o in self.hist:
            if o.end == lin.INF and o.kind in ("done", "after"):
                self.sim.fail("C02", "stuck", f"{o.kind}{o.args!r} never returned")
        self.pending_gets = sum(1 for o in self.hist if o.kind == "get" and o.end == lin.INF)
        if self.pending_gets:
            self.sim.probe("blocked_get_at_quiescence")
        self.cut = cut

    def verdict(self):
        sim = self.sim
        if sim.violations:
            return
        model_kinds = {"add", "get", "done", "shut", "len", "down"}
        hist = [o for o in self.hist if o.kind in model_kinds]
        shuts = [o.start for o in hist if o.kind == "shut"]
        first = min(shuts, default=lin.INF)
        try:
            bad = lin.check(cutoff(hist, min(first, self.cut)), INIT, step)
            if bad:
                sim.fail("C02", "order", lin.explain(bad))
                return
            if self.pending_gets and first > self.cut:
                # a get that is still blocked has taken nothing
                part = cutoff([o for o in hist if o.kind != "get" or o.end < self.cut], self.cut)
                if lin.check(part, INIT, step, accept=lambda s: not s[0]):
                    sim.fail("C02", "stranded", f"{self.pending_gets} workers are blocked in get while an item waits")
                    return
            bad = lin.check(hist, INIT, step, accept=lambda s: not s[0])
            if bad:
                sim.fail("C03", "drain", lin.explain(bad))
                if bad[1] == []:
                    sim.fail("C02", "lost", "an item accepted before shutdown was never handed out")
        except lin.Inconclusive:
            sim.probe("inconclusive_history")


def cutoff(hist, cut):
    """The history up to an instant: later operations are dropped, open ones may or may not have happened."""
    out = []
    for o in hist:
        if o.start >= cut:
            continue
        if o.end < cut:
            out.append(o)
        else:
            p = lin.Op(o.kind, o.args, o.start)
            p.res = o.res
            out.append(p)
    return out


def run(plan):
    sim = Sim(plan)
    h = Harness(sim, plan)
    sim.run(h.main, "C02")
    h.verdict()
    sim.nontrivial = h.overlap and h.handed > 0
    sim.stats = {"items_handed_out": h.handed, "calls": len(h.hist)}
    sim.probe("kind_" + plan["cfg"]["kind"])
    return sim
