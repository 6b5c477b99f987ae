"""Broadcasters with watchers that are slow, stopped or cancelled, and publishers that race (C24)."""
import asyncio

from dst.core import Sim, crash_text
from dst.gen import pause

from aiok8s.watch import mux

NONTRIVIAL = "a watcher was stopped, or a read or subscription cancelled, while events were being published"
REAL = ["aiok8s.watch.mux", "asyncio primitives"]
STUB = ["event loop clock and timers", "publishers and readers"]
SHRINK = ["pubs", "subs", "ops"]
LIMIT = 5.0
INF = float("inf")


def gen(rng, tier, focus):
    drop = rng.random() < 0.35
    qlen = rng.choice([0, 0, 1, 1, 2, 5, 100])
    timed = rng.random() < 0.6
    span = rng.choice([0.0, 0.05, 0.3])
    pubs = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        p = {"at": [round(rng.random() * span, 4) if timed else 0.0, rng.randint(0, 6)], "acts": []}
        for _ in range(rng.choice([1, 3, 6, 15, 40]) if rng.random() < 0.9 else 60):
            a = {"p": pause(rng, 2, timed) if rng.random() < 0.5 else 0}
            if rng.random() < 0.08:
                a["c"] = pause(rng, 5, timed)
            p["acts"].append(a)
        pubs.append(p)
    subs = []
    for k in range(rng.choice([1, 2, 2, 3, 5]) if rng.random() < 0.98 else rng.choice([12, 30])):
        s = {"at": [0.0, 0] if rng.random() < 0.4 else [round(rng.random() * span, 4) if timed else 0.0, rng.randint(0, 40)],
             "p": rng.choice([0, 0, 1, 3, 0.0001, 0.01, 0.05])}
        if rng.random() < 0.3:
            s["prefix"] = rng.choice([0, 1, 2, 7, 7, 30])
        if rng.random() < 0.12:
            s["c"] = rng.choice([0, 1, 2, 3, 4, 6, 10]) if rng.random() < 0.7 else pause(rng, 12, timed)
        if rng.random() < 0.3:
            s["n"] = rng.choice([0, 1, 2, 5, 10])  # stops itself after so many
            s["leave"] = rng.random() < 0.5  # and does not read on
        if rng.random() < 0.4:
            s["with"] = 1  # used as an async context manager
        if rng.random() < 0.1:
            s["idle"] = round(rng.random() * 0.3, 3)  # begins to read late
        subs.append(s)
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        o = {"o": rng.choice(["cancel", "cancel", "cancel", "stop"]), "s": rng.randrange(len(subs))}
        if rng.random() < 0.6:
            o["at"] = [rng.choice([f"read{o['s']}", f"read{o['s']}", "act", "accepted"]), rng.randint(1, 20), rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8]), 1.0]
        else:
            o["at"] = [round(rng.random() * (span + 0.1), 4) if timed else 0.0, rng.randint(0, 60)]
        if o["o"] == "stop" and rng.random() < 0.2:
            o["c"] = rng.randint(0, 3)
        ops.append(o)
    cfg = {"drop": drop, "qlen": qlen, "again": rng.choice([0, 0, 1, 0.001, 0.02])}
    if rng.random() < 0.15:
        cfg["down"] = [round(rng.random() * span, 4), rng.randint(0, 80)]  # shut down in the middle
    cfg["downs"] = rng.choice([1, 1, 2])
    return {"cfg": cfg, "pubs": pubs, "subs": subs, "ops": ops}


def simpler(plan):
    c = plan["cfg"]
    if c["qlen"]:
        yield lambda p: p["cfg"].__setitem__("qlen", 0)
    if "down" in c:
        yield lambda p: p["cfg"].pop("down")
    if c["downs"] > 1:
        yield lambda p: p["cfg"].__setitem__("downs", 1)
    for k, b in enumerate(plan["pubs"]):
        for n in (1, len(b["acts"]) // 2, len(b["acts"]) - 1):
            if 0 < n < len(b["acts"]):
                yield lambda p, k=k, n=n: p["pubs"][k].__setitem__("acts", p["pubs"][k]["acts"][:n])
        for j, a in enumerate(b["acts"]):
            if "c" in a:
                yield lambda p, k=k, j=j: p["pubs"][k]["acts"][j].pop("c")
            if a["p"]:
                yield lambda p, k=k, j=j: p["pubs"][k]["acts"][j].__setitem__("p", 0)
    for k, s in enumerate(plan["subs"]):
        for f in ("prefix", "c", "n", "idle"):
            if f in s:
                yield lambda p, k=k, f=f: p["subs"][k].pop(f)
        if s["p"]:
            yield lambda p, k=k: p["subs"][k].__setitem__("p", 0)
        if s["at"] != [0.0, 0]:
            yield lambda p, k=k: p["subs"][k].__setitem__("at", [0.0, 0])


class Sub:
    def __init__(self, k, spec, cap):
        self.k, self.spec, self.cap = k, spec, cap
        self.prefix = []
        self.called = self.returned = self.settled = None
        self.obj = None
        self.got = []  # (event, seq of the read)
        self.stop_at = None  # (seq, time) at which stop was first called
        self.reading = None
        self.half_stopped = False  # by a cancelled stop: what it reads from then on is not judged
        self.ended = False
        self.gone = False  # nobody reads it any more


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.acts = {}  # event -> record
        self.subs = []
        self.fast = False
        self.down_at = None

    # -- publishers
    async def act(self, rec):
        await self.b.action("ADDED", rec["e"])
        rec["done_t"] = self.sim.now

    async def publish(self, k, p):
        sim = self.sim
        await sim.instant(p["at"])
        for j, a in enumerate(p["acts"]):
            await sim.pause(a["p"])
            if self.down_at is not None:
                return
            e = (k, j)
            rec = self.acts[e] = {"e": e, "call": sim.event("act", k, j), "t": sim.now, "ret": None, "cancelled": False}
            t = asyncio.ensure_future(self.act(rec))
            if "c" in a:
                await sim.pause(a["c"])
                if not t.done():
                    t.cancel()
                    rec["cancelled"] = True
                    sim.fault("cancel_action")
            rec["task"] = t
            try:
                await t
            except asyncio.CancelledError:
                rec["ret"] = sim.event("act_cancelled", k, j)
            except Exception as x:
                sim.fail("C24", "raised:" + type(x).__name__, f"publishing raised {crash_text(x)}")
                return
            else:
                rec["cancelled"] = False
                rec["ret"] = sim.event("accepted", k, j)
                if self.cfg["drop"] and rec["done_t"] > rec["t"] + 0.001:
                    sim.fail("C24", "waited", f"publishing {e} took {rec['done_t'] - rec['t']:.3f} s in dropping mode")

    # -- watchers
    async def subscribe(self, s):
        sim, spec = self.sim, s.spec
        await sim.instant(spec["at"])
        if self.down_at is not None:
            return
        s.called = sim.event("watch", s.k)
        s.settled = sim.loop.create_future()
        try:
            await self.subscribed(s)
        finally:
            s.settled.set_result(None)
        if s.obj is not None:
            await self.read(s)

    async def subscribed(self, s):
        sim, spec = self.sim, s.spec
        if "prefix" in spec:
            s.prefix = [{"type": "ADDED", "object": ("prefix", s.k, j)} for j in range(spec["prefix"])]
            t = asyncio.ensure_future(self.b.watch_with_prefix(list(s.prefix)))
        else:
            t = asyncio.ensure_future(self.b.watch())
        s.task = t
        if "c" in spec:
            await sim.pause(spec["c"])
            if not t.done():
                t.cancel()
                sim.fault("cancel_watch")
                self.sim.nontrivial = True
        try:
            s.obj = await t
        except asyncio.CancelledError:
            s.gone = True
            sim.event("watch_cancelled", s.k)
            return
        except Exception as x:
            sim.fail("C24", "raised:" + type(x).__name__, f"subscribing raised {crash_text(x)}")
            return
        s.returned = sim.event("watching", s.k)

    async def read(self, s):
        sim, spec = self.sim, s.spec
        if "idle" in spec:
            await asyncio.sleep(spec["idle"])
        if spec.get("with"):
            stream = await s.obj.__aenter__()
            if stream is None:
                sim.fail("C24", "enter", "entering a watcher gives nothing to read from")
                return
        else:
            stream = s.obj
        stream = stream.__aiter__()
        while True:
            if "n" in spec and len(s.got) == spec["n"] and s.stop_at is None:
                await self.stop(s)
                if spec["leave"]:
                    s.gone = True
                    return
            s.reading = t = asyncio.ensure_future(stream.__anext__())
            await asyncio.wait([t])
            s.reading = None
            if t.cancelled():
                sim.event("read_cancelled", s.k)
                await sim.pause(self.cfg["again"])
                continue
            x = t.exception()
            if isinstance(x, StopAsyncIteration):
                sim.event("ended", s.k)
                s.ended = True
                return
            if x is not None:
                sim.fail("C24", "raised:" + type(x).__name__, f"reading raised {crash_text(x)}")
                return
            e = t.result()
            s.got.append((e, sim.event(f"read{s.k}", e["object"])))
            if not self.fast:
                await sim.pause(spec["p"])

    async def stop(self, s, cancel=None):
        sim = self.sim
        n = sim.event("stop", s.k)
        if s.stop_at is None:
            s.stop_at = (n, sim.now)
        sim.nontrivial = True
        t = asyncio.ensure_future(s.obj.__aexit__(None, None, None) if s.spec.get("with") else s.obj.stop())
        s.stopping = t
        if cancel is not None:
            await sim.pause(cancel)
            if not t.done():
                t.cancel()
                sim.fault("cancel_stop")
                s.half_stopped = True
        await asyncio.wait([t])
        if not t.cancelled() and t.exception() is not None:
            sim.fail("C24", "raised:" + type(t.exception()).__name__, f"stopping raised {crash_text(t.exception())}")

    async def op(self, o):
        sim = self.sim
        await sim.instant(o["at"])
        s = self.subs[o["s"]]
        if o["o"] == "cancel":
            if s.reading is not None and not s.reading.done():
                sim.fault("cancel_read")
                sim.nontrivial = True
                s.reading.cancel()
        elif s.obj is not None:
            sim.fault("stop_watcher")
            await self.stop(s, o.get("c"))

    async def shut(self):
        sim = self.sim
        if self.down_at is None:
            self.down_at = sim.event("shutdown")
        for _ in range(self.cfg["downs"]):
            t = asyncio.ensure_future(self.b.shutdown())
            self.fast = True
            await asyncio.wait([t], timeout=LIMIT)
            if not t.done():
                sim.fail("C24", "shutdown_stuck", f"shutdown had not returned after {LIMIT} s with all watchers reading")
                return
            sim.event("down")

    async def main(self, sim):
        cfg = self.cfg
        self.b = mux.Broadcaster(cfg["qlen"], mux.FullChannelBehavior.DROP_IF_CHANNEL_FULL if cfg["drop"]
                                 else mux.FullChannelBehavior.WAIT_IF_CHANNEL_FULL)
        total = sum(len(p["acts"]) for p in self.plan["pubs"])
        audit = self.audit = Sub("A", {"at": [0.0, 0], "p": 0, "prefix": total + 1}, INF)
        tasks = [sim.helper(self.subscribe(audit))]
        await asyncio.sleep(1e-3)
        for k, spec in enumerate(self.plan["subs"]):
            cap = cfg["qlen"] or INF
            if "prefix" in spec:
                cap = max(cfg["qlen"], spec["prefix"] + 1)
            self.subs.append(Sub(k, spec, cap))
        tasks += [sim.helper(self.subscribe(s)) for s in self.subs]
        pubs = [sim.helper(self.publish(k, p)) for k, p in enumerate(self.plan["pubs"])]
        ops = [sim.helper(self.op(o)) for o in self.plan["ops"]]
        if "down" in cfg:
            await sim.instant(cfg["down"])
            sim.nontrivial = True
        else:
            await asyncio.sleep(1.2)
            self.fast = True
            await asyncio.wait(pubs + ops, timeout=LIMIT)
            for p in pubs:
                if not p.done():
                    sim.fail("C24", "publisher_stuck", f"an event could not be published within {LIMIT} s with all watchers reading")
                    return
            for p in ops:
                if not p.done():
                    sim.fail("C24", "stop_stuck", f"stopping a watcher did not return within {LIMIT} s")
                    return
            waits = [s.settled for s in self.subs if s.settled is not None]
            if waits:
                await asyncio.wait(waits, timeout=LIMIT)
            for s in self.subs:
                if s.settled is not None and not s.settled.done():
                    sim.fail("C24", "watch_stuck", f"subscribing did not return within {LIMIT} s")
                    return
        await self.shut()
        if sim.violations:
            return
        await asyncio.wait(tasks, timeout=LIMIT)
        for s in [audit] + self.subs:
            if s.obj is not None and not s.ended and not s.gone:
                sim.fail("C24", "no_end", f"the stream of watcher {s.k} has not ended {LIMIT} s after the shutdown")

    # -- the verdict over the history
    def verdict(self):
        sim, drop = self.sim, self.cfg["drop"]
        if sim.violations:
            return
        for s in [self.audit] + self.subs:
            if s.obj is None:
                continue
            n = len(s.prefix)
            if [e for e, _ in s.got[:n]] != s.prefix[:len(s.got)]:
                return sim.fail("C24", "prefix", f"watcher {s.k} got {[e['object'] for e, _ in s.got[:n]]} first, not its {n} prefix events")
            if len(s.got) < n and s.stop_at is None:
                return sim.fail("C24", "prefix", f"watcher {s.k} got only {len(s.got)} of its {n} prefix events")
            seen = set()
            for e, _ in s.got[n:]:
                e = e["object"]
                if e not in self.acts:
                    return sim.fail("C24", "alien", f"watcher {s.k} got {e}, which was not published")
                if e in seen:
                    return sim.fail("C24", "twice", f"watcher {s.k} got {e} twice")
                seen.add(e)
        order = [e["object"] for e, _ in self.audit.got[len(self.audit.prefix):]]
        pos = {e: i for i, e in enumerate(order)}
        for a in self.acts.values():
            if a["e"] not in pos and not a["cancelled"] and a["ret"] is not None and (self.down_at is None or a["ret"] < self.down_at):
                return sim.fail("C24", "lost", f"{a['e']} never reached the watcher that always reads")
        last = -1
        for e in order:  # real-time order of publications
            if self.acts[e]["ret"] is not None and self.acts[e]["ret"] < last:
                return sim.fail("C24", "order", f"{e} was distributed after an event published later")
            last = max(last, self.acts[e]["call"])
        for s in self.subs:
            if s.obj is None:
                continue
            got = [(e["object"], n) for e, n in s.got[len(s.prefix):]]
            if any(e not in pos for e, _ in got):
                return sim.fail("C24", "lost", "an event reached one watcher but not the one that always reads")
            if s.half_stopped:
                got = [(e, n) for e, n in got if n < s.stop_at[0]]
            at = [pos[e] for e, _ in got]
            if at != sorted(at):
                return sim.fail("C24", "order", f"watcher {s.k} got {[e for e, _ in got]}, published as {order}")
            if at and self.acts[order[at[0]]]["ret"] is not None and self.acts[order[at[0]]]["ret"] < s.called:
                return sim.fail("C24", "before", f"watcher {s.k} got {order[at[0]]}, published before it subscribed")
            if drop:
                self.judge_drop(s, got, at, order)
            else:
                self.judge_wait(s, at, order)
            if sim.violations:
                return

    def judge_wait(self, s, at, order):
        sim = self.sim
        if s.stop_at is not None:  # what was published since is of no interest to it
            at = [p for p in at if self.acts[order[p]]["call"] < s.stop_at[0]]
        if at and at != list(range(at[0], at[0] + len(at))):
            miss = next(order[i] for i in range(at[0], at[-1]) if i not in at)
            return sim.fail("C24", "missed", f"watcher {s.k} never got {miss} but later events")
        begin = at[0] if at else len(order)
        for i in range(begin):
            if self.acts[order[i]]["call"] > s.returned and (at or s.stop_at is None):
                return sim.fail("C24", "missed", f"watcher {s.k} never got {order[i]}, published after it subscribed")
        if s.stop_at is None and at and at[-1] != len(order) - 1:
            return sim.fail("C24", "missed", f"watcher {s.k} never got the last events from {order[at[-1] + 1]} on")

    def judge_drop(self, s, got, at, order):
        sim = self.sim
        have = set(at)
        reads = [n for _, n in s.got]
        i = len(s.prefix)  # number of received events before the one looked at
        for p, e in enumerate(order):
            if p in have:
                i += 1
                continue
            a = self.acts[e]
            if a["call"] < s.returned:
                continue
            if s.stop_at is not None and a.get("done_t", INF) >= s.stop_at[1] - 1e-6:
                continue
            if (s.gone or s.half_stopped) and (not at or p > at[-1]) or len(s.got) < len(s.prefix):
                continue
            if i >= s.cap and (i - s.cap >= len(reads) or reads[i - s.cap] > a["call"]):
                sim.probe("dropped")
                continue
            return sim.fail("C24", "dropped", f"watcher {s.k} missed {e} although at most {i} of its {s.cap} buffered events were unread")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C24")
    h.verdict()
    sim.stats["events_published"] = len(h.acts)
    sim.stats["events_read"] = sum(len(s.got) for s in h.subs)
    return sim
