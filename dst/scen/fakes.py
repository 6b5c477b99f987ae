"""Fake watches fed by several senders, with reads and sends cancelled, stops and resets at any moment (C28)."""
import asyncio

from dst.core import Sim, crash_text
from dst.gen import pause

from aiok8s.watch import watch

NONTRIVIAL = "a read or send was cancelled, or the watch was stopped while somebody read or sent"
REAL = ["aiok8s.watch.watch", "asyncio primitives"]
STUB = ["event loop clock and timers", "senders and readers"]
SHRINK = ["lives", "cancels"]
LIMIT = 5.0
KINDS = {"add": "ADDED", "modify": "MODIFIED", "delete": "DELETED", "error": "ERROR", "BOOKMARK": "BOOKMARK", "ADDED": "ADDED"}


def gen(rng, tier, focus):
    timed = rng.random() < 0.5
    span = rng.choice([0.0, 0.02, 0.2])
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        senders = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            s = {"at": [round(rng.random() * span, 4) if timed else 0.0, rng.randint(0, 6)], "acts": []}
            for _ in range(rng.choice([0, 1, 3, 6, 15])):
                a = {"p": pause(rng, 3, timed) if rng.random() < 0.5 else 0, "k": rng.choice(list(KINDS))}
                if rng.random() < 0.1:
                    a["c"] = pause(rng, 5, timed)
                s["acts"].append(a)
            senders.append(s)
        v = {"senders": senders, "p": rng.choice([0, 0, 1, 3, 0.0001, 0.01, 2.0]), "with": int(rng.random() < 0.4),
             "idle": rng.choice([0, 0, 0, 2, 0.05, 3.0, 100.0]), "stops": rng.choice([1, 1, 2]), "gap": rng.choice([0, 0, 1, 2, 3, 0.01])}
        if rng.random() < 0.5:  # stopped in the middle
            v["stop"] = [rng.choice(["send", "sent", "got", "reading"]), rng.randint(1, 12), rng.choice([0, 0, 1, 2, 3, 4, 6]), 1.0] \
                if rng.random() < 0.6 else [round(rng.random() * span, 4), rng.randint(0, 30)]
        lives.append(v)
    cancels = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        cancels.append([rng.choice(["reading", "send", "send", "sent", "got"]), rng.randint(1, 20), rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), 1.0]
                       if rng.random() < 0.7 else [round(rng.random() * span, 4) if timed else 0.0, rng.randint(0, 40)])
    return {"cfg": {"again": rng.choice([0, 0, 1, 0.001, 4.0])}, "lives": lives, "cancels": cancels}


def simpler(plan):
    for k, v in enumerate(plan["lives"]):
        for f in ("p", "with", "idle", "gap"):
            if v[f]:
                yield lambda p, k=k, f=f: p["lives"][k].__setitem__(f, 0)
        if v["stops"] > 1:
            yield lambda p, k=k: p["lives"][k].__setitem__("stops", 1)
        if "stop" in v:
            yield lambda p, k=k: p["lives"][k].pop("stop")
        for j, s in enumerate(v["senders"]):
            if len(v["senders"]) > 1:
                yield lambda p, k=k, j=j: p["lives"][k]["senders"].pop(j)
            for n in (0, 1, len(s["acts"]) // 2, len(s["acts"]) - 1):
                if 0 <= n < len(s["acts"]):
                    yield lambda p, k=k, j=j, n=n: p["lives"][k]["senders"][j].__setitem__("acts", s["acts"][:n])
            for i, a in enumerate(s["acts"]):
                if "c" in a:
                    yield lambda p, k=k, j=j, i=i: p["lives"][k]["senders"][j]["acts"][i].pop("c")
                if a["p"]:
                    yield lambda p, k=k, j=j, i=i: p["lives"][k]["senders"][j]["acts"][i].__setitem__("p", 0)


class Thing:
    """An object of an event; told apart by identity."""


class Life:
    def __init__(self, n, spec):
        self.n, self.spec = n, spec
        self.sends = []  # records in the order of the calls
        self.got = []  # (event, seq)
        self.reading = None
        self.stop_at = None
        self.ended = False
        self.over = False


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.lives = []
        self.life = None

    def bad(self, cls, msg):
        self.sim.fail("C28", cls, msg)

    # -- senders
    async def send(self, life, s):
        sim, f = self.sim, self.f
        await sim.instant([sim.now + s["at"][0], s["at"][1]])
        for a in s["acts"]:
            await sim.pause(a["p"])
            if life.stop_at is not None:
                return
            o = Thing()
            rec = {"o": o, "type": KINDS[a["k"]], "call": sim.event("send", life.n, len(life.sends)), "ret": None, "cancelled": False, "n": len(life.sends)}
            life.sends.append(rec)
            t = rec["task"] = asyncio.ensure_future(f.action(a["k"], o) if a["k"].isupper() else getattr(f, a["k"])(o))
            if "c" in a:
                await sim.pause(a["c"])
                if not t.done():
                    t.cancel()
                    rec["cancelled"] = True
                    sim.fault("cancel_send")
                    sim.nontrivial = True
            await asyncio.wait([t])
            if t.cancelled():
                rec["cancelled"] = True
                rec["ret"] = sim.event("send_cancelled", life.n, rec["n"])
            elif t.exception() is not None:
                return self.bad("raised:" + type(t.exception()).__name__, f"sending raised {crash_text(t.exception())}")
            else:
                rec["cancelled"] = False
                rec["ret"] = sim.event("sent", life.n, rec["n"])
                if not any(e["object"] is o for e, _ in life.got):
                    self.bad("returned_early", f"sending event {rec['n']} returned at {sim.now:.4f} before anybody had read it")

    # -- the reader
    async def read_one(self, life, stream):
        e = await stream.__anext__()
        life.got.append((e, self.sim.event("got", life.n)))

    async def read(self, life):
        sim, spec = self.sim, life.spec
        await sim.pause(spec["idle"])
        stream = self.f
        if spec["with"]:
            stream = await self.f.__aenter__()
            if stream is not self.f:
                self.bad("enter", f"entering the fake watch gives {stream!r}")
                return
        stream = stream.__aiter__()
        while not sim.violations:
            sim.event("reading", life.n)
            life.reading = t = asyncio.ensure_future(self.read_one(life, stream))
            await asyncio.wait([t])
            life.reading = None
            if t.cancelled():
                sim.event("read_cancelled", life.n)
                await sim.pause(self.plan["cfg"]["again"])
                if life.over:
                    return
                continue
            x = t.exception()
            if isinstance(x, StopAsyncIteration):
                sim.event("ended", life.n)
                if life.stop_at is None:
                    self.bad("ended_early", f"the watch ended at {sim.now:.4f} although nobody stopped it")
                life.ended = True
                return
            if x is not None:
                return self.bad("raised:" + type(x).__name__, f"reading raised {crash_text(x)}")
            if life.stop_at is None:
                await sim.pause(spec["p"])

    async def cancel(self, at):
        sim = self.sim
        await sim.instant(at)
        life = self.life
        if life is not None and life.reading is not None and not life.reading.done():
            sim.fault("cancel_read")
            sim.nontrivial = True
            life.reading.cancel()

    # -- one life after the other
    async def main(self, sim):
        self.f = watch.new_fake()
        for at in self.plan["cancels"]:
            sim.helper(self.cancel(at))
        for n, spec in enumerate(self.plan["lives"]):
            life = self.life = Life(n, spec)
            self.lives.append(life)
            if self.f.is_stopped():
                return self.bad("is_stopped", f"is_stopped in life {n}, which nobody stopped")
            reader = sim.helper(self.read(life))
            senders = [sim.helper(self.send(life, s)) for s in spec["senders"]]
            if "stop" in spec:
                at = spec["stop"]
                if isinstance(at[0], str):
                    at = [at[0], sim.counts.get(at[0], 0) + at[1], at[2], sim.now + 1.0 + spec["idle"]]
                else:
                    at = [sim.now + at[0], at[1]]
                await sim.instant(at)
                if not all(s.done() for s in senders):
                    sim.nontrivial = True
            else:
                t0 = sim.now
                away = [spec["idle"]] + [spec["p"]] * (1 + sum(len(s["acts"]) for s in spec["senders"])) + [self.plan["cfg"]["again"]] * len(self.plan["cancels"])
                done, late = await asyncio.wait(senders, timeout=LIMIT + sum(x for x in away if isinstance(x, float)))
                if late and not sim.violations:
                    return self.bad("send_stuck", f"a send had not returned {sim.now - t0:.0f} s later with a reader that always comes back")
                if life.spec["idle"]:
                    await sim.pause(life.spec["idle"] * 2)
            life.stop_at = sim.event("stop", n)
            waiting = life.reading
            for _ in range(spec["stops"]):
                await (self.f.__aexit__(None, None, None) if spec["with"] else self.f.stop())
                if not self.f.is_stopped():
                    return self.bad("is_stopped", "is_stopped is false right after a stop")
            stopped = sim.now
            await sim.pause(spec["gap"])
            for rec in life.sends:  # nobody need take them any more
                if not rec["task"].done():
                    rec["task"].cancel()
            if not all(s.done() for s in senders):
                await asyncio.wait(senders, timeout=LIMIT)
            if not all(s.done() for s in senders) and not sim.violations:
                return self.bad("send_stuck", "a cancelled send did not end")
            if n + 1 < len(self.plan["lives"]):
                sim.event("reset", n)
                t = asyncio.ensure_future(self.f.reset())
                await asyncio.wait([t], timeout=LIMIT)
                if not t.done():
                    return self.bad("reset_stuck", f"reset did not return within {LIMIT} s")
                if t.exception() is not None:
                    return self.bad("raised:" + type(t.exception()).__name__, f"reset raised {crash_text(t.exception())}")
            if waiting is not None:
                await asyncio.wait([waiting], timeout=LIMIT)
                if not waiting.done():
                    return self.bad("no_end", f"a read that was waiting when the watch was stopped at {stopped:.4f} has not ended at {sim.now:.4f}")
            await asyncio.sleep(0)
            if n + 1 == len(self.plan["lives"]):
                await asyncio.wait([reader], timeout=LIMIT + spec["idle"] + spec["p"] + self.plan["cfg"]["again"])
                if not reader.done():
                    return self.bad("no_end", f"reading has not ended {LIMIT} s after the watch was stopped for good")
            else:  # whoever comes back now reads the next life
                life.over = True
                reader.cancel()
                await asyncio.wait([reader])
                if life.reading is not None and not life.reading.done():
                    life.reading.cancel()
                    await asyncio.wait([life.reading])
            if sim.violations:
                return
            self.judge(life)
        if not self.f.is_stopped():
            self.bad("is_stopped", "is_stopped is false after the last stop")

    def judge(self, life):
        seen = {}
        last = -1
        for e, seq in life.got:
            rec = next((r for r in life.sends if r["o"] is e.get("object")), None)
            if rec is None:
                return self.bad("alien", f"event {e} was read, but not sent since the last reset")
            if e != {"type": rec["type"], "object": rec["o"]}:
                return self.bad("changed", f"event {rec['n']} was sent as {rec['type']} and read as {e}")
            if rec["n"] in seen:
                return self.bad("twice", f"event {rec['n']} was read twice")
            seen[rec["n"]] = seq
            if rec["ret"] is not None and rec["ret"] < last:
                return self.bad("order", f"event {rec['n']} was read after one sent later")
            last = max(last, rec["call"])
        for rec in life.sends:
            if rec["n"] not in seen and not rec["cancelled"] and rec["ret"] is not None:
                return self.bad("lost", f"event {rec['n']} was sent and never read")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C28")
    sim.stats["events_sent"] = sum(len(x.sends) for x in h.lives)
    sim.stats["events_read"] = sum(len(x.got) for x in h.lives)
    return sim
