"""Candidates electing a leader through the ConfigMap lock over the HTTP API server (C21 to C23)."""
import asyncio
import json

from dst import apisrv, boot
from dst.core import Sim, crash_text, node
from dst.scen import informer as inf_  # noqa: F401  (puts the simulated session under the client)

from aiok8s.leaderelection import leaderelection, resourcelock  # noqa: E402

NONTRIVIAL = "the lock changed hands, or a leader was cut off, crashed or cancelled"
REAL = ["aiok8s.leaderelection (elector, config map lock)", "aiok8s.util.wait", "aiok8s.util._time", "kubernetes_asyncio client"]
STUB = ["API server", "aiohttp.ClientSession", "event loop clock and timers", "wall clocks of the candidates", "callbacks"]
SHRINK = ["ops", "faults"]
ANN = resourcelock.LEADER_ELECTION_RECORD_ANNOTATION_KEY
KEY = "ns0/lock"
EPS = 0.005


# ---------------------------------------------------------------------------------- plans
def gen(rng, tier, focus):
    L, R, P = rng.choice([(15, 10, 2), (15, 10, 2), (6, 4, 1), (3, 2, 0.4), (10, 5, 0.5), (60, 40, 5), (4, 2.5, 2)])
    slack = L - R - P
    if slack <= 0:
        L = R + P + 0.5
        slack = 0.5
    n = rng.choice([1, 2, 2, 3, 5])
    horizon = L * rng.choice([2, 4, 8])
    cfg = {"L": L, "R": R, "P": P, "n": n, "lat": rng.choice([0, 0.01, 0.05, round(min(0.9 * slack, P / 4, R / 10), 3)]),
           "init": rng.choice(["missing", "missing", "bare", "empty", "other", "expired", "released", "mine"])}
    cfg["offset"] = [round(rng.choice([0, 0, 1, 100, -100, 1e5]) * rng.random(), 3) for _ in range(n)]
    cfg["cand"] = [{"release": rng.random() < 0.5, "work": rng.choice(["forever", "forever", "returns", "raises"]),
                    "clean": rng.choice([0, 0, 3, 0.2, round(0.5 * L, 2)]), "stop": rng.choice([0, 0, 2, 0.1])} for _ in range(n)]
    for x in cfg["cand"]:
        if rng.random() < 0.15:
            x["deaf"] = True  # has no new-leader callback
        elif rng.random() < 0.3:  # it takes its time, or fails
            x["report"] = rng.choice(["raises", P, 3 * L, 3 * L])
        if rng.random() < 0.35:
            x["reuse"] = True  # candidates come back with the elector they had
    ops = []
    for c in range(n):
        t = 0.0 if rng.random() < 0.5 else round(rng.random() * horizon * 0.5, 3)
        ops.append({"at": [t, rng.randint(0, 3)], "c": c, "o": "start"})
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        o = {"c": rng.randrange(n), "o": rng.choices(["cancel", "crash", "start", "step", "touch", "steal"], [4, 3, 5, 3, 2, 1])[0]}
        if o["o"] in ("cancel", "crash") and rng.random() < 0.5:
            kind = rng.choice(["started", "wrote", "get", "put", "stopped", "report"])
            o["at"] = [kind, rng.choice([1, 1, 2, 3, 5, 8]), rng.choice([0, 1, 2, 3, 5, 8, 0.001, round(rng.random() * P, 4)]), horizon]
            if o["o"] == "cancel" or rng.random() < 0.5:
                o["c"] = "leader" if rng.random() < 0.6 else o["c"]
        else:
            o["at"] = [round(rng.random() * horizon, 3), rng.randint(0, 3)]
            if o["o"] in ("cancel", "crash") and rng.random() < 0.5:
                o["c"] = "leader"
        if o["o"] == "cancel":
            how = rng.random()
            if how < 0.25:
                o["all"] = rng.randrange(1000)  # every task of the run at once, as asyncio.run does at its end
            elif how < 0.4:
                o["again"] = rng.choice([0, 1, 2, 3, 5, 8, 0.001, 0.05, 0.2])
        if o["o"] == "step":
            o["d"] = round(rng.choice([-1, 1]) * rng.choice([0.3, P, L, 3 * L, 1e4]) * rng.random(), 3)
        ops.append(o)
    faults = []
    heal = 0.0
    if rng.random() < 0.75:
        heal = round(horizon * (0.4 + 0.6 * rng.random()), 3)
        for _ in range(rng.choice([1, 2, 4, 8, 16])):
            c = rng.randrange(n)
            w = rng.choice(["get", "put", "put", "post"])
            f = {"w": w, "k": f"c{c}", "n": 0 if w == "post" else rng.randrange(max(4, int(horizon / P / 2))),
                 "f": rng.choice(["lost", "lost_answer", "lost_answer", "late", "http", "hang", "slow_answer"])}
            if f["f"] == "late":
                f["d"] = round(rng.random() * rng.choice([P, L]), 3)
            if f["f"] == "http":
                f["code"] = rng.choice([500, 503, 429, 409, 403])
            if f["f"] == "hang":
                f["d"] = round(rng.random() * rng.choice([P, R, 2 * L]), 3)
                f["then"] = rng.choice(["ok", "error"])
            if f["f"] == "slow_answer":  # a successful request still answers within the assumed time
                f["d"] = round(max(0.0, slack - cfg["lat"] - 0.02) * rng.random(), 3)
            faults.append(f)
        for _ in range(rng.choice([0, 1, 2, 3])):
            f = {"f": "outage", "t": round(rng.random() * horizon, 3), "d": round(rng.choice([P, R, L, 2 * L]) * rng.random(), 3),
                 "how": rng.choice(["refuse", "refuse", "hang"])}
            if rng.random() < 0.8:
                f["k"] = f"c{rng.randrange(n)}"
            faults.append(f)
        if n > 1 and rng.random() < 0.3:  # the leader cannot renew for a while and somebody's clock is stepped meanwhile
            t, d = round(horizon * 0.9 * rng.random(), 3), round(R * 0.8 * rng.random(), 3)
            faults.append({"f": "outage", "t": t, "d": d, "how": rng.choice(["refuse", "hang"]), "k": f"c{rng.randrange(n)}"})
            for c in range(n):
                ops.append({"c": c, "o": "step", "at": [round(t + d * rng.random(), 3), 0],
                            "d": round(rng.choice([-1, 1, 1]) * L * (1 + 2 * rng.random()), 3)})
    if n > 1 and rng.random() < 0.1:  # reads that take about a lease to reach the server, while the leader drops out
        heal = horizon
        for c in range(n):
            for k in range(rng.choice([0, 4, 10])):
                faults.append({"w": "get", "k": f"c{c}", "n": rng.randrange(12), "f": "hang", "then": "ok",
                               "d": round(rng.choice([R, L, L]) * (0.5 + 0.6 * rng.random()), 3)})
        for _ in range(rng.choice([1, 2])):
            faults.append({"f": "outage", "t": round(rng.random() * horizon, 3), "d": round(2 * L * rng.random(), 3),
                           "how": rng.choice(["refuse", "hang"]), "k": f"c{rng.randrange(n)}"})
    cfg["heal"] = heal
    cfg["end"] = horizon
    return {"cfg": cfg, "ops": ops, "faults": faults}


def simpler(plan):
    c = plan["cfg"]
    if c["n"] > 1:
        def fewer(p):
            p["cfg"]["n"] -= 1
            p["ops"] = [o for o in p["ops"] if o["c"] == "leader" or o["c"] < p["cfg"]["n"]]
        yield fewer
    for f, v in (("lat", 0), ("init", "missing")):
        if c[f] != v:
            yield lambda p, f=f, v=v: p["cfg"].__setitem__(f, v)
    for k in range(c["n"]):
        for f, v in (("release", False), ("work", "forever"), ("clean", 0), ("stop", 0), ("report", 0)):
            if c["cand"][k].get(f, 0) != v:
                yield lambda p, k=k, f=f, v=v: p["cfg"]["cand"][k].__setitem__(f, v)
        if c["offset"][k]:
            yield lambda p, k=k: p["cfg"]["offset"].__setitem__(k, 0)


# ---------------------------------------------------------------------------------- one run of one candidate
class WorkFailed(Exception):
    """What failing leading work raises."""


class Via:
    """Leads the callbacks of an elector to the run it is in."""

    def __init__(self, run):
        self.run = run


class Run:
    elector = None

    def __init__(self, h, c):
        self.h, self.sim, self.c = h, h.sim, c
        self.spec = h.cfg["cand"][c]
        self.before = h.current.get(c)
        self.id = f"c{c}"
        self.n = h.runs_of[c] = h.runs_of.get(c, 0) + 1
        self.dead = False
        self.cancelled_at = None
        self.started = self.stopped = None
        self.work = None  # None | running | ended
        self.reports = []
        self.task = None
        self.began = h.sim.now

    blank = False
    again = False  # cancelled a second time while it was stopping

    def leading(self):
        return self.started is not None and self.stopped is None and not self.dead

    async def on_started_leading(self):
        h, sim = self.h, self.sim
        if self.dead:
            return
        sim.event("started", self.id)
        if self.started is not None:
            sim.fail("C23", "started_twice", f"{self.id} was told twice in one run that it leads")
        if self.stopped is not None or self.task.done():
            sim.fail("C23", "started_after_stop", f"{self.id} is told to lead after its run ended")
        for r in h.all_runs:
            if r is not self and r.leading():
                sim.fail("C21", "two_leaders", f"{self.id} leads since {sim.now:.3f} while {r.id} leads since {r.started:.3f}")
        if h.holder() != self.id and not (h.holder() == "thief" and h.written.get(self.id, -1.0) >= self.began):
            sim.fail("C23", "leads_without_lock", f"{self.id} is told to lead while the lock is held by {h.holder()}")
        if not self.elector.is_leader():
            sim.fail("C23", "is_leader_wrong", f"{self.id} is told to lead but is_leader() is false")
        self.started = sim.now
        h.leaders += 1
        self.work = "running"
        try:
            if self.spec["work"] == "returns":
                await sim.pause(2)
                return
            if self.spec["work"] == "raises":
                await asyncio.sleep(0.1)
                raise WorkFailed("leading work failed")
            await sim.loop.create_future()
        except asyncio.CancelledError:
            if self.stopped is None and not self.dead and self.cancelled_at is None and not self.h.closing:
                self.work = "cancelled"  # stopped-leading has to follow at once
            await sim.pause(self.spec["clean"])
            raise
        finally:
            self.work = "ended"

    async def on_stopped_leading(self):
        h, sim = self.h, self.sim
        if self.dead:
            return
        sim.event("stopped", self.id)
        if self.started is None:
            sim.probe("stopped_without_leading")
            return
        if self.stopped is not None:
            sim.fail("C23", "stopped_twice", f"{self.id} was told twice in one run that it stopped leading")
            return
        self.stopped = sim.now
        w = h.written.get(self.id)
        if w is not None and sim.now >= w + h.cfg["L"] - EPS and h.holder() == self.id:
            sim.fail("C23", "stopped_late", f"{self.id} stopped leading at {sim.now:.3f}, but its lease of {w:.3f} could be taken over from {w + h.cfg['L']:.3f}")
        if self.cancelled_at is None and not h.closing:
            c = h.cfg
            calm = sim.now - (c["R"] + 2 * c["P"] + 8 * c["lat"] + 0.1)
            if h.disturbed(self) < calm and calm > 0:
                sim.fail("C22", "displaced", f"{self.id} stopped leading at {sim.now:.3f}, undisturbed since {h.disturbed(self):.3f}")
            h.sim.nontrivial = True
        await sim.pause(self.spec["stop"])

    async def on_new_leader(self, who):
        if self.dead:
            return
        sim, h = self.sim, self.h
        sim.event("report", self.id, who)
        blank, self.blank = who == "" or self.blank and not who, who == ""  # a client written in Go releases the lock to ""
        who = who or None
        try:
            self.check_report(who, blank)
        finally:
            x = self.spec.get("report", 0)
            if x == "raises":
                raise WorkFailed("new-leader callback failed")
            if x:
                await asyncio.sleep(x)

    def check_report(self, who, blank):
        sim, h = self.sim, self.h
        if self.reports and self.reports[-1] == who and not blank:
            sim.fail("C23", "report_repeated", f"{self.id} was told twice in a row that {who} leads")
        self.reports.append(who)
        seq = [x for _, x in h.holders]
        if who is not None and who not in seq:
            sim.fail("C23", "report_false", f"{self.id} was told that {who} leads, who never held the lock")
            return
        i = -1
        for r in self.reports:  # the reports follow the holders in order
            while True:
                i += 1
                if i >= len(seq):
                    if r is not None:
                        sim.fail("C23", "report_order", f"{self.id} was told of the leaders {self.reports}, the lock was held by {seq}")
                    return
                if seq[i] == r:
                    break

    async def run(self):
        node.set(f"{self.id}/{self.n}")
        lock = resourcelock.new("ns0", "lock", resourcelock.ResourceLockConfig(identity=self.id))
        c = self.h.cfg
        times = {"lease_duration": c["L"], "renew_deadline": c["R"], "retry_period": c["P"]}
        if (c["L"], c["R"], c["P"]) == (15, 10, 2) and self.c % 2:
            times = {}  # these are the defaults
        q = self.before
        if self.spec.get("reuse") and q is not None and not q.dead and q.elector is not None:
            self.sim.probe("elector_reused")
            self.elector, self.via, self.reports, self.blank = q.elector, q.via, q.reports, q.blank
            self.via.run = self
            return await self.elector.run()
        self.via = via = Via(self)
        self.elector = leaderelection.LeaderElector(leaderelection.LeaderElectionConfig(
            lock=lock, name=self.id, release_on_cancel=self.spec["release"], **times,
            callbacks=leaderelection.LeaderCallbacks(
                on_started_leading=lambda: via.run.on_started_leading(), on_stopped_leading=lambda: via.run.on_stopped_leading(),
                on_new_leader=None if self.spec.get("deaf") else lambda who: via.run.on_new_leader(who))))
        await self.elector.run()


# ---------------------------------------------------------------------------------- harness
class Server(apisrv.ApiServer):
    """Requests come from a run of a candidate; faults and outages name the candidate."""

    def take(self, who, w):
        return super().take(who.split("/")[0], w)

    def outage(self, who=None):
        return super().outage(who.split("/")[0])


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.runs_of = {}
        self.all_runs = []
        self.current = {}
        self.holders = []  # (t, holder) as recorded in the lock
        self.written = {}  # identity -> time of its last write
        self.sent = {}
        self.leaders = 0
        self.closing = False
        self.last_bad = 0.0
        self.touches = [0.0]
        self.leaderless = 0.0
        self.last_named = None
        self.count = None

    def record(self, o=None):
        o = o or self.api.objs["configmaps"].get(KEY)
        raw = o and (o["metadata"].get("annotations") or {}).get(ANN)
        return json.loads(raw) if raw else None

    def others(self):
        """What the lock object holds besides the record."""
        o = self.api.objs["configmaps"].get(KEY)
        if o is None:
            return None
        m = {k: v for k, v in o["metadata"].items() if k not in ("resourceVersion", "annotations", "managedFields") and v}
        m["annotations"] = {k: v for k, v in (o["metadata"].get("annotations") or {}).items() if k != ANN}
        return {**{k: v for k, v in o.items() if k != "metadata" and v}, "metadata": m}

    rest = None

    rec = None  # the last record

    def holder_was(self):
        return self.holders[-1][1] if self.holders else None

    def holder(self):
        return (self.record() or {}).get("holderIdentity") or None

    def disturbed(self, run=None):
        """When a request (of this run's candidate) was last made to fail, or the lock written by others."""
        t = max(self.touches)
        for r in self.api.log:
            if run is not None and r["who"].split("/")[0] != run.id:
                continue
            if r["who"] in self.api.dead:
                continue
            end = self.sim.now if r["end"] is None else r["end"]
            if r["faulty"] or r["out"] == "error" or end > r["t"] + 2 * self.cfg["lat"] + 0.01:
                t = max(t, end)
        return t

    # -- what the server sees
    def on_write(self, who, verb, o, sent):
        sim = self.sim
        rec = self.record(o)
        self.last_writer = who
        rest = self.others()
        if rest != self.rest and verb == "put":
            sim.fail("C23", "else_changed", f"{who} changed something else in the lock: {self.rest} became {rest}")
        self.rest = rest
        ident = who.split("/")[0]
        h = (rec or {}).get("holderIdentity") or None
        sim.event("wrote", ident, h, (rec or {}).get("leaderTransitions"))
        old = self.holder_was()
        count = (rec or {}).get("leaderTransitions", 0)
        for r in self.all_runs:
            if r.leading() and h != r.id:
                sim.fail("C23", "stopped_late", f"the lock passed from {r.id} to {h} while {r.id} had not been told to stop leading")
        if h is not None and h != ident:
            sim.fail("C23", "wrong_holder", f"{ident} recorded {h} as the holder")
        if rec is None:
            sim.fail("C23", "no_record", f"{ident} wrote the lock without a record")
        elif self.had_record:
            before = self.count
            if h is None or h == old:
                ok = count == before
            elif h == self.last_named:
                ok = count in (before, before + 1)
            else:
                ok = count == before + 1
            if not ok:
                sim.fail("C23", "transitions", f"the lock passed from {old} to {h}, its transition count from {before} to {count}")
        elif count not in (0, 1):
            sim.fail("C23", "transitions", f"the first record of the lock counts {count} transitions")
        if h is not None and h == old and rec["acquireTime"] != self.rec["acquireTime"]:
            sim.fail("C23", "acquire_time", f"{h} renewed the lock it holds since {self.rec['acquireTime']} and recorded {rec['acquireTime']} instead")
        if h is not None and not any(x["o"] == "step" for x in self.plan["ops"]):
            now = boot.WALL0 + sim.now + self.offset[int(ident[1:])]
            low = max(self.sent.get(h, 0.0), next(r.began for r in self.all_runs if f"{r.id}/{r.n}" == who))
            if not low - 1e-6 <= rec["renewTime"] - (now - sim.now) <= sim.now + 1e-6:
                sim.fail("C23", "renew_time", f"{h} renewed the lock at {now} and recorded {rec['renewTime']}")
            if h != old and rec["acquireTime"] != rec["renewTime"]:
                sim.fail("C23", "acquire_time", f"{h} took the lock at {now} and recorded {rec['acquireTime']}")
        self.rec = rec
        self.had_record = True
        self.count = count
        if h is not None:
            self.written[h] = sim.now
            self.sent[h] = sent  # its next renewal begins after this request was made
            if self.last_named not in (None, h):
                sim.nontrivial = True
            self.last_named = h
        if h != old or not self.holders:
            self.holders.append((sim.now, h))

    had_record = False
    last_writer = None

    def setup(self):
        api, how, cfg_ = self.api, self.cfg["init"], self.cfg
        if how == "missing":
            return
        raw = api.raw("configmaps", "ns0", "lock", 0)
        raw["metadata"]["labels"] = {"app": "x"}
        rec = {"leaseDurationSeconds": 15, "renewTime": self.sim.wall() - 5, "acquireTime": self.sim.wall() - 50}
        if how == "empty":
            raw["metadata"]["annotations"] = {"note": "kept"} if cfg_["n"] % 2 else {}
        elif how != "bare":
            if cfg_["n"] % 2 == 0:  # as a client written in Go writes it
                rec.update(renewTime="2026-11-19T18:45:00Z", acquireTime="2026-11-19T18:44:15Z")
            if how == "released":
                if cfg_["n"] % 2:
                    rec = {}
                rec = {**rec, **({"holderIdentity": ""} if rec else {}), "leaderTransitions": 3}
            else:
                rec.update(holderIdentity="c0" if how == "mine" else "gone", leaderTransitions=7)
            raw["metadata"]["annotations"] = {ANN: json.dumps(rec), "note": "kept"}
            self.had_record = True
            self.count = rec["leaderTransitions"]
            self.rec = rec
            h = rec.get("holderIdentity") or None
            self.holders.append((0.0, h))
            self.last_named = h
        api.create("configmaps", raw)

    # -- the candidates
    def pick(self, c):
        if c == "leader":
            for r in self.all_runs:
                if r.leading():
                    return r
            return None
        return self.current.get(c)

    def live(self):
        return [r for r in self.all_runs if not r.dead and r.cancelled_at is None and not r.task.done()]

    async def op(self, o):
        sim = self.sim
        await sim.instant(o["at"])
        if self.closing:
            return
        what = o["o"]
        if what == "start":
            r = self.current.get(o["c"])
            if r is not None and not r.dead and not r.task.done():
                return
            r = Run(self, o["c"])
            self.all_runs.append(r)
            self.current[o["c"]] = r
            sim.event("begin", r.id)
            sim.node_offset[f"{r.id}/{r.n}"] = self.offset[o["c"]]
            r.task = self.sim.spawn(r.run(), who=f"{r.id}/{r.n}")
            r.task.add_done_callback(lambda t, r=r: self.ended(r))
        elif what == "step":
            self.offset[o["c"]] += o["d"]
            r = self.current.get(o["c"])
            if r is not None:
                sim.jump(o["d"], f"{r.id}/{r.n}")
        elif what == "touch":
            obj = self.api.objs["configmaps"].get(KEY)
            if obj is not None:
                obj = json.loads(json.dumps(obj))
                obj["metadata"].setdefault("labels", {})["v"] = str(sim.now)
                self.api.update("configmaps", obj)
                self.rest = self.others()
                self.touches.append(sim.now)
                sim.fault("foreign_write")
        elif what == "steal":  # somebody edits the lock to name another holder
            obj = self.api.objs["configmaps"].get(KEY)
            if obj is not None:
                obj = json.loads(json.dumps(obj))
                t = sim.wall()
                self.rec = {"holderIdentity": "thief", "renewTime": t, "acquireTime": t, "leaseDurationSeconds": 15,
                            "leaderTransitions": (self.count or 0) + 1}
                obj["metadata"].setdefault("annotations", {})
                obj["metadata"]["annotations"][ANN] = json.dumps(self.rec)
                self.api.update("configmaps", obj)
                self.touches.append(sim.now)
                self.had_record, self.count, self.last_named, self.last_writer = True, self.rec["leaderTransitions"], "thief", None
                self.written["thief"] = sim.now
                if self.holder_was() != "thief":
                    self.holders.append((sim.now, "thief"))
                sim.fault("lock_stolen")
        else:
            r = self.pick(o["c"])
            if r is None or r.dead or r.task.done():
                return
            if r.leading():
                sim.nontrivial = True
            if what == "cancel":
                if r.cancelled_at is not None:
                    return
                sim.event("cancel", r.id)
                sim.fault("cancelled")
                r.cancelled_at = sim.now
                if o.get("all") is not None:
                    self.exit(r, o["all"])
                else:
                    r.task.cancel()
                if o.get("again") is not None:
                    await sim.pause(o["again"])
                    if not r.task.done() and not self.closing:
                        sim.event("cancel again", r.id)
                        sim.fault("cancelled_again")
                        r.again = True
                        r.task.cancel()
            else:
                sim.event("crash", r.id)
                sim.fault("crashed")
                r.dead = True
                self.api.dead.add(f"{r.id}/{r.n}")

    def exit(self, r, seed):
        """What asyncio.run does at its end, in no particular order."""
        sim = self.sim
        sim.fault("exit")
        tasks = [t for t in sim.loop.live_tasks() if t.get_context().get(node) == f"{r.id}/{r.n}"]
        sim.rng(f"exit/{seed}").shuffle(tasks)
        for t in tasks:
            t.cancel()

    def ended(self, r):
        sim = self.sim
        if r.dead or self.closing == "teardown":
            return
        sim.event("ended", r.id)
        e = None if r.task.cancelled() else r.task.exception()
        if e is not None:
            sim.fail("C23", "run_raised:" + type(e).__name__, f"the run of {r.id} ended with {crash_text(e)}")
        if r.started is not None and r.stopped is None:
            sim.fail("C23", "not_stopped", f"the run of {r.id} ended without telling it that it stopped leading")
        if r.work == "running":
            if r.stopped is not None and (r.again or r.cancelled_at is not None and r.cancelled_at >= r.stopped):
                sim.helper(self.work_over(r))  # cancelled while it was stopping: it need not wait for the work
            else:
                sim.fail("C23", "work_left", f"the leading work of {r.id} goes on after its run ended")
        if r.started is None and r.cancelled_at is None and not self.closing:
            sim.fail("C22", "gave_up", f"the run of {r.id} ended by itself without ever leading")

        self.check_release(r)
        if r.started is not None and r.cancelled_at is None and not self.closing:
            sim.helper(self.check_last_report(r))

    async def check_last_report(self, r):
        """A candidate that lost the lock was told who holds it, as far as it knows."""
        mine = [q for q in self.api.log if q["who"] == f"{r.id}/{r.n}"]
        if r.spec.get("deaf") or r.spec["release"] and mine[-1]["op"] == "put":
            return
        await self.sim.pause(20)
        if r.elector.is_leader() != (r.reports[-1:] == [r.id]):
            self.sim.fail("C23", "report_missing", f"the run of {r.id} ended with is_leader() {r.elector.is_leader()}, it was last told of {r.reports[-1:]}")

    def check_release(self, r):
        sim, c = self.sim, self.cfg
        mine = f"{r.id}/{r.n}"
        alone = all(q is r or q.id != r.id or q.dead or q.task.done() for q in self.all_runs)
        if not r.spec["release"] or r.started is None or not alone:
            return
        asked = [q for q in self.api.log if q["who"] == mine]
        if self.last_writer == mine and self.holder() is None and asked[-1]["op"] == "put" and asked[-1]["out"] == "ok":
            sim.probe("released")
            if r.elector.is_leader():
                sim.fail("C23", "is_leader_wrong", f"is_leader() of {r.id} is true although it has released the lock")
        if r.cancelled_at is None or r.again or self.disturbed(r) > r.cancelled_at - 2 * (2.2 * c["P"] + 8 * c["lat"] + 0.1):
            return
        if any(f.get("k") in (None, r.id) and a <= sim.now and min(b, self.api.heal) >= r.cancelled_at - 1.0 for a, b, f in self.api.outages):
            return
        if any(q["t"] <= r.cancelled_at and (q["end"] is None or q["end"] >= r.cancelled_at) for q in asked):
            return  # what it was asking when it was cancelled may or may not have been done
        if self.holder() == r.id:
            sim.fail("C22", "not_released", f"{r.id}, which releases the lock when cancelled, was cancelled at {r.cancelled_at:.3f} and ended, and still holds it")

    async def work_over(self, r):
        await asyncio.sleep(r.spec["clean"] + 0.01)
        if r.work == "running":
            self.sim.fail("C23", "work_left", f"the leading work of {r.id} goes on after its run ended")

    # -- liveness
    def bound(self):
        c = self.cfg
        poll = 2.2 * c["P"] + 8 * c["lat"] + 0.1
        b = 3 * poll + 0.5
        if self.holder() is not None:
            b += c["L"] + poll
        return b

    async def watchdog(self):
        sim, c = self.sim, self.cfg
        since = None
        while True:
            await asyncio.sleep(c["P"] / 5)
            live = self.live()
            leading = [r for r in live if r.leading()]
            if not live or leading or any(r.leading() for r in self.all_runs):
                since = None
                for r in leading:
                    if r.work == "cancelled":
                        sim.fail("C23", "work_cut", f"the leading work of {r.id} was cancelled although it still leads")
                        r.work = "ended"
                continue
            if since is None:
                since = (sim.now, self.holder())
            if since[1] != self.holder():
                since = (sim.now, self.holder())
            a = max(since[0], min(r.began for r in live), self.disturbed(), self.changed_at())
            if sim.now > a + self.bound():
                sim.fail("C22", "leaderless", f"{len(live)} candidates, nobody leads since {a:.2f} (now {sim.now:.2f}), the lock "
                         + (f"names {self.holder()}" if self.holder() else "is free"))
                since = None
                return

    def changed_at(self):
        h = self.holders[-1] if self.holders else (0.0, None)
        if h[1] is None or any(r.id == h[1] for r in self.live()):
            return h[0]  # a live holder has no lease to wait for: it has to lead
        return max(h[0], self.written.get(h[1], 0.0))

    # -- the run
    async def main(self, sim):
        c = self.cfg
        self.offset = list(c["offset"])
        self.api = api = Server(sim, self.plan["faults"], c)
        self.setup()
        self.rest = self.others()
        api.on_write = self.on_write
        ops = [sim.helper(self.op(o)) for o in self.plan["ops"]]
        dog = sim.helper(self.watchdog())
        await asyncio.sleep(c["end"])
        await asyncio.wait(ops)
        settle = max(c["end"], c["heal"])
        await asyncio.sleep(max(0.0, settle - sim.now) + self.bound() + c["L"] + 2 * c["P"])
        if self.live() and not sim.violations:
            await self.settled()
        dog.cancel()
        self.closing = True
        rest = [r for r in self.all_runs if not r.dead and not r.task.done()]
        for r in rest:
            if r.cancelled_at is None:
                r.cancelled_at = sim.now
                r.task.cancel()
        if rest:
            await asyncio.wait([r.task for r in rest], timeout=3 * c["L"] + 20)
            for r in rest:
                if not r.task.done():
                    sim.fail("C23", "stuck", f"the run of {r.id} had not ended {3 * c['L'] + 20:.0f} s after it was cancelled")
        self.closing = "teardown"

    async def settled(self):
        """Long after the last fault: everybody agrees on the leader."""
        sim, c = self.sim, self.cfg
        live = self.live()
        lead = [r for r in live if r.leading()]
        if len(lead) != 1:
            return  # the watchdog and the intervals judge that
        lead = lead[0]
        t = max(lead.started, max(r.began for r in live)) + 2 * (2.2 * c["P"] + 8 * c["lat"])
        await asyncio.sleep(max(0.0, t - sim.now) + 0.5)
        if not lead.leading():
            return
        if self.holder() != lead.id:
            return
        for r in live:
            if r.task.done() or r.cancelled_at is not None:
                continue
            last = r.reports[-1] if r.reports else None
            if last != lead.id and not r.spec.get("deaf"):
                sim.fail("C23", "report_missing", f"{lead.id} leads since {lead.started:.2f}, {r.id} was last told of {last} (now {sim.now:.2f})")
            if r.elector.is_leader() != (r is lead):
                sim.fail("C23", "is_leader_wrong", f"is_leader() of {r.id} is {r.elector.is_leader()} while {lead.id} leads and holds the lock")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C22")
    sim.stats["requests"] = len(h.api.log)
    sim.stats["leaderships"] = h.leaders
    sim.stats["holder_changes"] = len(h.holders)
    return sim
