"""Informers and reflectors against a simulated API server (C07, C09, C10 to C16)."""
import asyncio

from dst import apisrv, gen as g
from dst.core import Sim, crash_text

apisrv.install_http()

from aiok8s.cache import controller, delta_fifo, index, reflector, shared_informer, store  # noqa: E402
from aiok8s.controller import cache as cache_mod  # noqa: E402
from aiok8s.runtime import schema  # noqa: E402
from kubernetes_asyncio.client import models  # noqa: E402

NONTRIVIAL = "a server change happened while the informer was running"
REAL = ["aiok8s.cache.reflector", "aiok8s.cache.shared_informer", "aiok8s.cache.controller", "aiok8s.cache.delta_fifo",
        "aiok8s.cache.store", "aiok8s.cache.thread_safe_store", "aiok8s.cache.list_watch", "aiok8s.util.clock", "aiok8s.util.wait",
        "aiok8s.controller._informers_map (HTTP front end)", "aiok8s.controller.client (HTTP front end)",
        "kubernetes_asyncio client and Watch (HTTP front end)"]
STUB = ["API server", "aiohttp.ClientSession", "event loop clock and timers", "wall clock", "user handlers"]
SHRINK = ["ops", "faults"]
FRONTS = ["obj", "none", "gvk", "core", "cluster", "http", "httpns"]
CONV = 20.0
NS = "ns0", "default"


# ---------------------------------------------------------------------------------- plans
def gen(rng, tier, focus):
    kinds = {"C14": ["shared", "simple", "reflector", "reflector"], "C07": ["shared", "shared", "simple"],
             "C12": ["shared", "shared", "shared", "simple"], "C13": ["shared"], "C15": ["shared", "shared", "shared", "simple"],
             "C11": ["shared", "shared", "shared", "simple"], "C16": ["shared", "shared", "simple", "reflector"]}
    kind = rng.choice(kinds.get(focus, ["shared", "shared", "simple", "reflector"]))
    front = rng.choices(FRONTS, [6, 2, 3, 2, 2, 2, 1])[0]
    horizon = rng.choice([0.5, 3, 15, 60, 400, 1500] if focus in ("C10", "C14", "C15") else [0.5, 3, 15, 60])
    n_obj = rng.choice([1, 2, 4, 8]) if rng.random() < 0.98 else rng.choice([40, 120])
    pile = rng.random() < 0.06
    if pile:
        n_obj = rng.choice([8, 16, 40])
    cfg = {"kind": kind, "front": front, "lazy": rng.random() < 0.5, "n": n_obj, "n0": n_obj if pile else rng.randint(0, n_obj)}
    cfg["lat"] = rng.choice([0, 0, 0.01, 0.3, 2])
    cfg["evlat"] = rng.choice([0, 0, 0.01, 0.2])
    if pile:
        cfg["lat"], cfg["evlat"] = rng.choice([0, 0, 0.01]), 0
    cfg["max_watch"] = rng.choice([None, None, None, 0.5, 2, 20])
    while cfg["max_watch"] and horizon / cfg["max_watch"] > 60:
        cfg["max_watch"] *= 4
    calm = focus in ("C12", "C15") and rng.random() < 0.6 or rng.random() < 0.1
    if calm and cfg["max_watch"] and cfg["max_watch"] < 2:
        cfg["max_watch"] = 2
    n_ops = rng.choice([0, 3, 8, 16, 30])
    ops = []
    t = 0.0
    burst = rng.random() < 0.5
    for _ in range(n_ops):
        if not burst or rng.random() < 0.35:
            t = round(rng.random() * horizon, 4)
        o = {"t": t, "i": rng.randrange(n_obj), "o": rng.choices(["put", "del", "re", "bump", "compact"], [10, 5, 2, 1, 1])[0]}
        if rng.random() < 0.4:
            o["p"] = rng.randint(1, 6)
        ops.append(o)
    while rng.random() < 0.3:  # many changes at once, so that they pile up in the client
        t = round(rng.random() * horizon, 4)
        of = [rng.randrange(n_obj) for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(rng.choice([4, 10, 25])):
            ops.append({"t": t, "i": rng.choice(of), "o": rng.choice(["put", "put", "del", "re"]), "b": 1})
    ops.sort(key=lambda o: o["t"])
    if rng.random() < 0.5:  # changes at a chosen moment of the client's own work
        for _ in range(rng.choice([1, 2, 5])):
            ops.append({"t": horizon, "i": rng.randrange(n_obj), "o": rng.choice(["put", "put", "del", "re"]),
                        "at": [rng.choice(["listed", "listed", "open", "end", "cached", "told"]), rng.choice([1, 2, 2, 3, 4, 6, 9]), rng.randint(0, 40)]})
    if pile or rng.random() < 0.1:  # many changes to objects that may still be pending from a list
        at = [rng.choice(["listed", "open", "open"]), rng.choice([1, 1, 1, 2, 3]), rng.randint(0, 12)]
        of = [rng.randrange(n_obj) for _ in range(rng.choice([1, 2]))]
        for _ in range(rng.choice([3, 6, 12])):
            ops.append({"t": horizon, "i": rng.choice(of), "o": rng.choice(["put", "put", "put", "del", "re"]), "at": at})
    faults = []
    heal = 0.0
    if not calm:
        heal = round(horizon * (0.6 + 0.6 * rng.random()), 3)
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            faults.append(gen_fault(rng, focus, front, horizon))
        if rng.random() < 0.3:
            faults.append({"f": "outage", "t": round(rng.random() * horizon, 3), "d": round(rng.choice([0.1, 3, 30, 200]) * rng.random(), 3),
                           "how": rng.choice(["refuse", "hang"])})
        if focus not in ("C14", "C15") and rng.random() < 0.08:
            for _ in range(rng.choice([1, 3])):
                faults.append({"f": "clock", "t": round(rng.random() * horizon, 3), "d": rng.choice([-300, -2, 2, 300])})
        if rng.random() < 0.1:
            cfg["stall"] = {"p": 0.02, "max": rng.choice([0.1, 1.0]), "n": 5}
    cfg["calm"] = calm
    cfg["heal"] = heal
    cfg["end"] = round(max([heal, horizon * rng.choice([0, 0.3, 1])] + [o["t"] for o in ops]), 3)
    # resync and handlers
    cfg["resync"] = 0
    if kind == "reflector":
        cfg["resync"] = rng.choice([0, 0, 1, 5])
        cfg["store"] = {"d": rng.choice([0, 0, 0.01, 0.5]), "fail": rng.choice([0, 0, 0.1]), "failr": rng.choice([0, 0, 0.2])}
    elif n_obj <= 8 and (focus == "C15" or rng.random() < 0.3):
        cfg["resync"] = rng.choice([0.4, 1, 2.5, 7, 30]) if focus == "C15" or horizon > 20 else rng.choice([0.4, 1, 2])
        if focus == "C15":
            cfg["end"] = round(max(cfg["end"], cfg["resync"] * rng.choice([3, 8])), 3)
        while cfg["end"] / cfg["resync"] > 60:
            cfg["resync"] *= 4
    hs = []
    n_h = 1 if kind != "shared" else rng.choice([1, 2, 3, 4])
    if n_h == 4 and n_obj <= 8 and rng.random() < 0.12:
        n_h = rng.choice([8, 20])
    for j in range(n_h):
        h = {"at": None, "p": None}
        if kind == "shared":
            if focus == "C13" and j == n_h - 1 or rng.random() < {"C13": 0.5, "C15": 0.4}.get(focus, 0.2):
                h["at"] = gen_instant(rng, ops, horizon, cfg["end"])
                if focus == "C15" and rng.random() < 0.4:
                    h["at"] = ["resync", rng.choice([1, 2, 3, 5, 8, 13, 20]), rng.randint(0, 12), cfg["end"]]
            h["p"] = rng.choice([None, None, 0, 0, 0.5, 1, 3, 10])
        r = rng.random()
        if focus == "C12":
            r *= 0.6
        if kind == "simple" and focus in ("C12", "C11"):
            h["raise"] = sorted(rng.sample(range(16), rng.randint(1, 6)))
            h["delay"] = rng.choice([0, g.pause(rng, 4, True), 0.05, 0.7])
        elif r < 0.15:
            h["delay"] = g.pause(rng, 4, True)
        elif r < 0.25 and not cfg["resync"]:
            h["delay"] = rng.choice([0.05, 0.7, 3.0])
        elif r < 0.4:
            h["raise"] = sorted(rng.sample(range(12), rng.randint(1, 3)))
        elif r < 0.5 and kind == "shared" and focus != "C16" and j:
            h["block"] = rng.randrange(6)
        if rng.random() < 0.2:
            h["funcs"] = 1
        if kind == "simple" and isinstance(h.get("delay"), float) and h["delay"] * n_obj * 3 > (cfg["resync"] or 1e9):
            del h["delay"]  # the resyncs alone would keep it busy
        if kind == "simple" and isinstance(h.get("delay"), float) and cfg["max_watch"] and cfg["max_watch"] < 1 and h["delay"] * n_obj > 0.3:
            cfg["max_watch"] = None  # so would the relists
        hs.append(h)
    for h in hs:
        while cfg["resync"] and h["p"] and cfg["end"] / h["p"] > 60:
            h["p"] *= 4
    cfg["handlers"] = hs
    if focus == "C16" or rng.random() < 0.15:
        for h in hs:
            h.pop("block", None)
        cfg["stop"] = gen_instant(rng, ops, max(cfg["end"], 1), cfg["end"])
        if rng.random() < 0.2:
            cfg["exit"] = rng.randrange(1000)  # the program ends: every task is cancelled at once
        elif rng.random() < 0.2:
            cfg["again"] = rng.choice([0, 1, 2, 3, 5, 8, 0.001, 0.5])  # cancelled a second time
        if kind == "shared" and rng.random() < 0.4:  # handlers are offered while it stops
            for h in rng.sample(hs, min(len(hs), rng.choice([1, 2]))):
                h["at"] = list(cfg["stop"])
                i = 2 if isinstance(h["at"][0], str) else 1
                h["at"][i] = max(0, h["at"][i] + rng.randint(-4, 8))
    cfg["rereg"] = rng.random() < 0.5
    if rng.random() < 0.2:
        cfg["twin"] = rng.choice(["add", "update", "delete"])
    # other caches that are waited for together with this one: when they sync, and where they stand
    cfg["others"] = [[rng.choice([0, 0.05, 0.35, 2, 20]), int(rng.random() < 0.5)] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    # changes once everything has settled, perhaps after a long calm
    if rng.random() < (0.6 if focus == "C12" else 0.25):
        rest = [0, 0, 30, 70] + ([700, 4000] if not cfg["resync"] and not cfg["max_watch"] else [])
        cfg["coda"] = [rng.choice(rest), [[rng.randrange(n_obj), rng.choice(["put", "put", "put", "del", "re"])] for _ in range(rng.choice([1, 1, 2, 5]))]]
    cfg["rv0"] = rng.choice([100, 1, 7, 93, 9990, 10 ** 15])
    cfg["gone"] = rng.choice(["mix", "event", "http"])
    if focus == "C14" and not front.startswith("http"):
        for _ in range(rng.choice([0, 0, 1, 3])):
            faults.append({"w": "watch", "n": rng.randrange(6), "f": "bookmark", "after": rng.choice([0, 1, 2]),
                           "t": rng.choice([0, round(rng.random() * horizon, 3)])})
    return {"cfg": cfg, "ops": ops, "faults": faults}


def gen_instant(rng, ops, horizon, end):
    r = rng.random()
    if rng.random() < 0.4:
        kind = rng.choice(["told", "told", "resync", "list", "watch", "open", "srv", "end", "synced", "cached"])
        return [kind, rng.choice([1, 1, 2, 3, 5, 8, 13, 20]), rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), end]
    if r < 0.2:
        return [0.0, rng.randint(1, 40)]
    if r < 0.6 and ops:
        return [rng.choice(ops)["t"], rng.randint(0, 30)]
    return [round(rng.random() * horizon, 4), rng.randint(0, 3)]


def gen_fault(rng, focus, front, horizon):
    w = rng.choice(["list", "watch", "watch", "watch"])
    n = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
    f = {"w": w, "n": n}
    if w == "list":
        f["f"] = rng.choice(["lost", "lost_answer", "http", "hang", "stale", "order"])
        if f["f"] == "http":
            f["code"] = rng.choice([410, 429, 500, 503])
        if f["f"] == "hang":
            f["d"] = rng.choice([1, 30, 1000])
            f["then"] = rng.choice(["ok", "err"])
        if f["f"] == "stale":
            f["back"] = rng.choice([1, 3, 20])
    else:
        f["f"] = rng.choice(["lost", "http", "hang", "error", "exc", "exc", "eof", "timeout", "stall", "junk", "bookmark", "slow"])
        if focus == "C14" and rng.random() < 0.5:
            f["f"] = rng.choice(["eof", "eof", "bookmark"])
        if f["f"] == "bookmark" and front.startswith("http") or f["f"] == "junk" and front == "none":
            f["f"] = "eof"
        if f["f"] in ("lost", "hang") or f["f"] == "http":
            if f["f"] == "http":
                f["code"] = rng.choice([410, 429, 500])
            if f["f"] == "hang":
                f["d"] = rng.choice([1, 30, 1000])
                f["then"] = rng.choice(["ok", "err"])
            return f
        f["after"] = rng.choice([0, 0, 1, 2, 4])
        f["t"] = rng.choice([0, 0, 0, round(rng.random() * horizon, 3)])
        if f["f"] == "error":
            f["code"] = rng.choice([410, 500])
        if f["f"] == "stall":
            f["d"] = rng.choice([1, 20, 500])
            f["then"] = rng.choice(["go", "timeout"])
        if f["f"] == "slow":
            f["d"] = rng.choice([0.5, 5, 50])
    return f


def simpler(plan):
    c = plan["cfg"]
    for k in range(len(c["handlers"])):
        if len(c["handlers"]) > 1:
            yield lambda p, k=k: p["cfg"]["handlers"].pop(k)
        for f in ("raise", "delay", "block"):
            if f in c["handlers"][k]:
                yield lambda p, k=k, f=f: p["cfg"]["handlers"][k].pop(f)
    for f, v in (("lat", 0), ("evlat", 0), ("max_watch", None), ("stall", None), ("resync", 0), ("front", "obj"), ("lazy", False),
                 ("n0", 0), ("rereg", False), ("others", []), ("coda", None), ("rv0", 100), ("gone", "mix")):
        if c.get(f) != v and f in c:
            yield lambda p, f=f, v=v: p["cfg"].__setitem__(f, v)
    for k, o in enumerate(plan["ops"]):
        if "p" in o:
            yield lambda p, k=k: p["ops"][k].pop("p")


# ---------------------------------------------------------------------------------- objects
def ident(obj):
    """(key, uid, resource version, payload) of an object or deletion marker."""
    if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
        k = ident(obj.obj) if obj.obj is not None else (None, None, None, None)
        return (obj.key,) + k[1:]
    if isinstance(obj, dict):
        m = obj["metadata"]
        ns, name, uid, rv = m.get("namespace"), m["name"], m["uid"], m["resourceVersion"]
        v = m.get("labels", {}).get("v")
    else:
        m = obj.metadata
        ns, name, uid, rv = m.namespace, m.name, m.uid, m.resource_version
        v = (m.labels or {}).get("v")
    return f"{ns}/{name}" if ns else name, uid, rv, v


def payloads(obj):
    v = int(ident(obj)[3])
    return [f"mod{v % 3}"] + ([f"third{v // 3 % 2}"] if v % 2 else [])


class Told(Exception):
    """What a failing handler raises."""


def http_list_watch(ns):
    """What the controller package's cache reads this kind with."""
    got = []

    def grab(lister_watcher, *a, **kw):
        got.append(lister_watcher)
        return real(lister_watcher, *a, **kw)

    real, shared_informer.new_shared_index_informer = shared_informer.new_shared_index_informer, grab
    try:
        c = cache_mod.new(namespace=ns).get_informer(models.V1Pod)
        try:
            while not got:
                c.send(None)
        except StopIteration:
            pass
        else:
            c.close()
    finally:
        shared_informer.new_shared_index_informer = real
    return got[0]


class Handler:
    def __init__(self, h, j, spec):
        self.h, self.sim, self.j, self.spec = h, h.sim, j, spec
        self.known = {}
        self.calls = 0
        self.busy = False
        self.ended = -1.0
        self.told = []  # (t, what, key, rv)
        self.late = bool(spec["at"])
        self.registered = None
        self.t_reg = None
        self.slow = 0.0
        self.absent = {}  # key -> version told of while the cache did not have the object
        self.twin = None
        self.history = {"add": [], "update": [], "delete": []}

    def handler(self):
        if self.spec.get("funcs"):
            return controller.ResourceEventHandlerFuncs(self.on_add, self.on_update, self.on_delete)
        return self

    def partial(self, only):
        """A handler with one function, which is told what this one is told."""
        self.twin = (only, [])

        async def on_any(*objs):
            key, _, rv, _ = ident(objs[-1])
            if len(objs) == 1 or ident(objs[0])[2] != rv:
                self.twin[1].append((key, rv))

        return controller.ResourceEventHandlerFuncs(**{only + "_func": on_any})

    def check_stored(self, what, key, rv):
        """The cache reflects what the handler is told or a newer state."""
        now = self.h.store.get_by_key(key)
        have = int(ident(now)[2]) if now is not None else None
        if what == "delete":
            self.absent.pop(key, None)
            early = have is not None and have <= int(rv) and not self.h.stale
        else:
            if have is None:
                self.absent[key] = rv
            early = have is not None and have < int(rv) and not self.h.stale
        if early:
            self.bad("told_before_stored", f"handler {self.j}: {what} of {key}@{rv}, the cache has @{have}")

    def bad(self, cls, msg):
        self.sim.fail("C11", cls, msg)
        if self.late:
            self.sim.fail("C13", cls, msg)

    async def call(self, what, old, new):
        h, sim = self.h, self.sim
        n = self.calls
        self.calls += 1
        key, uid, rv, _ = ident(new if new is not None else old)
        sim.event("told", self.j, what, key, rv)
        if h.finished is not None:
            sim.fail("C16", "called_after_stop", f"handler {self.j} told {what} {key} after run() had finished")
        if self.registered is False:
            sim.fail("C16", "ignored_handler_called", f"a handler offered to the stopped informer was told {what} {key}")
        if self.busy and h.kind != "reflector":
            self.bad("concurrent", f"handler {self.j} was called while it was still running")
        self.told.append((sim.now, what, key, rv))
        self.check_stored(what, key, rv)
        if what != "update" or ident(old)[2] != rv:
            self.history[what].append((key, rv))
        seen = self.known.get(key)
        if what == "update" and seen and seen[0] == rv:
            sim.event("resync", self.j)
        if what == "add":
            if seen:
                self.bad("add_known", f"handler {self.j}: add of {key}@{rv}, known at {seen[0]}")
            self.known[key] = (rv, uid)
        elif what == "update":
            okey, ouid, orv, _ = ident(old)
            if okey != key:
                self.bad("mixed", f"handler {self.j}: update from {okey} to {key}")
            if not seen:
                self.bad("update_unknown", f"handler {self.j}: update of {key}@{rv}, which it was never told about")
            elif seen != (orv, ouid):
                self.bad("update_gap", f"handler {self.j}: update of {key} from {orv}, last told {seen[0]}")
            self.known[key] = (rv, uid)
        else:
            if not seen:
                self.bad("delete_unknown", f"handler {self.j}: delete of {key}, which it did not know")
            self.known.pop(key, None)
        self.busy = True
        try:
            if self.spec.get("block") == n:
                sim.fault("handler_blocks")
                self.blocked = True
                await sim.loop.create_future()
            d = self.spec.get("delay")
            if d:
                sim.fault("handler_slow")
                await sim.pause(d)
            if n in self.spec.get("raise", ()):
                sim.fault("handler_raises")
                raise Told("handler failed")
        finally:
            self.busy = False
            self.ended = sim.now

    def backlog(self):
        """A slow handler that is being told one thing after the other: what it lacks may be yet to come."""
        return isinstance(self.spec.get("delay"), float) and (self.busy or self.sim.now - self.ended < 0.5)

    async def on_add(self, obj):
        await self.call("add", None, obj)

    async def on_update(self, old, new):
        await self.call("update", old, new)

    async def on_delete(self, obj):
        await self.call("delete", obj, None)


class RecStore:
    """The store under a bare reflector: slow, sometimes failing, remembering what it was given."""

    def __init__(self, h, spec):
        self.h, self.sim, self.spec = h, h.sim, spec
        self.rng = h.sim.rng("store")
        self.items = {}
        self.given = {""}
        self.failed = False
        self.busy = False

    async def _op(self, what, obj, rv, fail):
        sim = self.sim
        sim.event("store", what, ident(obj)[0] if obj is not None else None, rv)
        if self.h.finished is not None:
            sim.fail("C16", "store_after_stop", f"store.{what} after the reflector had stopped")
        d = self.spec["d"]
        if d:
            await asyncio.sleep(self.rng.random() * d)
        self.given.add(rv)
        if self.rng.random() < fail and sim.now < self.h.cfg["heal"]:
            sim.fault("store_raises")
            if what != "replace":
                self.failed = True
            else:
                self.h.api.log[-1]["store_failed"] = True
            raise Told("store failed")

    async def add(self, obj):
        await self._op("add", obj, ident(obj)[2], self.spec["fail"])
        self.items[ident(obj)[0]] = obj

    async def update(self, obj):
        await self._op("update", obj, ident(obj)[2], self.spec["fail"])
        self.items[ident(obj)[0]] = obj

    async def delete(self, obj):
        await self._op("delete", obj, ident(obj)[2], self.spec["fail"])
        self.items.pop(ident(obj)[0], None)

    async def replace(self, list_, rv):
        await self._op("replace", None, rv, self.spec["failr"])
        self.items = {ident(o)[0]: o for o in list_}
        self.failed = False

    async def resync(self):
        await self._op("resync", None, "", 0)

    def list(self):
        return list(self.items.values())


# ---------------------------------------------------------------------------------- harness
class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.kind = self.cfg["kind"]
        self.mine = set()
        self.finished = None  # time at which run() returned
        self.stop_at = None
        self.synced_at = None
        self.waited = -1.0
        self.unsynced = False
        self.cached = []
        self.best = {}
        self.reflected = []  # (t, key, rv or None)
        self.last_map = {}
        self.started = False
        self.data = 0
        self.stale = any(f["f"] == "stale" for f in plan["faults"])

    calls = ()  # tasks in which the user calls the code under test

    def own(self, coro):
        t = self.sim.helper(coro)
        self.mine.add(t)
        return t

    # -- set up
    def build(self):
        c, sim = self.cfg, self.sim
        front = c["front"]
        self.plural = {"gvk": "deployments", "cluster": "nodes"}.get(front, "pods")
        self.ns = "ns0" if front == "httpns" else None
        self.api = api = apisrv.ApiServer(sim, self.plan["faults"], c)
        api.on_open = self.on_open
        for i in range(c["n0"]):
            if self.key(i) not in api.objs[self.plural]:
                api.create(self.plural, self.raw(i))
        if front.startswith("http"):
            lw, typ = http_list_watch(self.ns), models.V1Pod
        elif front in ("obj", "none"):
            lw = apisrv.DuckListWatch(api, self.plural, True, c["lazy"])
            typ = apisrv.Obj if front == "obj" else None
        else:
            lw = apisrv.DuckListWatch(api, self.plural, False, c["lazy"])
            k, av, _ = apisrv.KINDS[self.plural]
            grp, _, ver = av.rpartition("/")
            typ = schema.GroupVersionKind(grp, ver, k)
        self.handlers = [Handler(self, j, s) for j, s in enumerate(c["handlers"])]
        if self.kind == "shared":
            self.inf = shared_informer.new_shared_index_informer(
                lw, typ, c["resync"], index.Indexers({index.NAMESPACE_INDEX: index.meta_namespace_index_func}))
            self.store = self.inf.get_indexer()
            self.runf = self.inf.run
            self.own_index = c["n"] % 2 == 0
        elif self.kind == "simple":
            self.store, self.inf = controller.new_informer(lw, typ, c["resync"], self.handlers[0].handler())
            self.runf = self.inf.run
            self.handlers[0].registered = True
            self.handlers[0].t_reg = 0.0
        else:
            self.store = RecStore(self, c["store"])
            self.inf = reflector.Reflector(lw, typ, self.store, c["resync"])
            self.runf = self.inf.run
            self.handlers = []

    def raw(self, i):
        self.data += 1
        return self.api.raw(self.plural, NS[i % 2], f"o{i // 2}", self.data)

    def key(self, i):
        r = self.api.raw(self.plural, NS[i % 2], f"o{i // 2}", 0)
        return apisrv.key_of(r)

    def server(self):
        """key -> rv of what the informer should hold."""
        return {k: o["metadata"]["resourceVersion"] for k, o in self.api.objs[self.plural].items()
                if not self.ns or o["metadata"].get("namespace") == self.ns}

    # -- invariants while the run proceeds
    def on_open(self, s):
        others = [x for x in self.api.streams if x is not s and x.held()]
        if others:
            self.sim.fail("C14", "two_streams", f"a watch was opened while {len(others)} earlier one(s) were not closed")
        if self.finished is not None:
            self.sim.fail("C16", "open_after_stop", "a watch stream was opened after run() had finished")

    def iteration(self):
        sim = self.sim
        if self.stop_at is not None:  # callbacks are being aborted
            pass
        elif self.kind == "reflector":
            v = self.inf.last_sync_resource_version()
            if v not in self.store.given and v not in self.api.bookmarks:
                sim.fail("C14", "ahead", f"last_sync_resource_version {v!r} was never given to the store (given: {sorted(self.store.given)[-3:]})")
        else:
            s = bool(self.inf.has_synced())
            if s and self.synced_at is None:
                self.synced_at = sim.now
                sim.event("synced")
                self.check_synced("has_synced")
            elif not s and self.synced_at is not None and not self.unsynced:
                self.unsynced = True
                sim.fail("C07", "unsynced", "has_synced went back to false")
            v = self.inf.last_sync_resource_version()
            if v not in self.api.sent:
                sim.fail("C14", "bogus_version", f"last_sync_resource_version {v!r} was never sent by the server")
        now = self.store.list()
        old = self.cached
        if len(now) == len(old) and all(a is b for a, b in zip(now, old)):
            return
        self.cached = list(now)
        m = {}
        for o in now:
            key, uid, rv, v = ident(o)
            m[key] = rv
            if self.last_map.get(key) == rv:
                continue
            self.reflected.append((sim.now, key, rv))
            sim.event("cached", key, rv)
            real = self.api.versions[self.plural, key].get(rv)
            if real is None:
                sim.fail("C10", "ghost_version", f"cached {key}@{rv}, a version the server never had")
                continue
            typ, raw = real
            rm = raw["metadata"]
            if uid != rm["uid"] or v != rm["labels"]["v"]:
                sim.fail("C10", "wrong_content", f"cached {key}@{rv} has uid {uid} payload {v}, really {rm['uid']} {rm['labels']['v']}")
            b = self.best.get((key, uid))
            if b is not None and int(rv) < b and not self.api.stale:
                sim.fail("C10", "backwards", f"cached {key} went back from {b} to {rv}")
            self.best[key, uid] = max(b or 0, int(rv))
        for key in self.last_map:
            if key not in m:
                self.reflected.append((sim.now, key, None))
        self.last_map = m

    def first_list(self):
        for r in self.api.log:
            if r["op"] == "list" and r["out"] == "ok" and not r.get("store_failed"):
                return r
        return None

    def check_synced(self, who):
        sim = self.sim
        r = self.first_list()
        if r is None:
            sim.fail("C07", "early", f"{who} reports synced before any list succeeded")
            return
        have = {ident(o)[0]: ident(o)[2] for o in self.store.list()}
        for key, rv in r["items"].items():
            if key in have and int(have[key]) >= int(rv):
                continue
            later = [e for e in self.api.hist[self.plural] if e[0] > int(rv) and e[1] == "DELETED" and apisrv.key_of(e[2]) == key]
            if key not in have and later:
                continue
            if any(x["op"] == "list" and x["out"] == "ok" and x.get("stale") for x in self.api.log):
                continue  # a later list may have taken the cache back
            sim.fail("C07", "early", f"{who} reports synced although {key}@{rv} of the initial list is not in the cache (cached: {have.get(key)})")
            return

    # -- environment
    async def drive(self):
        sim = self.sim
        anchored = [self.own(self.drive_at(o)) for o in self.plan["ops"] if "at" in o]
        for o in self.plan["ops"]:
            if "at" in o:
                continue
            if "b" in o and o["t"] <= sim.now:
                self.change(o)
                continue
            await asyncio.sleep(max(0.0, o["t"] - sim.now))
            await sim.pause(o.get("p", 0))
            self.change(o)
        for t in anchored:
            await t

    async def drive_at(self, o):
        await self.sim.instant(o["at"] + [o["t"]])
        self.change(o)

    def change(self, o):
        sim, api = self.sim, self.api
        i, what = o["i"], o["o"]
        key = self.key(i)
        exists = key in api.objs[self.plural]
        if what == "put":
            api.update(self.plural, self.raw(i)) if exists else api.create(self.plural, self.raw(i))
        elif what == "del":
            if exists:
                api.delete(self.plural, key)
        elif what == "re":
            if exists:
                api.delete(self.plural, key)
            api.create(self.plural, self.raw(i))
        elif what == "bump":
            api.bump()
        elif what == "compact":
            api.compact(self.plural)
        if self.started and self.finished is None and what in ("put", "del", "re"):
            sim.nontrivial = True

    async def clock_faults(self):
        for f in sorted((f for f in self.plan["faults"] if f["f"] == "clock"), key=lambda f: f["t"]):
            await asyncio.sleep(max(0.0, f["t"] - self.sim.now))
            self.sim.jump(f["d"])

    async def register(self, hd):
        sim = self.sim
        if hd.late:
            await sim.instant(hd.spec["at"])
        if self.stop_at is not None and self.cfg.get("exit") is not None:
            return  # the program is ending
        a = sim.now
        hd.t_reg_call = a
        stopped_before = self.finished is not None
        stopping_before = self.stop_at is not None
        sim.event("register", hd.j)
        task = self.own(self.inf.add_event_handler(hd.handler(), resync_period=hd.spec["p"]))
        self.calls += (task,)
        done, _ = await asyncio.wait([task], timeout=5.0 + self.slack(a))
        if not done:
            if not self.started or self.stop_at is None:
                if sim.stalled(a, sim.now) == 0:
                    sim.fail("C13", "registration_stuck", f"add_event_handler of handler {hd.j} did not return within 5 s")
            done, _ = await asyncio.wait([task], timeout=70.0)
            if not done and self.stop_at is not None:
                sim.fail("C16", "offer_blocks", f"add_event_handler of handler {hd.j}, called {'after' if stopped_before else 'before'} the stop, never returned")
                task.cancel()
                return
        try:
            await task
        except asyncio.CancelledError:
            return
        except Exception as e:
            sim.fail("C13", "raised:" + type(e).__name__, f"add_event_handler raised {crash_text(e)}")
            return
        hd.t_reg = sim.now
        hd.registered = not stopped_before
        hd.maybe = stopping_before or self.stop_at is not None
        sim.event("registered", hd.j)

    def slack(self, a):
        return 0.5

    async def syncer(self):
        sim = self.sim
        t0 = sim.now
        fs = [self.inf.has_synced]
        for d, before in self.cfg.get("others", ()):
            fs.insert(0 if before else len(fs), lambda d=d: sim.now >= t0 + d)
        try:
            ok = await shared_informer.wait_for_cache_sync(*fs)
        except asyncio.CancelledError:
            return
        sim.event("wait_for_cache_sync", ok)
        self.waited = sim.now
        if self.stop_at is not None:
            return
        if ok:
            if len(fs) > 1:
                sim.probe("waited_for_several")
            if not all(f() for f in fs):
                sim.fail("C07", "wait_early", f"wait_for_cache_sync reports success although {sum(not f() for f in fs)} of {len(fs)} "
                         "caches have not synced")
            self.check_synced("wait_for_cache_sync")
        else:
            sim.fail("C07", "sync_false", "wait_for_cache_sync reported failure")

    async def runner(self):
        self.started = True
        await self.runf()

    # -- the run
    async def main(self, sim):
        c = self.cfg
        self.build()
        sim.loop.on_iteration.append(self.iteration)
        if self.kind == "shared":
            if self.own_index:
                try:
                    await self.inf.add_indexers(index.Indexers({"payload": payloads}))
                except Exception as e:
                    sim.fail("C09", "refused:" + type(e).__name__, f"an indexer offered to the empty, not started informer was refused: {crash_text(e)}")
                    self.own_index = False
            for hd in self.handlers:
                if not hd.late:
                    await self.register(hd)
                if not hd.late and "twin" in c and not hd.j:
                    await self.inf.add_event_handler(hd.partial(c["twin"]), resync_period=0)
        self.run_task = self.own(self.runner())
        drive = self.own(self.drive())
        self.own(self.api.break_streams())
        self.own(self.clock_faults())
        if self.kind != "reflector":
            self.own(self.syncer())
        regs = [self.own(self.register(hd)) for hd in self.handlers if hd.late]
        if c.get("stop"):
            await sim.instant(c["stop"])
            await self.stop()
            return
        await asyncio.sleep(max(0.0, c["end"] - sim.now))
        await drive
        if self.run_task.done():
            e = self.run_task.exception()
            sim.fail_also(["C10", "C11", "C12", "C13", "C15"], "died", f"run() ended by itself: {crash_text(e) if e else 'returned'}")
            return
        t_end = sim.now
        stalled0 = sum(b - a for a, b in sim.stalls)
        inline = 0.0
        if self.kind == "simple":
            d = self.handlers[0].spec.get("delay", 0)
            inline = (d if isinstance(d, float) else 0) * (len(self.api.hist[self.plural]) + 3 * len(self.plan["faults"]) * c["n"] + 3 * c["n"])
        if self.kind == "reflector":
            inline = c["store"]["d"] * (len(self.api.hist[self.plural]) + 2 * c["n"])
        lim = t_end + CONV + 4 * c["lat"] + inline + len(self.api.hist[self.plural]) * c["evlat"]
        lim += stalled0
        while sim.now < lim and self.view() != self.server():
            await asyncio.sleep(0.25)
        conv = sim.now
        if self.view() != self.server() and not (self.kind == "reflector" and self.store.failed):
            sim.fail("C10", "diverged", self.diff("the cache", self.view()) + f" {sim.now - t_end:.0f} s after faults ended")
            if self.kind == "simple" and self.handlers[0].spec.get("raise"):
                sim.fail("C12", "diverged", self.diff("the store of a raising handler", self.view()))
        # handlers catch up
        lim = max(sim.now, lim) + 2.0
        for hd in self.handlers:
            d = hd.spec.get("delay", 0)
            if isinstance(d, float):
                lim = max(lim, conv + 2.0 + d * (len(hd.told) + len(self.api.hist[self.plural]) * 3 + 60))
            if hd.spec.get("raise"):
                lim = max(lim, conv + 62.0 * len(hd.spec["raise"]) + 2)
        stable = 0
        watched = [hd for hd in self.handlers if "block" not in hd.spec]
        if regs:
            t = sim.now
            await asyncio.wait(regs)
            lim += sim.now - t
        calm_for = 3.0
        for hd in self.handlers:
            d = hd.spec.get("delay", 0)
            calm_for = max(calm_for, 2 * d + 1 if isinstance(d, float) else 0)
            if hd.spec.get("raise"):
                calm_for = max(calm_for, 62.0 * len(hd.spec["raise"]))
        lim += calm_for
        calls = None
        while True:
            ok = self.view() == self.server() and self.api.caught_up(self.plural, self.ns) and all(self.handler_view(hd) == self.server() for hd in watched)
            if calls != sum(hd.calls for hd in watched if isinstance(hd.spec.get("delay"), float)):
                calls = sum(hd.calls for hd in watched if isinstance(hd.spec.get("delay"), float))
                ok = False
            if ok and stable * 0.25 >= calm_for or sim.now >= lim:
                break
            stable = stable + 1 if ok else 0
            await asyncio.sleep(0.25)
        behind = await self.worked_off(watched)
        if self.view() == self.server():
            for hd in watched:
                if self.handler_view(hd) != self.server() and hd not in behind:
                    msg = self.diff(f"handler {hd.j} ({hd.spec})", self.handler_view(hd))
                    sim.fail("C11", "handler_diverged", msg)
                    if hd.late:
                        sim.fail("C13", "handler_diverged", msg)
                    if any(x.spec.get("block") is not None or x.spec.get("delay") or x.spec.get("raise") for x in self.handlers):
                        sim.fail("C12", "handler_diverged", msg)
        elif not (self.kind == "reflector" and self.store.failed):
            sim.fail("C10", "diverged_later", self.diff("the cache", self.view()))
        if c.get("coda"):
            await self.coda(watched, inline)
        if not any(f["f"] == "clock" for f in self.plan["faults"]):
            self.check_log()
        if self.kind != "reflector":
            self.check_sync_progress()
            self.check_delivery()
            self.check_resumption()
            if c["calm"]:
                self.check_latency()
            if sim.probes.get("resync_ok", 1):
                self.check_resync()
        if self.kind == "shared":
            await self.check_index()
        await self.stop()

    async def worked_off(self, watched):
        """Waits for slow handlers with a long way to go, as after many relists; returns those that never get there."""
        sim = self.sim
        lim = sim.now + 2000.0
        behind = lambda: [hd for hd in watched if self.handler_view(hd) != self.server() and hd.backlog()]
        while behind() and sim.now < lim:
            sim.probe("backlog")
            await asyncio.sleep(0.25)
        return behind()

    def view(self):
        return {ident(o)[0]: ident(o)[2] for o in self.store.list()}

    def handler_view(self, hd):
        return {k: v[0] for k, v in hd.known.items()}

    def diff(self, who, have):
        want = self.server()
        miss = {k: v for k, v in want.items() if k not in have}
        extra = {k: v for k, v in have.items() if k not in want}
        stale = {k: f"{have[k]} not {want[k]}" for k in have if k in want and have[k] != want[k]}
        out = []
        for n, d in (("missing", miss), ("ghosts", extra), ("stale", stale)):
            if d:
                out.append(f"{n} {d}")
        return f"{who} differs from the server: " + ", ".join(out)

    # -- stopping
    def exit(self):
        """What asyncio.run does at its end, in no particular order."""
        sim = self.sim
        sim.fault("exit")
        tasks = [t for t in sim.loop.live_tasks() if (t not in self.mine or t in self.calls or t is self.run_task) and t is not asyncio.current_task()]
        sim.rng(f"exit/{self.cfg['exit']}").shuffle(tasks)
        for t in tasks:
            t.cancel()

    async def stop(self):
        sim, c = self.sim, self.cfg
        if not self.started or self.run_task.done():
            return
        self.stop_at = sim.now
        sim.event("cancel")
        if c.get("exit") is None:
            self.run_task.cancel()
        else:
            self.exit()
        if self.cfg.get("again") is not None:
            async def again():
                await sim.pause(self.cfg["again"])
                if not self.run_task.done():
                    sim.fault("cancelled_again")
                    self.run_task.cancel()
            self.own(again())
        if self.kind != "reflector" and not c.get("stop"):
            sim.probe("stop_at_end")
        delay = max([hd.spec["delay"] for hd in self.handlers if isinstance(hd.spec.get("delay"), float)] + [0])
        lim = 62.0 + delay + 2 * c["lat"] + (c["store"]["d"] if self.kind == "reflector" else 0) + 1
        await asyncio.wait([self.run_task], timeout=lim)
        if not self.run_task.done():
            if not any(getattr(hd, "blocked", False) for hd in self.handlers):
                sim.fail("C16", "stop_stuck", f"run() had not finished {lim:.0f} s after it was cancelled")
            return
        if not self.run_task.cancelled():
            e = self.run_task.exception()
            if e is not None:
                sim.fail("C16", "stop_raised:" + type(e).__name__, f"run() raised {crash_text(e)} when cancelled")
        self.finished = sim.now
        sim.event("stopped")
        n = len(self.api.log)
        await asyncio.sleep(0.02)
        left = [t for t in sim.loop.live_tasks() if t not in self.mine and t is not asyncio.current_task()]
        if left:
            sim.fail("C16", "task_left", f"{len(left)} task(s) still running after the stop: {sorted(t.get_coro().__qualname__ for t in left)[:4]}")
        held = [s for s in self.api.streams if s.held()]
        if held:
            sim.fail("C16", "stream_left", f"{len(held)} watch stream(s) still open after the stop")
            sim.fail("C14", "stream_left", f"{len(held)} watch stream(s) never closed")
        if self.kind == "shared" and c["rereg"]:
            late = Handler(self, 99, {"at": [0, 0], "p": None})
            late.registered = False
            self.handlers.append(late)
            task = self.own(self.inf.add_event_handler(late))
            await asyncio.wait([task], timeout=2.0)
            if not task.done():
                sim.fail("C16", "offer_blocks", "add_event_handler on the stopped informer did not return")
            elif task.exception():
                sim.fail("C16", "offer_raises", f"add_event_handler on the stopped informer raised {crash_text(task.exception())}")
        await asyncio.sleep(12.0)
        if len(self.api.log) > n:
            sim.fail("C16", "request_after_stop", f"a {self.api.log[n]['op']} request was made after the stop")

    # -- history checks
    def check_log(self):
        """C14: watches resume where they left off."""
        sim = self.sim
        cur = None
        allowed = set()
        justified = True
        self.version_known = True
        for r in self.api.log:
            if r["op"] == "list":
                if not justified:
                    sim.fail("C14", "needless_list", f"a new list at {r['t']:.3f} although every list and watch since the last one succeeded and ended cleanly")
                justified = True
                if r["out"] == "ok":
                    cur = r["rv"]
                    allowed = {cur}
                    justified = bool(r.get("store_failed"))
            elif r["op"] == "watch":
                if cur is None:
                    sim.fail("C14", "watch_before_list", "a watch was opened before any list succeeded")
                    continue
                if r["rv"] not in allowed:
                    sim.fail("C14", "wrong_start", f"the watch at {r['t']:.3f} starts from {r['rv']!r}, not from {sorted(allowed)}")
                if r["out"] != "ok":
                    justified = True
                    continue
                s = r["stream"]
                start = {r["rv"]}
                if s.how == "clean" or s.how is None:
                    allowed = {s.last_rv} if s.last_rv else start
                else:
                    allowed = start | {d[2] for d in s.delivered} | {s.last_rv or r["rv"]}
                if s.how in ("exc", "error"):
                    justified = True
                elif s.n + s.marks == 0 and s.t_end is not None and s.t_end - s.t0 < 1.6 + sim.stalled(s.t0, s.t_end):
                    justified = True
                elif s.junk and self.cfg["front"].startswith("http"):
                    justified = True
                if s.junk:
                    self.version_known = False
                if s.junk and not self.cfg["front"].startswith("http"):
                    allowed |= {str(x) for x in (s.pos,)} | {d[2] for d in s.delivered} | start | self.junk_versions(s)

        v = self.inf.last_sync_resource_version()
        if self.version_known and allowed and v not in allowed and self.view() == self.server() and self.api.caught_up(self.plural, self.ns):
            sim.fail("C14", "version_behind", f"last_sync_resource_version is {v!r}, the last list or event the store was given has {sorted(allowed)}")

    def junk_versions(self, s):
        return {str(s.pos)} | {d[2] for d in s.delivered} if self.cfg["front"] == "none" else set()

    def check_sync_progress(self):
        sim, c = self.sim, self.cfg
        r = self.first_list()
        if r is None:
            return
        extra = 0.0
        if self.kind == "simple":
            d = self.handlers[0].spec.get("delay", 0)
            extra = (d if isinstance(d, float) else 0.1) * len([x for x in self.api.log if x["op"] == "list"]) * (len(r["items"]) + len(self.api.hist[self.plural]) + 1) + 2
        lim = r["done"] + 5.0 + extra
        lim += sim.stalled(r["done"], sim.now)
        if self.synced_at is not None:
            due = max([self.synced_at] + [d for d, _ in c.get("others", ())]) + 0.5
            due += sim.stalled(0, sim.now)
            if sim.now > due and not 0 < self.waited <= due:
                sim.fail("C07", "wait_late", f"every cache had synced by {due - 0.5:.2f}, but wait_for_cache_sync "
                         + (f"returned only at {self.waited:.2f}" if self.waited > 0 else "has not returned"))
        if self.synced_at is None and sim.now > lim or self.synced_at is not None and self.synced_at > lim:
            sim.fail("C07", "late", f"the first list ({len(r['items'])} objects) succeeded at {r['done']:.2f}, has_synced is "
                     + ("still false" if self.synced_at is None else f"true only at {self.synced_at:.2f}"))

    def check_delivery(self):
        """C11: whatever a healthy stream delivered was told."""
        sim = self.sim
        if any(f["f"] == "junk" for f in self.plan["faults"]):
            return
        for hd in self.handlers:
            if "block" in hd.spec or self.handler_view(hd) != self.server():
                continue
            for key, rv in hd.absent.items():
                hd.bad("told_before_stored", f"handler {hd.j} was told of {key}@{rv} while the cache had no such object, which was not deleted")
            if hd.twin and not hd.spec.get("raise"):
                want = [x for x in hd.history[hd.twin[0]]]
                if hd.twin[1] != want:
                    sim.fail("C11", "partial", f"a handler with {hd.twin[0]}_func only was told of {hd.twin[1][-5:]} last, another of {want[-5:]}")
            if hd.late:
                continue
            told = {(k, rv) for _, _, k, rv in hd.told}
            for s in self.api.streams:
                if s.how not in (None, "clean"):
                    continue
                for typ, key, rv in s.delivered:
                    if (key, rv) in told:
                        continue
                    if typ == "DELETED" and self.merged_delete(hd, key, rv):
                        continue
                    sim.fail("C11", "gap", f"handler {hd.j} was never told about {typ} {key}@{rv}, which the watch delivered")
                    return

    async def coda(self, watched, inline):
        """Changes after everything has settled reach the cache and the handlers as well."""
        sim, c = self.sim, self.cfg
        rest, ops = c["coda"]
        await asyncio.sleep(rest)
        if self.run_task.done():
            e = self.run_task.exception()
            sim.fail_also(["C10", "C11", "C12", "C13", "C15"], "died", f"run() ended by itself: {crash_text(e) if e else 'returned'}")
            return
        t = sim.now
        for i, what in ops:
            self.change({"i": i, "o": what})
            await asyncio.sleep(0)
        sim.probe("coda")
        lim = t + CONV + 4 * c["lat"] + inline + len(ops) * (c["evlat"] + 1)
        told = lim + 2.0
        for hd in watched:
            d = hd.spec.get("delay", 0)
            if isinstance(d, float):
                told += d * (hd.calls + 60)
            left = [n for n in hd.spec.get("raise", ()) if n >= hd.calls]
            told += 62.0 * len(left)
        if c["resync"] and any(isinstance(hd.spec.get("delay"), float) for hd in watched):
            told += 200.0
        stalls = sum(b - a for a, b in sim.stalls)
        while sim.now < lim + sum(b - a for a, b in sim.stalls) - stalls and self.view() != self.server():
            await asyncio.sleep(0.25)
        if self.view() != self.server():
            if not (self.kind == "reflector" and self.store.failed):
                sim.fail("C10", "diverged_at_last", self.diff("the cache", self.view()) + f" {sim.now - t:.0f} s after a late change")
                if self.kind == "simple" and self.handlers[0].spec.get("raise"):
                    sim.fail("C12", "diverged_at_last", self.diff("the store of a raising handler", self.view()))
            return
        while sim.now < told + sum(b - a for a, b in sim.stalls) - stalls and not (
                self.api.caught_up(self.plural, self.ns) and all(self.handler_view(hd) == self.server() for hd in watched)):
            await asyncio.sleep(0.25)
        calm_for = 3.0  # for deliveries that change nothing in the end
        for hd in watched:
            d = hd.spec.get("delay", 0)
            calm_for = max(calm_for, 1 + d * (6 + 2 * len(ops)) if isinstance(d, float) else 0, 62.0 * sum(n >= hd.calls - 1 for n in hd.spec.get("raise", ())))
        await asyncio.sleep(calm_for)
        behind = await self.worked_off(watched)
        for hd in watched:
            if self.handler_view(hd) != self.server() and hd not in behind:
                msg = self.diff(f"handler {hd.j} ({hd.spec})", self.handler_view(hd)) + f" {sim.now - t:.0f} s after a late change"
                sim.fail("C11", "untold_at_last", msg)
                if hd.late:
                    sim.fail("C13", "untold_at_last", msg)
                if any(x.spec.get("block") is not None or x.spec.get("delay") or x.spec.get("raise") for x in self.handlers):
                    sim.fail("C12", "untold_at_last", msg)

    def merged_delete(self, hd, key, rv):
        """A deletion marker of a relist may stand for it."""
        return any(r["op"] == "list" and r["out"] == "ok" for r in self.api.log[1:]) and any(
            w == "delete" and k == key for _, w, k, _ in hd.told)

    def check_resumption(self):
        """C12: after a failing call the next notification follows within about a minute."""
        sim = self.sim
        if self.kind != "shared":
            return
        first = {}
        for t, key, rv in self.reflected:
            first.setdefault((key, rv), t)
        for hd in self.handlers:
            d = hd.spec.get("delay")
            d = d if isinstance(d, float) else 0.5 if d else 0.0
            known = {}
            for n, (t, what, key, rv) in enumerate(hd.told):
                ready = first.get((key, rv)) if what != "delete" and known.get(key) != rv else None
                known[key] = None if what == "delete" else rv
                if n == 0 or n - 1 not in hd.spec.get("raise", ()) or ready is None:
                    continue
                t0 = hd.told[n - 1][0]
                if "t_reg" in vars(hd) and hd.t_reg is None:
                    continue
                ready = max(t0 + d, ready, hd.t_reg or 0.0)
                sim.probe("resumed")
                if t > ready + 62.0 + sim.stalled(t0, t):
                    sim.fail("C12", "resumed_late", f"handler {hd.j} raised at {t0:.2f} and was told the next notification, "
                             f"ready by {ready:.2f}, only at {t:.2f}")
                    break

    def check_latency(self):
        """C12: in calm runs every change reaches the cache and every healthy handler promptly."""
        sim, c = self.sim, self.cfg
        r = self.first_list()
        if r is None:
            return
        ill = any("block" in x.spec or x.spec.get("delay") or x.spec.get("raise") for x in self.handlers)
        if not ill:
            return
        bound = 3.0 + 4 * c["lat"] + c["evlat"] * (len(self.api.hist[self.plural]) + 2)
        if c["max_watch"]:
            bound += 2
        expired = any(x["out"] != "ok" or (x.get("stream") and x["stream"].how == "error") for x in self.api.log)
        if expired or self.kind != "shared":
            return
        for rv, typ, raw, t in self.api.hist[self.plural]:
            key = apisrv.key_of(raw)
            t = max(t, r["done"])
            if rv <= int(r["rv"]) and r["items"].get(key) != str(rv):
                continue
            if sim.now - t < bound:
                continue
            if self.ns and raw["metadata"]["namespace"] != self.ns:
                continue
            ok = any(typ == "DELETED" and x is None or x is not None and int(x) >= rv for tt, k, x in self.reflected if k == key and tt <= t + bound)
            if not ok and typ != "DELETED":
                later = [e for e in self.api.hist[self.plural] if e[0] > rv and apisrv.key_of(e[2]) == key and e[3] <= t + bound]
                if not later:
                    sim.fail("C12", "cache_late", f"{typ} {key}@{rv} was not in the cache {bound:.1f} s later")
            for hd in self.handlers:
                if hd.late or "block" in hd.spec or hd.spec.get("delay") or hd.spec.get("raise"):
                    continue
                if not any(k == key and (int(x) >= rv or w == "delete") and tt <= t + bound for tt, w, k, x in hd.told):
                    later = [e for e in self.api.hist[self.plural] if e[0] > rv and apisrv.key_of(e[2]) == key and e[3] <= r["done"]]
                    if not later:
                        sim.fail("C12", "late", f"handler {hd.j} was not told about {typ} {key}@{rv} within {bound:.1f} s while another handler was slow, stuck or failing")
                        return

    def check_resync(self):
        sim, c = self.sim, self.cfg
        if any(f["f"] == "clock" for f in self.plan["faults"]):
            return
        check = c["resync"]
        if self.kind == "shared":
            if check:
                for hd in self.handlers:
                    p = c["resync"] if hd.spec["p"] is None else hd.spec["p"]
                    if not hd.late and p:
                        check = min(check, max(p, 1))
        lists = [r for r in self.api.log if r["op"] == "list" and r["out"] == "ok"]
        for hd in self.handlers:
            if "block" in hd.spec or hd.spec.get("raise") or not hd.registered:
                continue
            if isinstance(hd.spec.get("delay"), float) and hd.spec["delay"] > 0.1:
                continue
            p = c["resync"] if hd.spec["p"] is None else hd.spec["p"]
            if self.kind == "shared":
                p = max(p, 1) if p and c["resync"] else 0
                if p and (p < check):
                    p = check
            self.check_resync_of(hd, p, check if self.kind == "shared" else 0.0, lists)

    def check_resync_of(self, hd, p, check, lists):
        sim = self.sim
        cur, per = {}, {}
        for t, what, key, rv in hd.told:
            if what == "update" and cur.get(key) == rv:
                per.setdefault(key, []).append((t, "sync"))
            elif what == "delete":
                per.setdefault(key, []).append((t, "gone"))
            else:
                per.setdefault(key, []).append((t, "told"))
            cur[key] = None if what == "delete" else rv
        d = hd.spec.get("delay", 0)
        slack = 0.6 + (d * (4 * self.cfg["n"] + len(self.api.hist[self.plural])) if isinstance(d, float) else 0)
        if self.kind == "simple":
            slack += 0.5
        end = sim.now
        often = slack if self.kind == "simple" or d else 0.1
        for key, ev in per.items():
            last = None
            for t, what in ev:
                if what == "sync":
                    near = any(r["t"] - 0.2 <= t <= r["done"] + 3.0 + slack for r in lists[1:])
                    if not p and not near:
                        sim.fail("C15", "unasked", f"handler {hd.j} asked for no resync but was re-notified of {key} at {t:.2f}")
                        return
                    if last is not None and p and t - last < p - often - sim.stalled(last - p, t + 1):
                        if not near:
                            sim.fail("C15", "too_often", f"handler {hd.j} (period {p}) was re-notified of {key} at {last:.2f} and again at {t:.2f}")
                            return
                    if not near:
                        last = t
            if not p:
                continue
            # lateness between the first known instant and the next disturbance
            bound = p + check + slack
            for a in lists:
                self.segment(hd, key, ev, a["done"], min(end, self.trouble(a)), bound)

    def trouble(self, a):
        """When the watching that followed list a came to its end."""
        out = [1e9]
        for r in self.api.log:
            if r["t"] < a["done"]:
                continue
            if r["op"] == "list":
                out.append(r["t"] - 1.2)
                break
            if r["out"] != "ok":
                out.append(r["t"])
            elif r["stream"].how in ("exc", "error", "client") or r["stream"].n == 0:
                out.append(r["stream"].t_end or 1e9)
        return min(out) - 0.1

    def segment(self, hd, key, ev, lo, hi, bound):
        sim = self.sim
        known = False
        anchor = None
        marks = []
        for t, what in ev:
            if t <= lo:
                known = what != "gone"
                continue
            marks.append((t, what))
        start = max(lo, hd.t_reg or 0.0)
        anchor = start if known else None
        for t, what in marks + [(hi, "end")]:
            if t > hi:
                what, t = "end", hi
            if anchor is not None and what in ("sync", "end", "gone"):
                # a stall may let the next check begin before this resync was handed out: one period is lost
                lost = sim.stalled(anchor - 1, t)
                if t - anchor > bound + lost + (bound if lost else 0):
                    sim.fail("C15", "late", f"handler {hd.j} was not re-notified of {key} between {anchor:.2f} and {t:.2f} (bound {bound:.2f})")
                    return
            if what == "end":
                return
            if what == "sync":
                anchor = t
            elif what == "gone":
                anchor = None
            elif anchor is None or self.kind == "simple":  # a pending change stands for the resync
                anchor = max(t, start)

    async def check_index(self):
        sim = self.sim
        cached = {ident(o)[0]: o for o in self.store.list()}
        if sorted(self.store.list_keys()) != sorted(cached):
            sim.fail("C09", "keys", f"the keys {sorted(self.store.list_keys())} are listed, the cache holds {sorted(cached)}")
        for key, o in cached.items():
            if self.store.get_by_key(key) is not o:
                sim.fail("C09", "keys", f"{key} is cached and not found under its key")
                break
        for ns in NS + (None,):
            got = sorted(ident(o)[0] for o in await self.store.by_index(index.NAMESPACE_INDEX, ns))
            want = sorted(k for k in self.view() if (k.split("/")[0] if "/" in k else None) == ns)
            if got != want:
                sim.fail("C09", "namespace_index", f"index of namespace {ns!r} gives {got}, the cache holds {want}")
        if self.own_index:
            by = {}
            for o in self.store.list():
                for v in payloads(o):
                    by.setdefault(v, []).append(ident(o)[0])
            for v in sorted(by) + ["none"]:
                got = sorted(ident(o)[0] for o in await self.store.by_index("payload", v))
                if got != sorted(by.get(v, [])):
                    sim.fail("C09", "payload_index", f"index value {v!r} gives {got}, the cache holds {sorted(by.get(v, []))}")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C10")
    sim.stats["requests"] = len(h.api.log)
    sim.stats["streams"] = len(h.api.streams)
    sim.stats["notifications"] = sum(hd.calls for hd in h.handlers)
    return sim
