"""Whole managers and controllers over the HTTP API server (C15 jitter, C16 to C20)."""
import asyncio

from dst import apisrv
from dst.core import Sim, crash_text
from dst.scen import informer as inf_

from aiok8s.cache import shared_informer  # noqa: E402
from aiok8s.controller import builder, cache as cache_mod, client as client_mod, controller as controller_mod  # noqa: E402
from aiok8s.controller import handler as handler_mod, manager as manager_mod, reconcile, source  # noqa: E402
from aiok8s.runtime import schema  # noqa: E402
from kubernetes_asyncio.client import api as k8s_api, exceptions, models  # noqa: E402

NONTRIVIAL = "a reconcile was running when the server changed, or was retried"
REAL = ["aiok8s.controller (manager, cache, informers map, controller, source, handler, client, builder)", "aiok8s.cache", "aiok8s.workqueue",
        "aiok8s.util", "kubernetes_asyncio client and Watch"]
STUB = ["API server", "aiohttp.ClientSession", "event loop clock and timers", "wall clock", "user reconcilers and predicates",
        "client classes of Secret and Node (declared the way the library declares Pod)"]
SHRINK = ["ops", "faults", "reads"]

TYPES = {"pods": models.V1Pod, "secrets": models.V1Secret, "nodes": models.V1Node}
BASE, CAP, QPS, BURST = 0.005, 1000.0, 10.0, 100
EPS = 0.02
NS = "ns0", "default"


def _declare(plural, kind, lister, all_lister):
    gvk_ = schema.GroupVersionKind("", "v1", kind)
    if gvk_ in client_mod._GVK_TO_CLIENT_CLS:
        return

    class Client(client_mod._Client):
        gvk = gvk_
        object_type = TYPES[plural]
        api_cls = k8s_api.CoreV1Api

        def _get_lister(self, namespace):
            return getattr(self._api_client, lister if namespace and lister else all_lister)


KNOWN = ["pods"]  # the library declares Pod only; others are declared in the same way, if that is still the way
if hasattr(client_mod, "_Client") and hasattr(client_mod, "_GVK_TO_CLIENT_CLS") and hasattr(client_mod._Client, "_get_watcher"):
    _declare("secrets", "Secret", "list_namespaced_secret", "list_secret_for_all_namespaces")
    _declare("nodes", "Node", None, "list_node")
    KNOWN += ["secrets", "nodes"]


_periods = []  # the resync periods the cache asks informers for
_made = []  # (type, informer) that the cache made


def _observe(f):
    def new(lister_watcher, obj, resync, *a, **kw):
        if isinstance(resync, (int, float)):
            _periods.append(resync)
        i = f(lister_watcher, obj, resync, *a, **kw)
        _made.append((obj, i))
        return i

    return new


shared_informer.new_shared_index_informer = _observe(shared_informer.new_shared_index_informer)


# ---------------------------------------------------------------------------------- plans
def gen(rng, tier, focus):
    ns = "ns0" if rng.random() < 0.15 else None
    plurals = [x for x in (["pods", "secrets"] if ns else ["pods", "secrets", "nodes"]) if x in KNOWN]
    horizon = rng.choice([0.5, 3, 15, 60])
    n = rng.choice([1, 2, 4, 8]) if rng.random() < 0.98 else rng.choice([30, 60])
    cfg = {"ns": ns, "n": n, "n0": rng.randint(0, n), "lat": rng.choice([0, 0, 0.01, 0.3]), "evlat": rng.choice([0, 0, 0.01]),
           "max_watch": rng.choice([None, None, 2, 20])}
    cfg["resync"] = None
    if n <= 8 and (focus == "C15" or rng.random() < 0.15):
        cfg["resync"] = rng.choice([4, 12, 40, 100])
    if focus == "C20" and rng.random() < 0.5:
        cfg["lat"] = rng.choice([0.3, 2])
    used = rng.sample(plurals, min(len(plurals), rng.choice([1, 1, 2])))
    ctrls = []
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if focus != "C18" else rng.choice([1, 1, 2])):
        c = {"k": sorted(rng.sample(used, rng.randint(1, len(used)))), "max": rng.choice([1, 1, 2, 3, 5] if focus != "C18" else [1, 2, 2, 3, 5]),
             "pred": rng.choice([None, None, "even", "rv"]), "built": False}
        if rng.random() < 0.12:
            c["pred"] = rng.choice(["nocreate", "noupdate", "nodelete"])
        if c["max"] == 1 and len(c["k"]) == 1 and not c["pred"] and rng.random() < 0.5:
            c["built"] = True
        r = {}
        if focus == "C19" or rng.random() < 0.5:
            r["raise"] = rng.choice([0, 0.1, 0.5, 0.9])
            r["req"] = rng.choice([0, 0, 0.2, 0.5])
            r["after"] = rng.choice([0, 0, 0.2, 0.5])
        r["quota"] = rng.choice([1, 3, 8, 14, 22 if focus == "C19" else 8]) if not cfg["resync"] else rng.choice([1, 3, 8])
        r["dur"] = rng.choice([0, 0, 3, 12, 0.02, 0.5]) if focus != "C18" else rng.choice([3, 12, 0.02, 0.5, 2.0])
        if rng.random() < 0.4:
            r["clean"] = rng.choice([1, 5, 0.3, 2.0])
        c["rec"] = r
        ctrls.append(c)
    cfg["ctrls"] = ctrls
    ops = []
    t = 0.0
    burst = rng.random() < 0.5
    for _ in range(rng.choice([0, 3, 8, 16, 40])):
        if not burst or rng.random() < 0.3:
            t = round(rng.random() * horizon, 4)
        o = {"t": t, "k": rng.choice(used if rng.random() < 0.9 else plurals), "i": rng.randrange(n),
             "o": rng.choices(["put", "del", "re", "compact"], [10, 5, 2, 1])[0]}
        if rng.random() < 0.3:
            o["p"] = rng.randint(1, 6)
        ops.append(o)
    while rng.random() < 0.2:  # many changes at once
        t = round(rng.random() * horizon, 4)
        of = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))]
        for _ in range(rng.choice([4, 10, 25])):
            ops.append({"t": t, "k": rng.choice(used), "i": rng.choice(of), "o": rng.choice(["put", "put", "del", "re"]), "b": 1})
    ops.sort(key=lambda o: o["t"])
    if rng.random() < 0.5:  # changes at a chosen moment of the client's own work
        for _ in range(rng.choice([1, 2, 5])):
            ops.append({"t": horizon, "k": rng.choice(used), "i": rng.randrange(n), "o": rng.choice(["put", "put", "del", "re"]),
                        "at": [rng.choice(["listed", "rec", "rec", "res", "res", "open", "end", "cached", "synced"]), rng.choice([1, 2, 2, 3, 4, 6, 9]), rng.randint(0, 12)]})
    heal = 0.0
    faults = []
    if rng.random() < 0.6:
        heal = round(horizon * (0.6 + 0.6 * rng.random()), 3)
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            f = inf_.gen_fault(rng, "C10", "http", horizon)
            f["k"] = rng.choice(used if rng.random() < 0.9 else plurals)
            faults.append(f)
        if rng.random() < 0.4:
            faults.append({"f": "outage", "t": round(rng.random() * horizon, 3), "d": round(rng.choice([0.1, 3, 30]) * rng.random(), 3),
                           "how": rng.choice(["refuse", "hang"])})
        if len(plurals) > 1 and rng.random() < (0.35 if focus == "C20" else 0.1):  # one kind cannot be read for a while, the others can
            faults.append({"f": "outage", "k": rng.choice(plurals), "t": rng.choice([0.0, 0.0, round(rng.random() * horizon, 3)]),
                           "d": round(rng.choice([3, 30, 100]) * rng.random(), 3), "how": rng.choice(["refuse", "hang"])})
        if rng.random() < 0.15:
            cfg["stall"] = {"p": 0.02, "max": rng.choice([0.1, 1.0]), "n": 5}
    cfg["heal"] = heal
    cfg["start"] = [0.0, 0] if rng.random() < 0.6 else [round(rng.random() * horizon * 0.5, 3), rng.randint(0, 3)]
    cfg["end"] = round(max([heal, horizon * rng.choice([0, 0.3, 1]), cfg["start"][0]] + [o["t"] for o in ops]), 3)
    if cfg["resync"] and focus == "C15":
        cfg["end"] = max(cfg["end"], cfg["resync"] * 6)
    while cfg["max_watch"] and cfg["end"] / cfg["max_watch"] > 60:
        cfg["max_watch"] *= 4
    reads = []
    for _ in range(rng.choice([0, 1, 3, 8]) if focus == "C20" else rng.choice([0, 0, 1, 3])):
        at = inf_.gen_instant(rng, ops, max(cfg["end"], 0.5), cfg["end"])
        reads.append({"at": at, "k": rng.choice(plurals), "i": rng.randrange(n), "o": rng.choice(["get", "get", "get", "informer"])})
    if focus == "C16" or rng.random() < 0.12:
        cfg["stop"] = inf_.gen_instant(rng, ops, max(cfg["end"], 1), cfg["end"])
        if rng.random() < 0.2:
            cfg["exit"] = rng.randrange(1000)  # the program ends: every task is cancelled at once
        elif rng.random() < 0.2:
            cfg["again"] = rng.choice([0, 1, 2, 3, 5, 8, 0.001, 0.5])  # cancelled a second time
        if rng.random() < 0.3:
            cfg["asked"] = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 12, 0.001, 0.2])
        if cfg["stop"][0] == "told":
            cfg["stop"][0] = "rec"
    for c in ctrls:
        if rng.random() < 0.12:
            c["rec"]["dur"] = rng.choice([45.0, 45.0, 400.0])
            if c["rec"]["dur"] > 100:
                c["rec"]["quota"] = min(c["rec"]["quota"], 3)
        if not c["built"] and not c["pred"] and rng.random() < 0.3:
            c["pred"] = "split"
    cfg["spies"] = rng.choice([0, 0, 0, 3, 15]) if not cfg["resync"] else 0
    if cfg["resync"]:
        for c in ctrls:
            if isinstance(c["rec"]["dur"], float):
                c["rec"]["dur"] = min(c["rec"]["dur"], 2.0)
    for c in ctrls:
        if c["pred"] == "even" and rng.random() < 0.5:
            c["pred2"] = rng.choice(["before", "after"])
        if not c["built"] and rng.random() < 0.1:
            c["junk"] = True
        if rng.random() < 0.15:
            c["rec"]["none"] = 0.1
    if rng.random() < (0.3 if focus == "C16" else 0.1):
        cfg["extra"] = {"k": rng.choice(["forever", "returns"] + ["fails"] * 2 * (focus == "C16" and "stop" in cfg)), "clean": rng.choice([0, 2, 0.3])}
    if rng.random() < (0.3 if focus == "C16" else 0.05) and not cfg["resync"]:
        cfg["slow"] = rng.choice([0.01, 0.5, 3.0])
    if n > 8:
        cfg["spies"] = 0
        for c in ctrls:
            c["rec"]["quota"] = min(c["rec"]["quota"], 2)
            if isinstance(c["rec"]["dur"], float):
                c["rec"]["dur"] = min(c["rec"]["dur"], 2.0)
    for c in ctrls:  # watches that are added later, often while the controller runs
        if not c["built"] and rng.random() < (0.3 if focus == "C17" else 0.08):
            if rng.random() < 0.3:
                c["k"] = sorted({*c["k"], rng.choice(plurals)})
            c["late"] = {k: inf_.gen_instant(rng, ops, max(cfg["end"], 0.5), cfg["end"]) for k in c["k"] if rng.random() < 0.6}
    open_ = [c for c in ctrls if not c["built"]]
    other = [x for x in plurals if x not in {k for c in ctrls for k in c["k"]}]
    if open_ and other and heal and rng.random() < (0.15 if focus == "C17" else 0.03):
        # controllers that are starting wait for a kind that was asked for meanwhile; watches are added then
        z, c = rng.choice(other), rng.choice(open_)
        t, d = cfg["start"][0], rng.choice([2, 10])
        heal = cfg["heal"] = round(max(heal, t + d), 3)
        cfg["end"] = max(cfg["end"], heal)
        cfg["lat"] = cfg["lat"] or 0.3
        faults.append({"f": "outage", "k": z, "t": 0.0, "d": round(t + d, 3), "how": rng.choice(["refuse", "hang"])})
        reads.append({"at": [round(t + rng.choice([0.0, 0.01, 0.05]), 3), rng.randint(0, 3)], "k": z, "i": 0, "o": "informer"})
        k = rng.choice(c["k"])
        if len(c["k"]) == 1 and rng.random() < 0.5:
            c["k"] = sorted({*c["k"], rng.choice([x for x in plurals if x != z])})
        c.setdefault("late", {})[k] = [round(t + 0.3 + rng.random() * d, 3), rng.randint(0, 3)]
    if rng.random() < 0.3:  # changes and reads once everything has settled, perhaps after a long calm
        cfg["coda"] = [rng.choice([0, 0, 30, 70] + ([700, 4000] if not cfg["resync"] else [])),
                       [{"k": rng.choice(used), "i": rng.randrange(n), "o": rng.choice(["put", "put", "put", "del", "re"])} for _ in range(rng.choice([1, 1, 2, 5]))],
                       [{"at": [0.0, rng.randint(0, 3)], "k": rng.choice(plurals), "i": rng.randrange(n), "o": rng.choice(["get", "get", "informer"])}
                        for _ in range(rng.choice([0, 0, 1, 3]))]]
    cfg["rv0"] = rng.choice([100, 1, 7, 93, 9990, 10 ** 15])
    cfg["gone"] = rng.choice(["mix", "event", "http"])
    return {"cfg": cfg, "ops": ops, "faults": faults, "reads": reads}


def simpler(plan):
    c = plan["cfg"]
    for k in range(len(c["ctrls"])):
        if len(c["ctrls"]) > 1:
            yield lambda p, k=k: p["cfg"]["ctrls"].pop(k)
        for f in ("junk", "pred2", "late"):
            if c["ctrls"][k].get(f):
                yield lambda p, k=k, f=f: p["cfg"]["ctrls"][k].pop(f)
        for f in ("raise", "req", "after", "dur", "none"):
            if c["ctrls"][k]["rec"].get(f):
                yield lambda p, k=k, f=f: p["cfg"]["ctrls"][k]["rec"].__setitem__(f, 0)
        if c["ctrls"][k]["pred"]:
            yield lambda p, k=k: p["cfg"]["ctrls"][k].__setitem__("pred", None)
    for f, v in (("lat", 0), ("evlat", 0), ("max_watch", None), ("stall", None), ("resync", None), ("ns", None), ("n0", 0), ("start", [0.0, 0]), ("rv0", 100), ("gone", "mix"), ("spies", 0), ("extra", None), ("slow", 0), ("coda", None)):
        if f in c and c[f] != v:
            yield lambda p, f=f, v=v: p["cfg"].__setitem__(f, v)
    for k, o in enumerate(plan["ops"]):
        if "p" in o:
            yield lambda p, k=k: p["ops"][k].pop("p")


# ---------------------------------------------------------------------------------- user code
class Failed(Exception):
    """What a failing reconciler raises."""


class EvenOnly:
    """A predicate of a watch that has several."""

    def __init__(self, c):
        self.c = c

    def _even(self, m):
        return int(m.name[-1]) % 2 == 0

    def create(self, e):
        return self._even(e.meta)

    def update(self, e):
        return self._even(e.meta_new)

    def delete(self, e):
        return self._even(e.meta)


class JunkHandler(handler_mod.EnqueueRequestForObject):
    """Also queues something that is no request, which the controller has to get over."""

    def __init__(self, c):
        self.c = c

    async def create(self, e, queue):
        self.c.junked += 1
        await queue.add(("junk", e.meta.name))
        await super().create(e, queue)

    async def delete(self, e, queue):
        await super().delete(e, queue)
        self.c.junked += 1
        await queue.add(("junk", e.meta.name))


class Runnable:
    """Something else the manager runs."""

    def __init__(self, h):
        self.h = h

    async def start(self):
        h, x = self.h, self.h.cfg["extra"]
        h.sim.event("runnable")
        for p in h.first_kinds:
            h.check_synced(p, "a runnable of the manager")
        if h.finished is not None:
            h.sim.fail("C16", "reconcile_after_stop", "a runnable is started after the manager had stopped")
        h.runnables += 1
        try:
            if x["k"] == "returns":
                return await h.sim.pause(3)
            if x["k"] == "fails":
                await h.breaks.wait()
                h.sim.event("runnable fails")
                raise Failed("runnable failed")
            await h.sim.loop.create_future()
        except asyncio.CancelledError:
            await h.sim.pause(x["clean"])
            raise
        finally:
            h.runnables -= 1


FAILURES = [Failed, Failed, asyncio.TimeoutError, KeyError, lambda m: exceptions.ApiException(status=409), OSError, AssertionError, StopAsyncIteration]


class Predicate:
    """Records what it is shown and filters by name or version."""

    def __init__(self, c, parity=None):
        self.c = c
        self.parity = parity

    def _see(self, what, m, sync=False):
        c = self.c
        key = f"{m.namespace}/{m.name}" if m.namespace else m.name
        c.h.sim.event("event", c.j, what, key, m.resource_version)
        if self.parity in (None, int(key[-1]) % 2):
            c.seen.setdefault(key, []).append((c.h.sim.now, "sync" if sync else "gone" if what == "delete" else "told"))
        c.shown.add(key)
        if sync and c.spec["pred"] == "rv" or not c.passes(key, what) or self.parity is not None and int(key[-1]) % 2 != self.parity:
            return False
        c.events[key] = c.h.sim.now
        return True

    def create(self, e):
        return self._see("create", e.meta)

    def update(self, e):
        same = e.meta_old.resource_version == e.meta_new.resource_version
        return self._see("update", e.meta_new, same)

    def delete(self, e):
        return self._see("delete", e.meta)


class Ctrl:
    """The reconciler of one controller, and what is known about its requests."""

    ctl = None

    def __init__(self, h, j, spec):
        self.h, self.sim, self.j, self.spec = h, h.sim, j, spec
        self.max = spec["max"]
        self.running = {}  # key -> start
        self.paused = []  # when workers began to pause after failures
        self.events = {}  # key -> time of the last event let through
        self.pend = {}  # key -> (since, why)
        self.due = {}  # key -> (low, high, required)
        self.fails = {}
        self.vague = set()
        self.junked = 0  # a worker may pause after each of these
        self.runs = {}
        self.bad = {}
        self.last = {}  # key -> (start, seen version)
        self.tokens, self.filled = float(BURST), None
        self.free_since = None
        self.peak = 0
        self.cache = None
        self.armed = False
        self.watched = {k for k in spec["k"] if k not in spec.get("late", {})}
        self.seen = {}  # key -> [(time, told, sync or gone)]
        self.shown = set()  # keys its predicates have been asked about
        self.starts = {}  # key -> [(time, sync or gone)]

    def inject_cache(self, c):
        self.cache = c

    def passes(self, key, what=None):
        pred = self.spec["pred"]
        return pred != "no" + str(what) and (pred != "even" or int(key[-1]) % 2 == 0)

    def picky(self):
        """Its predicates reject all events of one sort."""
        return str(self.spec["pred"]).startswith("no")

    def watches(self, plural):
        return plural in self.spec["k"]

    # -- the reference
    def changed(self, plural, key, old, rv, t):
        if plural not in self.watched and key not in self.events:
            return
        if self.picky():
            what = "create" if old is None else "delete" if rv is None else "update"
            if what == "delete" and key not in self.shown:
                self.pend.pop(key, None)
            elif self.passes(key, what) and (what == "create" or key in self.shown):
                self.pend.setdefault(key, (t, "change"))
            return
        known = key in self.last or self.armed if self.spec["built"] else key in self.events
        if rv is None and not known:
            self.pend.pop(key, None)  # gone before the controller could know of it
        elif self.passes(key):
            self.pend.setdefault(key, (t, "change"))

    def tick(self):
        now = self.sim.now
        for key, (low, high, req) in list(self.due.items()):
            if req and now >= high and key not in self.pend:
                self.pend[key] = (high, "retry")
        self.paused = [t for t in self.paused if t + 1.1 + self.sim.stalled(t, now) > now]
        waiting = [(s, why, k) for k, (s, why) in self.pend.items() if k not in self.running]
        if not waiting or not self.armed or len(self.running) + len(self.paused) >= self.max:
            self.free_since = None
            return
        if self.free_since is None:
            self.free_since = now
            return
        s, why, key = min(waiting)
        a = max(s, self.free_since)
        # a stall while a delay is being set up makes that delay longer
        if now - a > 0.6 + 1.1 * self.junked + self.sim.stalled(a - 0.1 if why == "change" else 0.0, now):
            sim = self.sim
            msg = (f"controller {self.j}: {key} has been due for a reconcile ({why}) for {now - s:.2f} s while only "
                   f"{len(self.running)} of {self.max} workers were busy")
            sim.fail("C17" if why == "change" else "C19", "late", msg)
            if self.running:
                sim.fail("C18", "serialised", msg)
            self.pend.pop(key)
            self.due.pop(key, None)

    def retry(self, key, delay, limited):
        if key in self.vague:
            return
        now = self.sim.now
        high = now + delay
        if limited:
            if self.filled is not None:
                self.tokens = min(float(BURST), self.tokens + (now - self.filled) * QPS)
            self.filled = now
            self.tokens -= 1
            if self.tokens < 0:
                high = max(high, now - self.tokens / QPS)
        new = (now + delay, high, True)
        old = self.due.get(key)
        if old is not None:
            if old[0] <= now + EPS:  # fired while the reconcile ran
                self.events[key] = now
            if old[1] < now - EPS and old[2]:
                self.pend.setdefault(key, (now, "retry"))
            if abs(old[0] - now) < EPS or abs(old[1] - now) < EPS or old[0] <= now and self.sim.stalled(old[0] - EPS, now):
                new = (min(old[0], new[0]), new[1], False)
            elif old[0] <= new[0] and old[1] > now:
                new = (old[0], max(old[1], new[1]), old[2])
        self.due[key] = new

    async def reconcile(self, request):
        h, sim = self.h, self.sim
        nn = request.namespaced_name
        key = f"{nn.namespace}/{nn.name}" if nn.namespace else nn.name
        h.iteration()
        t = sim.now
        sim.event("rec", self.j, key)
        n = self.runs[key] = self.runs.get(key, 0) + 1
        if h.finished is not None:
            sim.fail("C16", "reconcile_after_stop", f"controller {self.j} reconciles {key} after the manager had stopped")
        plural = h.plural_of(key)
        if not any((p, key) in h.api.versions for p in self.spec["k"]) or not self.passes(key):
            sim.fail("C17", "bogus_request", f"controller {self.j} is asked to reconcile {key}, which "
                     + ("its predicates reject" if not self.passes(key) else "never existed"))
        if self.picky() and key not in self.events:
            sim.fail("C17", "bogus_request", f"controller {self.j} is asked to reconcile {key}, every event of which its predicates rejected")
        for p in h.want_synced:
            h.check_synced(p, self.j)
        if key in self.running:
            sim.fail("C18", "overlap", f"controller {self.j} reconciles {key} while a reconcile of it is running")
        if len(self.running) >= self.max:
            sim.fail("C18", "too_many", f"controller {self.j} runs {len(self.running) + 1} reconciles, configured for {self.max}")
        due = self.due.get(key)
        last = self.last.get(key)
        if due is not None:
            ev = self.events.get(key, -1.0)
            if t < due[0] - 1e-3 and last is not None and ev < last[0] - 0.05 - sim.stalled(ev - EPS, t):
                sim.fail("C19", "early", f"controller {self.j} reconciles {key} at {t:.3f}, before its retry is due at {due[0]:.3f}, without any event")
            if abs(due[0] - t) < EPS or due[0] <= t < due[1] + EPS or due[0] <= t and sim.stalled(due[0] - EPS, t):
                self.due[key] = (due[0], due[1], False)  # it may or may not have fired before this start
            elif due[0] <= t:
                del self.due[key]
        self.pend.pop(key, None)
        seen = h.state.get(plural, {}).get(key)
        self.last[key] = (t, seen)
        self.starts.setdefault(key, []).append((t, "gone" if seen is None else "sync"))
        self.running[key] = t
        self.peak = max(self.peak, len(self.running))
        rng = sim.rng(f"rec/{self.j}/{key}/{n}")
        r = self.spec["rec"]
        try:
            if rng.random() < 0.5:
                await h.read(self.cache, plural, key)
            d = r["dur"]
            if d:
                before = h.api.rv
                await sim.pause(rng.randint(0, d) if isinstance(d, int) else rng.random() * d)
                if h.api.rv != before:
                    sim.nontrivial = True
            x = rng.random()
            kind = "ok"
            if self.bad.get(key, 0) < r["quota"]:
                for k in ("raise", "req", "after", "none"):
                    if x < r.get(k, 0):
                        kind = k
                        break
                    x -= r.get(k, 0)
            if kind != "ok":
                sim.nontrivial = True
                self.bad[key] = self.bad.get(key, 0) + 1
        except asyncio.CancelledError:
            if r.get("clean"):
                sim.event("cleanup", self.j, key)
                await sim.pause(r["clean"])
            raise
        finally:
            self.running.pop(key, None)
        t = sim.now
        sim.event("res", self.j, key, kind)
        if kind in ("raise", "req"):
            f = self.fails.get(key, 0)
            self.fails[key] = f + 1
            self.retry(key, min(BASE * 2.0 ** min(f, 60), CAP), True)
            if kind == "raise":
                self.paused.append(t)
                sim.fault("reconcile_raises")
                raise FAILURES[rng.randrange(len(FAILURES))]("reconcile failed")
            sim.fault("reconcile_requeues")
            return reconcile.Result(requeue=True)
        if kind == "none":  # not an answer: whether it counts as a failure is open, but the controller goes on
            self.paused.append(t)
            self.vague.add(key)
            self.due.pop(key, None)
            return None
        self.fails.pop(key, None)
        if kind == "after":
            d = rng.choice([0.001, 0.03, 0.5, 3.0, 20.0])
            self.retry(key, d, False)
            sim.fault("reconcile_requeues_after")
            return reconcile.Result(requeue_after=d, requeue=rng.random() < 0.2)
        return reconcile.Result()


# ---------------------------------------------------------------------------------- harness
class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.mine = set()
        self.finished = None
        self.stop_at = None
        self.started_at = None
        self.informers = {}  # plural -> informer
        self.want_synced = []
        self.state = {}  # plural -> key -> version
        self.raws = {}
        self.data = 0
        self.sync_seen = {}
        self.late = []  # watches that are added later
        self.told = []  # (t, key, rv) same-version updates seen by the resync recorder

    calls = ()  # tasks in which the user calls the code under test

    def own(self, coro):
        t = self.sim.helper(coro)
        self.mine.add(t)
        return t

    def name(self, plural, i):
        return f"{plural[0]}{i // 2}"

    def raw(self, plural, i):
        self.data += 1
        return self.api.raw(plural, NS[i % 2], self.name(plural, i), self.data)

    def key(self, plural, i):
        return apisrv.key_of(self.api.raw(plural, NS[i % 2], self.name(plural, i), 0))

    def plural_of(self, key):
        return {"p": "pods", "s": "secrets", "n": "nodes"}[key.split("/")[-1][0]]

    def mine_only(self, key):
        return not self.cfg["ns"] or key.startswith(self.cfg["ns"] + "/")

    def server(self, plural):
        return {k: o["metadata"]["resourceVersion"] for k, o in self.api.objs[plural].items() if self.mine_only(k)}

    # -- invariants while the run proceeds
    def on_open(self, s):
        if any(x is not s and x.plural == s.plural and x.held() for x in self.api.streams):
            self.sim.fail("C14", "two_streams", f"a watch of {s.plural} was opened while an earlier one was not closed")

    def iteration(self):
        now = self.sim.now
        for typ, i in _made:
            self.informers.setdefault(next(p for p in TYPES if TYPES[p] is typ), i)
        for plural, i in list(self.informers.items()):
            objs = i.get_indexer().list()
            old = self.raws.get(plural)
            if old is not None and len(objs) == len(old) and all(a is b for a, b in zip(objs, old)):
                continue
            self.raws[plural] = list(objs)
            st = {}
            for o in objs:
                key, uid, rv, _ = inf_.ident(o)
                st[key] = rv
            was = self.state.get(plural, {})
            self.state[plural] = st
            for key in sorted(set(st) | set(was)):
                if st.get(key) != was.get(key):
                    self.sim.event("cached", plural, key, st.get(key))
                    for c in self.ctrls:
                        if c.watches(plural):
                            c.changed(plural, key, was.get(key), st.get(key), now)
        if self.started_at is not None and self.stop_at is None:
            if not all(self.all_synced(p) for p in self.want_synced) or self.asking:
                self.synced_at = None  # controllers wait for informers that are requested while they start, too
            else:
                if self.synced_at is None:
                    self.synced_at = now
                    self.sim.event("synced")
                if now > self.synced_at + 0.7 + self.sim.stalled(self.synced_at, now):
                    for c in self.ctrls:
                        c.armed = True
            for c in self.ctrls:
                c.tick()

    synced_at = None

    def all_synced(self, plural):
        return self.informers[plural].has_synced()

    def first_list(self, plural):
        for r in self.api.log:
            if r["op"] == "list" and r["k"] == plural and r["out"] == "ok":
                return r
        return None

    def check_synced(self, plural, who):
        if self.sync_seen.get(plural):
            return
        r = self.first_list(plural)
        if r is None:
            self.sim.fail("C20", "unsynced", f"{who} runs before the first list of {plural} succeeded")
            return
        have = {}
        for o in self.informers[plural].get_indexer().list():
            k = inf_.ident(o)
            have[k[0]] = k[2]
        if any(x["op"] == "list" and x["k"] == plural and x.get("stale") for x in self.api.log):
            self.sync_seen[plural] = True
            return
        for key, rv in r["items"].items():
            if key in have and int(have[key]) >= int(rv):
                continue
            if key not in have and any(e[0] > int(rv) and e[1] == "DELETED" and apisrv.key_of(e[2]) == key for e in self.api.hist[plural]):
                continue
            self.sim.fail("C20", "unsynced", f"{who} runs although {key}@{rv} of the first list is not in the cache yet")
            return
        self.sync_seen[plural] = True

    # -- reading
    async def read(self, cache, plural, key, must=True):
        """cache.get, compared with the cache at the moment it answers."""
        sim = self.sim
        ns, _, name = key.rpartition("/")
        nn = reconcile.NamespacedName(namespace=ns or [None, ""][self.api.rv % 2], name=name)
        t = sim.now
        before = self.started_at
        try:
            obj = await cache.get(nn, TYPES[plural])
        except KeyError:
            obj = None
        except cache_mod.CacheNotStartedError:
            if before is not None and t > before + 1.0 + sim.stalled(before, t):
                sim.fail("C20", "refused", f"a read of {key} was refused {t - before:.1f} s after the manager was started")
            sim.probe("read_refused")
            return True
        steps = sim.loop.steps
        if self.started_at is None:
            sim.fail("C20", "unstarted_read", f"reading {key} was answered although the cache was not started")
            return
        if self.stop_at is not None:
            return
        i = self.informers.get(plural)
        if i is None:
            i = await self.get_informer(cache, plural)
        if i is None or sim.loop.steps != steps:
            return
        have = i.get_indexer().get_by_key(key)
        if have is not obj:
            sim.fail("C20", "wrong_answer", f"reading {key} gave {obj and inf_.ident(obj)}, the cache holds {have and inf_.ident(have)}")
        self.check_synced(plural, "a reader")
        if obj is not None and (inf_.ident(obj)[0] != key or self.api.versions[plural, key].get(inf_.ident(obj)[2]) is None):
            sim.fail("C20", "wrong_answer", f"reading {key} gave {inf_.ident(obj)}")

    async def get_informer(self, cache, plural):
        i = await cache.get_informer(TYPES[plural])
        if i is None:
            self.sim.fail("C20", "no_informer", f"get_informer answered None for {plural}")
            raise Failed("no informer")
        have = self.informers.setdefault(plural, i)
        if have is not i:
            self.sim.fail("C20", "two_informers", f"two informers for {plural}")
        return i

    async def reader(self, r):
        sim = self.sim
        await sim.instant(r["at"])
        if self.stop_at is not None:
            return
        plural = r["k"] if not (self.cfg["ns"] and r["k"] == "nodes") else "pods"
        key = self.key(plural, r["i"])
        if not self.mine_only(key):
            return
        cache = self.manager.get_cache()
        t0 = sim.now
        unstarted = self.started_at is None

        async def do():
            refused = r["o"] == "get" and await self.read(cache, plural, key)
            if r["o"] == "informer" or unstarted or refused:
                await self.get_informer(cache, plural)
                if plural not in self.want_synced and (self.started_at is None or not self.all_synced(plural)):
                    self.want_synced.append(plural)

        sim.event("read", r["o"], key)
        self.asking += 1
        try:
            task = self.own(do())
            self.calls += (task,)
            await self.ask(r, key, t0, unstarted, task)
        finally:
            self.asking -= 1

    asking = 0
    runnables = handling = 0

    async def ask(self, r, key, t0, unstarted, task):
        sim = self.sim
        soon = None  # kinds that are synced are answered for at once, whatever the others do
        if not unstarted and r["o"] != "watch" and r["k"] in self.informers and self.all_synced(r["k"]):
            soon = t0 + 0.3
        since = None  # a kind that is synced while it is waited for is answered for soon after, too
        while not task.done():
            first = self.first_list(r["k"])
            if soon is None and r["o"] != "watch" and self.started_at is not None and r["k"] in self.informers and self.all_synced(r["k"]):
                if since is None:
                    since = sim.now
                elif sim.now > max(since, self.started_at) + 1.0 + sim.stalled(since, sim.now):
                    sim.fail("C20", "read_waits", f"{r['o']} of {key} at {t0:.2f} has no answer at {sim.now:.2f}, although the kind is synced since {since:.2f}")
                    break
            base = max(t0, self.cfg["heal"], self.started_at if self.started_at is not None else 1e9)
            lim = base + 12.0 + 8 * self.cfg["lat"] + sim.stalled(0, sim.now) + sum(f.get("d", 0) for f in self.plan["faults"] if f["f"] == "outage")
            if self.stop_at is not None:
                break
            if soon is not None and sim.now > soon + sim.stalled(t0, sim.now):
                sim.fail("C20", "read_waits", f"{r['o']} of {key} at {t0:.2f} has no answer at {sim.now:.2f}, although the kind had been synced before")
                break
            if sim.now > lim and (self.started_at is not None or r["o"] != "get" or unstarted):
                sim.fail("C17" if r["o"] == "watch" else "C20", "read_hangs", f"{r['o']} of {key} at {t0:.2f} has no answer at {sim.now:.2f}, first list "
                         + ("never succeeded" if first is None else f"succeeded at {first['done']:.2f}"))
                break
            await asyncio.wait([task], timeout=0.5)
        if not task.done():
            task.cancel()
            return
        if task.cancelled():
            return
        if task.exception():
            if self.stop_at is None:
                sim.fail("C17" if r["o"] == "watch" else "C20", "read_raises:" + type(task.exception()).__name__, f"{r['o']} of {key} raised {crash_text(task.exception())}")
            return
        sim.event("answered", r["o"], key)
        return True

    # -- environment
    async def drive(self):
        sim = self.sim
        anchored = [self.own(self.drive_at(o)) for o in self.plan["ops"] if "at" in o]
        for o in self.plan["ops"]:
            if "at" in o:
                continue
            if "b" not in o or o["t"] > sim.now:
                await asyncio.sleep(max(0.0, o["t"] - sim.now))
                await sim.pause(o.get("p", 0))
            self.change(o)
        for t in anchored:
            await t

    async def drive_at(self, o):
        await self.sim.instant(o["at"] + [o["t"]])
        self.change(o)

    def change(self, o):
        api = self.api
        k, i, what = o["k"], o["i"], o["o"]
        key = self.key(k, i)
        exists = key in api.objs[k]
        if what == "put":
            api.update(k, self.raw(k, i)) if exists else api.create(k, self.raw(k, i))
        elif what == "del":
            if exists:
                api.delete(k, key)
        elif what == "re":
            if exists:
                api.delete(k, key)
            api.create(k, self.raw(k, i))
        elif what == "compact":
            api.compact(k)

    async def build(self):
        c, sim = self.cfg, self.sim
        self.api = api = apisrv.ApiServer(sim, self.plan["faults"], c)
        api.on_open = self.on_open
        for p in TYPES:
            for i in range(c["n0"]):
                if self.key(p, i) not in api.objs[p]:
                    api.create(p, self.raw(p, i))
        _periods.clear()
        _made.clear()
        kw = {"namespace": c["ns"]}
        if c["resync"]:
            kw["resync"] = c["resync"]
        if c["ns"] or c["resync"]:
            self.manager = type(manager_mod.new())(cache=cache_mod.new(**kw))
        else:
            self.manager = manager_mod.new()
        cache = self.manager.get_cache()
        self.ctrls = [Ctrl(self, j, s) for j, s in enumerate(c["ctrls"])]
        for c_ in self.ctrls:
            if c_.spec["built"]:
                await builder.build_controller(self.manager, c_, api_type=TYPES[c_.spec["k"][0]])
            else:
                ctl = controller_mod.new(self.manager, reconciler=c_)
                ctl.max_concurrent_reconciles = c_.max
                c_.ctl = ctl
                for p in c_.spec["k"]:
                    if p in c_.watched:
                        await cache.get_informer(TYPES[p])
                        await self.watch(ctl, c_, p)
                    else:
                        self.late.append(self.own(self.watch_later(ctl, c_, p)))
            for p in sorted(c_.watched):
                await self.get_informer(cache, p)
                if p not in self.want_synced:
                    self.want_synced.append(p)
        for c_ in self.ctrls:
            if c_.spec["built"]:  # no predicate can be given: see the events through a handler of our own
                await self.informers[c_.spec["k"][0]].add_event_handler(Spy(c_))
        self.breaks = asyncio.Event()
        self.first_kinds = list(self.want_synced)
        if c.get("extra"):
            self.manager.add(Runnable(self))
        if c.get("slow"):
            for p in self.informers:
                await self.informers[p].add_event_handler(Slow(self))
        for p in self.informers:
            for _ in range(c.get("spies", 0)):
                await self.informers[p].add_event_handler(Passive())
        if c["resync"]:
            self.recs = {}
            for p in self.informers:
                await self.informers[p].add_event_handler(Recorder(self, p))

    async def watch(self, ctl, c_, p):
        for pred in [Predicate(c_, 0), Predicate(c_, 1)] if c_.spec["pred"] == "split" else [Predicate(c_)]:
            preds = {None: [pred], "before": [EvenOnly(c_), pred], "after": [pred, EvenOnly(c_)]}[c_.spec.get("pred2")]
            handler = JunkHandler(c_) if c_.spec.get("junk") else handler_mod.EnqueueRequestForObject()
            await ctl.watch(source.Kind(TYPES[p]), handler, *preds)

    async def watch_later(self, ctl, c_, p):
        sim = self.sim
        await sim.instant(c_.spec["late"][p])
        if self.stop_at is not None:
            return
        sim.event("watch", c_.j, p)
        t0 = sim.now
        unstarted = self.started_at is None

        async def do():
            cache = self.manager.get_cache()
            if not _made:
                await self.get_informer(cache, p)
            await self.watch(ctl, c_, p)
            while self.started_at is None:
                await asyncio.sleep(0.1)
            await self.get_informer(cache, p)

        self.asking += 1
        try:
            task = self.own(do())
            self.calls += (task,)
            if await self.ask({"k": p, "o": "watch"}, p, t0, unstarted, task) is not True:
                return
        finally:
            self.asking -= 1
        self.iteration()
        if p not in self.want_synced:
            self.want_synced.append(p)
        c_.watched.add(p)
        for key, rv in self.state.get(p, {}).items():
            last = c_.last.get(key)
            if c_.passes(key, "create") and (last is None or last[0] < t0 or last[1] != rv):
                c_.pend.setdefault(key, (sim.now, "change"))
        if not unstarted:
            sim.probe("watch_while_running")

    async def runner(self):
        await self.manager.start()

    # -- the run
    async def main(self, sim):
        c = self.cfg
        await self.build()
        sim.loop.on_iteration.append(self.iteration)
        drive = self.own(self.drive())
        self.own(self.api.break_streams())
        reads = [self.own(self.reader(r)) for r in self.plan["reads"]]
        await sim.instant(c["start"])
        sim.event("start")
        self.started_at = sim.now
        self.run_task = self.own(self.runner())
        if c.get("stop"):
            await sim.instant(c["stop"])
            await self.stop()
            return
        await asyncio.sleep(max(0.0, c["end"] - sim.now))
        api = self.api
        await drive
        if self.late:
            await asyncio.wait(self.late)
        if self.run_task.done():
            return self.died()
        t_end = sim.now
        lim = t_end + 20.0 + 8 * c["lat"] + sim.stalled(0, sim.now)

        def diverged():
            return [p for p in self.want_synced if self.state.get(p, {}) != self.server(p) or not self.all_synced(p) or not api.caught_up(p, c["ns"])]

        while sim.now < lim and diverged():
            await asyncio.sleep(0.25)
        for p in diverged():
            sim.fail("C17", "cache_diverged", f"the cache of {p} holds {self.state.get(p)}, the server {self.server(p)}, {sim.now - t_end:.0f} s after faults ended")
        self.api.max_watch = None
        if not await self.run_out(diverged, reads):
            return
        if c.get("coda"):
            rest, ops, reads = c["coda"]
            await asyncio.sleep(rest)
            sim.probe("coda")
            for o in ops:
                self.change(o)
                await asyncio.sleep(0)
            if not await self.run_out(diverged, [self.own(self.reader(r)) for r in reads]):
                return
        if c["resync"]:
            await self.check_resync()
        await self.stop()

    async def run_out(self, diverged, reads):
        """Wait until everything due has been done; then every reconciler has seen the final states."""
        c, sim = self.cfg, self.sim
        lim = sim.now + 60_000.0
        quiet = 0
        since = sim.now  # last time the caches were right
        while sim.now < lim and not self.run_task.done() and not sim.violated():
            wait = 0.5
            dues = [d[1] for x in self.ctrls for d in x.due.values() if d[2]]
            if not diverged():
                since = sim.now
            elif sim.now > since + 20.0 + 8 * c["lat"] + sim.stalled(since, sim.now):
                sim.fail("C17", "cache_diverged", f"the cache of {diverged()} does not follow the server since {since:.0f}")
            if diverged() or any(x.pend or x.running and not c["resync"] for x in self.ctrls):
                quiet = 0
            elif dues:
                quiet = 0
                wait = max(0.5, min(dues) - sim.now + 0.01)
            else:
                quiet += 1
                if quiet == 3:
                    break
            await asyncio.sleep(wait)
        if self.run_task.done():
            self.died()
            return False
        if reads:
            await asyncio.wait(reads)
        for x in self.ctrls:
            for p in x.spec["k"]:
                for key in {k for (q, k) in self.api.versions if q == p}:
                    last = x.last.get(key)
                    want = self.server(p).get(key)
                    if x.picky():
                        continue
                    if self.mine_only(key) and x.passes(key) and last is not None and last[1] != want:
                        sim.fail("C17", "unseen", f"the last reconcile of {key} by controller {x.j} saw version {last[1]}, the server is at {want}")
                    if last is None and want is not None and x.passes(key) and self.mine_only(key):
                        sim.fail("C17", "unseen", f"controller {x.j} never reconciled {key}@{want}")
        return True

    def died(self):
        e = None if self.run_task.cancelled() else self.run_task.exception()
        self.sim.fail_also(["C19", "C15", "C17", "C20"], "died", f"the manager ended by itself: {crash_text(e) if e else 'returned'}")

    async def check_resync(self):
        sim, R = self.sim, self.cfg["resync"]
        for x in _periods:
            if not 0.9 * R - 1e-6 <= x <= 1.1 * R + 1e-6:
                sim.fail("C15", "jitter", f"an informer is made with a resync period of {x}, the cache-wide setting is {R}")
        if self.cfg.get("stall"):
            return
        for c in self.ctrls:
            if c.spec["built"]:
                if not c.spec["rec"]["dur"] and not c.spec["rec"].get("raise"):
                    self.recs[c.spec["k"][0], f"the reconciler of controller {c.j}"] = c.starts
                continue
            for p in c.spec["k"]:
                self.recs[p, f"controller {c.j}"] = {k: v for k, v in c.seen.items() if self.plural_of(k) == p}
        for (p, who), rec in self.recs.items():
            lists = [r for r in self.api.log if r["op"] == "list" and r["k"] == p and r["out"] == "ok"]
            if not lists:
                continue
            if len([r for r in self.api.log if r["op"] == "list" and r["k"] == p]) > 1:
                continue  # relists start a new resync period
            end = sim.now
            for key, ev in rec.items():
                last = None
                for t, what in ev:
                    if what == "sync":
                        if "reconciler" not in who and last is not None and last[1] == "sync" and t - last[0] < 0.9 * R - 0.1:
                            sim.fail("C15", "too_often", f"{who} was told to resync {key} at {last[0]:.2f} and {t:.2f}, the cache-wide setting is {R}")
                            return
                        if last is not None and last[1] == "sync" and t - last[0] > 2.2 * R + 0.1:
                            sim.fail("C15", "late", f"{who} was told to resync {key} at {last[0]:.2f} and only then at {t:.2f}, the cache-wide setting is {R}")
                            return
                    if what == "sync" or last is None or what == "gone" or last[1] == "gone":
                        last = (t, what)
                if last is not None and last[1] != "gone" and end - last[0] > 2.2 * R + 0.1:
                    sim.fail("C15", "late", f"{who} was not told to resync {key} since {last[0]:.2f} (now {end:.2f}), the cache-wide setting is {R}")
                    return

    recs = None

    # -- stopping
    def exit(self):
        """What asyncio.run does at its end, in no particular order."""
        sim = self.sim
        sim.fault("exit")
        tasks = [t for t in sim.loop.live_tasks() if (t not in self.mine or t in self.calls or t is self.run_task) and t is not asyncio.current_task()]
        sim.rng(f"exit/{self.cfg['exit']}").shuffle(tasks)
        for t in tasks:
            t.cancel()

    async def stop(self):
        sim, c = self.sim, self.cfg
        if self.run_task.done():
            return self.died()
        self.stop_at = sim.now
        broken = (c.get("extra") or {}).get("k") == "fails" and self.runnables
        if broken:
            sim.event("break")
            self.breaks.set()
        else:
            sim.event("cancel")
            if c.get("exit") is None:
                self.run_task.cancel()
            else:
                self.exit()
        if self.cfg.get("again") is not None:
            async def again():
                await sim.pause(self.cfg["again"])
                if not self.run_task.done():
                    sim.fault("cancelled_again")
                    self.run_task.cancel()
            self.own(again())
        if self.cfg.get("asked") is not None:
            async def asked():  # someone asks for informers while everything stops
                await sim.pause(self.cfg["asked"])
                for p, t in TYPES.items():
                    if p not in self.informers:
                        sim.fault("asked_while_stopping")
                        self.own(self.manager.get_cache().get_informer(t))
                for x in self.ctrls:
                    for p in x.ctl and x.spec["k"] or ():
                        self.own(self.watch(x.ctl, x, p))
            self.own(asked())
        how = "something it runs had failed" if broken else "it was cancelled"
        await asyncio.wait([self.run_task], timeout=14.0 + 2 * c["lat"] + sim.stalled(0, 1e9))
        if not self.run_task.done():
            sim.fail("C16", "stop_stuck", f"manager.start() had not finished 14 s after {how}")
            return
        if broken and self.cfg.get("again") is None:
            if self.run_task.cancelled() or not isinstance(self.run_task.exception(), Failed):
                sim.fail("C16", "failure_hidden", "manager.start() did not end with the error of the runnable that failed")
        elif not broken and not self.run_task.cancelled() and self.run_task.exception() is not None:
            sim.fail("C16", "stop_raised", f"manager.start() raised {crash_text(self.run_task.exception())} when cancelled")
        self.finished = sim.now
        sim.event("stopped")
        n = len(self.api.log)
        if self.handling:
            sim.fail("C16", "handler_left", "a handler still runs after the manager had stopped")
        if self.runnables:
            sim.fail("C16", "reconcile_left", "a runnable still runs after the manager had stopped")
        for x in self.ctrls:
            if x.running:
                sim.fail("C16", "reconcile_left", f"controller {x.j} still reconciles {sorted(x.running)} after the manager had stopped")
        await sim.pause(30)
        for t in list(self.mine):
            t.cancel()
        await sim.pause(30)
        left = [t for t in sim.loop.live_tasks() if t not in self.mine and t is not asyncio.current_task()]
        if left:
            sim.fail("C16", "task_left", f"{len(left)} task(s) still running after the manager was stopped: {sorted(t.get_coro().__qualname__ for t in left)[:4]}")
        if any(s.held() for s in self.api.streams):
            sim.fail("C16", "stream_left", "watch stream(s) still open after the manager was stopped")
        late = [self.own(self.manager.get_cache().get_informer(t)) for p, t in TYPES.items() if p not in self.informers]
        if late:  # asking for more afterwards starts nothing
            await asyncio.wait(late, timeout=5.0)
            for t in late:
                t.cancel()
            await sim.pause(30)
            if any(t not in self.mine and t is not asyncio.current_task() for t in sim.loop.live_tasks()):
                sim.fail("C16", "task_left", "asking a stopped cache for another informer started a task")
        await asyncio.sleep(12.0)
        if len(self.api.log) > n:
            sim.fail("C16", "request_after_stop", f"a {self.api.log[n]['op']} request was made after the manager was stopped")


class Spy:
    """Sees the events of a controller that was made by the builder."""

    def __init__(self, c):
        self.c = c

    async def on_add(self, obj):
        self.c.events[inf_.ident(obj)[0]] = self.c.sim.now

    async def on_update(self, old, new):
        self.c.events[inf_.ident(new)[0]] = self.c.sim.now

    async def on_delete(self, obj):
        self.c.events[inf_.ident(obj)[0]] = self.c.sim.now


class Slow:
    """A handler that takes its time, also when the manager is stopped."""

    def __init__(self, h):
        self.h = h

    async def told(self, *objs):
        h = self.h
        h.handling += 1
        try:
            await asyncio.sleep(h.cfg["slow"])
        finally:
            h.handling -= 1

    on_add = on_update = on_delete = told


class Passive:
    """One more handler, which does nothing."""

    async def on_add(self, obj):
        pass

    async def on_update(self, old, new):
        pass

    async def on_delete(self, obj):
        pass


class Recorder:
    def __init__(self, h, plural):
        self.sim = h.sim
        self.rec = h.recs.setdefault((plural, "a handler"), {})

    async def on_add(self, obj):
        self.rec.setdefault(inf_.ident(obj)[0], []).append((self.sim.now, "told"))

    async def on_update(self, old, new):
        what = "sync" if inf_.ident(old)[2] == inf_.ident(new)[2] else "told"
        key = inf_.ident(new)[0]
        self.rec.setdefault(key, []).append((self.sim.now, what))

    async def on_delete(self, obj):
        self.rec.setdefault(inf_.ident(obj)[0], []).append((self.sim.now, "gone"))


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C17")
    sim.stats["requests"] = len(h.api.log)
    sim.stats["reconciles"] = sum(sum(c.runs.values()) for c in h.ctrls)
    sim.stats["peak_parallel"] = sum(c.peak > 1 for c in h.ctrls)
    return sim
