"""Concurrent histories of DeltaFIFO (C06), FIFO (C08) and their has_synced (C07)."""
import asyncio
import itertools

from dst import lin
from dst.core import Sim, crash_text
from dst.gen import pause

from aiok8s.cache import delta_fifo, fifo, store

NONTRIVIAL = "two calls overlapped and something was popped"
REAL = ["aiok8s.cache.delta_fifo", "aiok8s.cache.fifo", "asyncio primitives"]
STUB = ["event loop", "producers, consumers and the known-objects store"]
SHRINK = ["ops", "first"]
KEYS = ["a", "b", "c", "d"]


def gen(rng, tier, focus):
    kind = {"C06": "delta", "C08": "fifo"}.get(focus) or rng.choice(["delta", "fifo"])
    n_keys = rng.choice([1, 2, 2, 3, 4])
    actors = rng.randint(1, 4)
    n_ops = rng.choice([4, 8, 14, 20, 26])
    spread = rng.choice([0, 1, 3, 6])
    timed = rng.random() < 0.25
    known = kind == "delta" and rng.random() < 0.75
    w_pop = rng.choice([0.25, 0.4, 0.6])
    p_bad = rng.choice([0, 0.2, 0.5])  # failing, requeueing or cancelled pops
    w_replace = rng.choice([0.08, 0.2, 0.35])
    init = focus == "C07" or rng.random() < 0.4
    ver = itertools.count(1)
    keys = KEYS[:n_keys]
    bulk = rng.random() < 0.015  # one caller, many objects
    if bulk:
        keys = KEYS + [f"k{i}" for i in range(rng.choice([20, 60, 150]))]
        actors, n_ops, spread, timed, init = 1, 2 * len(keys), 0, False, True
        w_pop, w_replace = rng.choice([0.2, 0.4]), 0.02

    def obj():
        return [rng.choice(keys), next(ver)]

    def full():
        ks = [k for k in keys if bulk or rng.random() < 0.6]
        for _ in range(bulk * rng.randint(0, 3)):
            ks.pop(rng.randrange(len(ks)))
        rng.shuffle(ks)
        return [[k, next(ver)] for k in ks]

    first = full() if init else []
    ops = []
    for _ in range(n_ops):
        o = {"a": rng.randrange(actors), "p": pause(rng, spread, timed)}
        r = rng.random()
        if r < w_pop:
            o["o"] = "pop"
            o["h"] = pause(rng, spread, timed) if kind == "delta" else 0
            if rng.random() < p_bad:
                o["x"] = rng.choice(["raise", "requeue", "requeue-cause", "raise"])
            if bulk:
                o["c"] = 0.01
            elif rng.random() < p_bad / 2:
                o["c"] = rng.randint(0, spread + 3)
        elif r < w_pop + w_replace:
            o["o"] = "replace"
            o["l"] = full()
        elif bulk:
            o["o"] = rng.choices(["add", "update", "delete", "aina", "get", "keys"], [6, 6, 4, 1.5, 1, 0.3])[0]
            o["v"] = obj()
        else:
            o["o"] = rng.choices(["add", "update", "delete", "aina", "resync", "get", "keys", "list", "bad", "close"],
                                 [4, 4, 4, 1.5, 1, 1.2, 1, 0.6, 0.3, 0.15])[0]
            o["v"] = obj()
            if rng.random() < 0.1:
                o["c"] = rng.randint(0, 2)
        ops.append(o)
    if not bulk and rng.random() < 0.12:  # several consumers wait, some give up as something arrives
        init, near = init and rng.random() < 0.5, rng.choice([3, 6, 10])
        ops = []
        for a in range(rng.choice([2, 3, 4])):
            for k in range(rng.choice([1, 1, 2])):
                o = {"a": a, "p": rng.randint(0, 2), "o": "pop", "h": 0}
                if a:
                    o["c"] = rng.randint(1, near)
                ops.append(o)
        for k in range(rng.choice([1, 1, 2, 3])):
            o = {"a": 4 + k, "p": rng.randint(1, near + 2), "o": rng.choice(["add", "add", "update", "replace", "aina"])}
            o.update({"l": full()} if o["o"] == "replace" else {"v": obj()})
            ops.append(o)
    return {"cfg": {"kind": kind, "known": known, "init": init, "meta": rng.random() < 0.2}, "first": first, "ops": ops}


def simpler(plan):
    for k in range(len(plan["ops"])):
        for key in ("c", "x"):
            if key in plan["ops"][k]:
                yield lambda p, k=k, key=key: p["ops"][k].pop(key)
        if plan["ops"][k].get("p"):
            yield lambda p, k=k: p["ops"][k].__setitem__("p", 0)
        if plan["ops"][k].get("h"):
            yield lambda p, k=k: p["ops"][k].__setitem__("h", 0)


class Obj:
    """An object that is only its key and version."""

    def __init__(self, key, ver):
        self.key, self.ver = key, ver
        self.metadata = self
        self.namespace, _, self.name = key.rpartition("/") if isinstance(key, str) else ("", "", "")

    def __repr__(self):
        return f"{self.key}{self.ver}"


def key_func(o):
    if o.key == "bad":
        raise ValueError("no key")
    return o.key


class Known:
    """Known objects, updated by the consumer while it processes a pop."""

    def __init__(self):
        self.d = {}

    def list_keys(self):
        return list(self.d)

    def get_by_key(self, k):
        return self.d.get(k)


# ---- sequential models. Delta state: (queue, items, known, closed, has_known)
# items: tuple of (key, deltas); deltas: tuple of (type, candidates)
T = "tombstone"


def norm(deltas):
    out = []
    for d in deltas:
        o = d.object
        if isinstance(o, delta_fifo.DeletedFinalStateUnknown):
            out.append((d.type.value, ((T, getattr(o.obj, "ver", None)),)))
        else:
            out.append((d.type.value, (o.ver,)))
    return tuple(out)


def marker(cands):
    return ("Deleted", tuple(c if isinstance(c, tuple) else (T, c) for c in cands))


def put(items, key, delta):
    cur = items.get(key, ())
    if cur and delta[0] == "Deleted" and cur[-1][0] == "Deleted":
        new = cur[:-1] + (("Deleted", tuple(sorted(set(cur[-1][1] + delta[1]), key=str))),)
    else:
        new = cur + (delta,)
    items[key] = new


def same(have, got):
    return len(have) == len(got) and all(h[0] == g[0] and g[1][0] in h[1] for h, g in zip(have, got))


def freeze(q, items, known, closed, hk):
    return (tuple(q), tuple(sorted(items.items())), tuple(sorted(known.items())), closed, hk)


def delta_step(s, op):
    q, items, known, closed, hk = list(s[0]), dict(s[1]), dict(s[2]), s[3], s[4]
    k = op.kind

    def act(key, delta):
        if key not in items:
            q.append(key)
        put(items, key, delta)

    def one():
        return (freeze(q, items, known, closed, hk),)

    if k in ("add", "update"):
        key, ver = op.args
        act(key, ("Added" if k == "add" else "Updated", (ver,)))
        return one()
    if k == "delete":
        key, ver = op.args
        if key in items or (hk and key in known):
            act(key, ("Deleted", (ver,)))
        return one()
    if k == "aina":
        key, ver = op.args
        if key not in items:
            q.append(key)
            items[key] = (("Updated", (ver,)),)
        return one()
    if k == "replace":
        given = dict(op.args[0])
        for key, ver in op.args[0]:
            act(key, ("Sync", (ver,)))
        gone = [key for key in dict.fromkeys([*items, *known]) if key not in given]
        fresh = [key for key in gone if key not in items]
        for key in gone:
            put(items, key, marker(items[key][-1][1] if key in items else (known[key],)))
        return [freeze(q + list(p), items, known, closed, hk) for p in itertools.permutations(fresh)]
    if k == "resync":
        if not hk:
            return (s,)
        fresh = [key for key in known if key not in items]
        for key in fresh:
            put(items, key, ("Sync", (known[key],)))
        return [freeze(q + list(p), items, known, closed, hk) for p in itertools.permutations(fresh)]
    if k == "close":
        closed = True
        return one()
    if k == "pop":
        if op.res is None:
            return ()
        if op.res[0] == "closed":
            return (s,) if closed and not q else ()
        _, key, deltas, outcome, final, raw = op.res
        if not q or q[0] != key or not same(items[key], deltas):
            return ()
        had = items.pop(key)
        q.pop(0)
        if hk and final is not None:
            if final == 0:
                known.pop(key, None)
            else:
                known[key] = final
        if outcome.startswith("requeue"):
            q.append(key)
            items[key] = had
        return one()
    if k == "get":
        key = op.args[0]
        have = items.get(key, ())
        return (s,) if same(have, op.res) else ()
    if k == "keys":
        return (s,) if op.res == tuple(sorted(items)) else ()
    if k == "list":
        if len(op.res) != len(items):
            return ()
        pool = sorted(map(str, op.res))
        for p in itertools.product(*[d[-1][1] for d in items.values()]):
            if sorted(map(str, p)) == pool:
                return (s,)
        return ()
    raise AssertionError(k)


# FIFO state: (queue of pending keys, items ((key, ver)...), keys deleted while pending, closed)
def fifo_step(s, op):
    q, items, loose, closed = list(s[0]), dict(s[1]), set(s[2]), s[3]
    k = op.kind

    def one():
        return ((tuple(q), tuple(sorted(items.items())), frozenset(loose), closed),)

    if k in ("add", "update"):
        key, ver = op.args
        if key not in items:
            q.append(key)
        items[key] = ver
        return one()
    if k == "aina":
        key, ver = op.args
        if key not in items:
            q.append(key)
            items[key] = ver
        return one()
    if k == "delete":
        key, ver = op.args
        if key in items:
            if op.res == "KeyError":
                return ()
            q.remove(key)
            del items[key]
            loose.add(key)
        return one()
    if k == "replace":
        items = dict(op.args[0])
        q = [key for key, _ in op.args[0]]
        loose = set()
        return one()
    if k == "resync":
        return (s,)
    if k == "close":
        closed = True
        return one()
    if k == "pop":
        if op.res is None:
            return ()
        if op.res[0] == "closed":
            return (s,) if closed and not q else ()
        _, key, ver, outcome = op.res
        if items.get(key) != ver:
            return ()
        if key not in loose:
            strict = [x for x in q if x not in loose]
            if strict[0] != key:
                return ()
        q.remove(key)
        del items[key]
        if outcome.startswith("requeue"):
            q.append(key)
            items[key] = ver
        return one()
    if k == "get":
        return (s,) if items.get(op.args[0]) == op.res else ()
    if k == "keys":
        return (s,) if op.res == tuple(sorted(items)) else ()
    if k == "list":
        return (s,) if op.res == tuple(sorted(items.values())) else ()
    raise AssertionError(k)


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan, self.cfg = sim, plan, plan["cfg"]
        self.delta = self.cfg["kind"] == "delta"
        self.prop = "C06" if self.delta else "C08"
        self.hist = []
        self.open = 0
        self.overlap = False
        self.popped = 0
        self.in_callback = 0
        self.need = None  # keys of the first list not yet processed
        self.was_synced = False
        self.sync_ok = True

    def key(self, k):
        return f"ns/{k}" if self.cfg["meta"] else k

    def obj(self, v):
        return Obj(self.key(v[0]), v[1])

    def start(self, kind, *args):
        self.overlap |= self.open > 0
        self.open += 1
        op = lin.Op(kind, args, self.sim.event("call", kind, *args))
        self.hist.append(op)
        return op

    def end(self, op, res=None, optional=False):
        self.open -= 1
        op.done(self.sim.event("ret", op.kind, *op.args, res), res, optional)

    async def simple(self, kind, args, coro, cancel=None):
        op = self.start(kind, *args)
        task = asyncio.ensure_future(coro)
        if cancel is not None:
            await self.sim.pause(cancel)
            if not task.done():
                task.cancel()
                self.sim.fault("cancel_" + kind)
        try:
            await task
        except asyncio.CancelledError:
            self.end(op, "cancelled", True)
            return
        except KeyError as e:
            if kind == "delete" and not self.delta and not isinstance(e, store.StoreKeyError):
                self.end(op, "KeyError")
                return
            self.sim.fail(self.prop, f"{kind}-raised:{type(e).__name__}", f"{kind}{args!r} raised {crash_text(e)}")
            self.end(op, "raised", True)
            return
        except Exception as e:
            self.sim.fail(self.prop, f"{kind}-raised:{type(e).__name__}", f"{kind}{args!r} raised {crash_text(e)}")
            self.end(op, "raised", True)
            return
        self.end(op)

    # -- popping
    def finish(self, key):
        if self.need is not None:
            self.need.discard(key)

    async def pop(self, o):
        op = self.start("pop")
        got = {}
        outcome = o.get("x", "ok")

        def fail():
            if outcome == "raise":
                raise RuntimeError("process")
            if outcome == "requeue":
                raise fifo.RequeueError
            if outcome == "requeue-cause":
                raise fifo.RequeueError from RuntimeError("process")

        async def process(deltas):
            d = norm(deltas)
            key = self.f.key_of(deltas)
            got["what"] = [key, d, None, deltas]
            for x in deltas:
                if isinstance(x.object, delta_fifo.DeletedFinalStateUnknown):
                    m = x.object
                    if m.key != key or not isinstance(m.obj, Obj) or m.obj.key != key:
                        self.sim.fail("C06", "marker", f"the deletion marker of {key} carries {m!r}")
            self.sim.event("process", key, [x[0] for x in d])
            if self.in_callback:
                self.sim.fail("C06", "overlap", "two pops are being processed at once")
            self.in_callback += 1
            try:
                await self.sim.pause(o.get("h", 0))
                if outcome == "ok" and self.known is not None:
                    last = deltas[-1]
                    if last.type is delta_fifo.DeltaType.DELETED:
                        self.known.d.pop(key, None)
                        got["what"][2] = 0
                    else:
                        self.known.d[key] = last.object
                        got["what"][2] = last.object.ver
                    if o.get("h"):
                        await self.sim.pause(1)
                fail()
            finally:
                self.in_callback -= 1
                self.finish(key)

        def process_sync(obj):
            got["what"] = [obj.key, obj.ver]
            self.finish(obj.key)
            fail()

        task = asyncio.ensure_future(self.f.pop(process if self.delta else process_sync))
        if "c" in o:
            await self.sim.pause(o["c"])
            if not task.done():
                task.cancel()
                self.sim.fault("cancel_pop_processing" if "what" in got else "cancel_pop")
        err = None
        try:
            r = await task
        except asyncio.CancelledError:
            err = "cancelled"
        except fifo.FIFOClosedError:
            err = "closed"
        except fifo.ProcessError as e:
            err, r = "process", e.item
        except Exception as e:
            self.sim.fail(self.prop, f"pop-raised:{type(e).__name__}", f"pop raised {crash_text(e)}")
            self.end(op, None, True)
            return
        if "what" not in got:
            if err == "closed":
                self.end(op, ("closed",))
            else:
                self.end(op, err, True)
                self.hist.remove(op)
                if err != "cancelled":
                    self.sim.fail(self.prop, "pop-silent", f"pop returned ({err}) without processing anything")
            return
        self.popped += 1
        if err == "cancelled":
            outcome = "cancelled"
        elif err is None and outcome not in ("ok", "requeue") or err == "process" and outcome in ("ok", "requeue"):
            self.sim.fail(self.prop, "pop-result", f"a pop whose callback ended with {outcome} gave {err or 'a result'}")
        elif err == "closed":
            self.sim.fail(self.prop, "pop-result", "a pop that processed an object reported closed")
        elif self.delta and norm(r) != got["what"][1] or not self.delta and r.ver != got["what"][1]:
            self.sim.fail(self.prop, "pop-result", "pop did not return what it had processed")
        if self.delta:
            key, d, final, raw = got["what"]
            self.end(op, ("got", key, d, outcome, final, None))
        else:
            self.end(op, ("got", *got["what"], outcome))

    async def do(self, o):
        k, f = o["o"], self.f
        if k == "pop":
            return await self.pop(o)
        if k == "replace":
            lst = [(self.key(a), b) for a, b in o["l"]]
            if not self.delta and self.need is not None:
                self.need &= {a for a, _ in lst}
            return await self.simple("replace", (tuple(lst),), f.replace([Obj(*x) for x in lst], "1"))
        if k in ("resync", "close"):
            return await self.simple(k, (), getattr(f, k)())
        x = self.obj(o["v"])
        if k in ("add", "update", "delete"):
            if k == "delete" and not self.delta and self.need is not None:
                self.need.discard(x.key)
            return await self.simple(k, (x.key, x.ver), getattr(f, k)(x), o.get("c"))
        if k == "aina":
            if self.delta:
                d = delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.UPDATED, x)])
                return await self.simple(k, (x.key, x.ver), f.add_if_not_present(d), o.get("c"))
            return await self.simple(k, (x.key, x.ver), f.add_if_not_present(x), o.get("c"))
        if k == "bad":
            bad, name = Obj("bad", 0), ("add", "update", "delete", "aina", "get")[x.ver % 5]
            if name == "aina":
                name = "add_if_not_present"
                if self.delta:
                    bad = delta_fifo.Deltas([delta_fifo.Delta(delta_fifo.DeltaType.UPDATED, bad)])
            try:
                r = getattr(f, name)(bad)
                if name != "get":
                    await r
            except Exception:
                pass
            else:
                self.sim.fail(self.prop, "bad-key", f"{name} accepted an object without a key")
            return
        if self.in_callback:
            return
        if k == "get":
            op = self.start("get", x.key)
            r = f.get(x) if x.ver % 2 else f.get_by_key(x.key)
            if self.delta:
                res = norm(r or ())
                if r:
                    r.append(delta_fifo.Delta(delta_fifo.DeltaType.ADDED, Obj("mine", -1)))  # it is a copy
            else:
                res = r.ver if r is not None else None
            self.end(op, res)
        elif k == "keys":
            op = self.start("keys")
            self.end(op, tuple(sorted(f.list_keys())))
        elif k == "list":
            op = self.start("list")
            if self.delta:
                self.end(op, tuple((T, getattr(x.obj, "ver", None)) if isinstance(x, delta_fifo.DeletedFinalStateUnknown) else x.ver
                                   for x in f.list()))
            else:
                self.end(op, tuple(sorted(x.ver for x in f.list())))

    async def actor(self, ops):
        for o in ops:
            await self.sim.pause(o["p"])
            await self.do(o)

    def watch_sync(self):
        s = bool(self.f.has_synced())
        if s and not self.was_synced and self.need:
            self.sim.fail("C07", "early", f"has_synced is true before {sorted(self.need)} of the first list were processed")
        if self.was_synced and not s:
            self.sim.fail("C07", "reverted", "has_synced went back to false")
        self.was_synced = s

    async def main(self, sim):
        cfg, plan = self.cfg, self.plan
        self.known = Known() if cfg["known"] else None
        kf = store.meta_namespace_key_func if cfg["meta"] else key_func
        if cfg["meta"]:
            def kf(o):
                if o.key == "bad":
                    raise ValueError
                return store.meta_namespace_key_func(o)
        self.f = delta_fifo.DeltaFIFO(kf, self.known) if self.delta else fifo.FIFO(kf)
        actors = {}
        for o in plan["ops"]:
            actors.setdefault(o["a"], []).append(o)
        closes = any(o["o"] == "close" for o in plan["ops"])
        tasks = []
        if self.f.has_synced():
            sim.fail("C07", "early", "has_synced is true before anything happened")
        early = [a for a in actors if actors[a][0]["o"] == "pop"]
        if cfg["init"]:
            for a in early:
                tasks.append(self.sim.helper(self.actor(actors.pop(a))))
                await sim.pause(1)
                break  # one consumer may already block in pop
            if not (tasks and len(plan["ops"]) and self.hist and any(o.kind != "pop" for o in self.hist)):
                self.need = {self.key(k) for k, _ in plan["first"]}
                sim.loop.on_iteration.append(self.watch_sync)
            await self.do({"o": "replace", "l": plan["first"]})
        tasks += [self.sim.helper(self.actor(ops)) for ops in actors.values()]
        if tasks:
            await asyncio.wait(tasks, timeout=30)
        cut = sim.event("quiescent")
        stuck = [o for o in self.hist if o.end == lin.INF and o.kind != "pop"]
        if stuck:
            sim.fail(self.prop, "stuck", f"{stuck[0].kind} never returned")
            return
        blocked = [o for o in self.hist if o.end == lin.INF]
        # drain: pop until nothing is pending any more
        drains = []
        for _ in range(12 + len(self.hist)):
            t = asyncio.ensure_future(self.pop({}))
            await asyncio.wait([t], timeout=1)
            drains.append(t)
            if not t.done() or self.hist[-1].kind == "pop" and self.hist[-1].res == ("closed",):
                break
        else:
            sim.fail(self.prop, "endless", "pending objects never end")
        if self.need is not None and not sim.violations:
            await asyncio.sleep(0.01)
            if not self.f.has_synced():
                sim.fail("C07", "late", "has_synced is still false after everything pending was processed")
        drained = sim.event("drained")
        self.verdict(cut, blocked, drained)
        if sim.violations:
            return
        if not closes or not self.f.is_closed():
            await self.simple("close", (), self.f.close())
        await asyncio.sleep(1)
        if any(not t.done() for t in drains + tasks):
            sim.fail("C08" if not self.delta else "C06", "close", "a consumer is still blocked in pop although the queue was closed")
        for t in drains + tasks:
            if t.done() and t.exception():
                raise t.exception()

    def verdict(self, cut, blocked, drained):
        sim = self.sim
        if sim.violations:
            return
        step = delta_step if self.delta else fifo_step
        init = ((), (), (), False, self.cfg["known"]) if self.delta else ((), (), frozenset(), False)
        hist = [o for o in self.hist if not (o.kind == "pop" and o.end == lin.INF)]
        try:
            if blocked:
                part = [o for o in hist if o.end < cut]
                if lin.check(part, init, step) is None and lin.check(part, init, step, accept=lambda s: not s[0]):
                    sim.fail(self.prop, "stranded", "a consumer is blocked in pop although objects are pending")
                    return
            bad = lin.check(hist, init, step, accept=lambda s: not s[0])
            if bad:
                sim.fail(self.prop, "history", lin.explain(bad))
        except lin.Inconclusive:
            sim.probe("inconclusive_history")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C06" if h.delta else "C08")
    sim.nontrivial = h.overlap and h.popped > 0
    sim.probe("kind_" + plan["cfg"]["kind"])
    if h.need is not None:
        sim.probe("sync_watched")
    for o in h.hist:
        if o.kind == "pop" and o.res and o.res[0] == "got":
            sim.probe("pop_" + o.res[3 if not h.delta else 3])
    sim.stats = {"pops": h.popped, "calls": len(h.hist)}
    return sim
