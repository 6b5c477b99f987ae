"""Concurrent histories of the indexed store against brute force over its contents (C09)."""
import asyncio
import itertools

from dst import lin
from dst.core import Sim, crash_text
from dst.gen import pause

from aiok8s.cache import index as aindex
from aiok8s.cache import store

NONTRIVIAL = "an index lookup returned at least one object"
REAL = ["aiok8s.cache.store", "aiok8s.cache.thread_safe_store", "aiok8s.cache.index"]
STUB = ["event loop", "callers"]
SHRINK = ["ops"]
KEYS = ["a", "b", "c", "d"]
VALUES = ["x", "y", "z", "", None]
NAMES = ["i1", "i2", "i3"]


def gen(rng, tier, focus):
    n_keys = rng.choice([1, 2, 3, 4])
    n_vals = rng.choice([1, 2, 3, 5])
    start = rng.choice([0, 1, 2, 2])
    ver = itertools.count(1)
    repeat = rng.random() < 0.5
    bulk = rng.random() < 0.015
    keys = KEYS[:n_keys] if not bulk else KEYS + [f"k{i}" for i in range(rng.choice([20, 60, 150]))]
    vals_of = VALUES[:n_vals] if not bulk else VALUES + [f"v{i}" for i in range(rng.choice([0, 20, 60]))]
    many = rng.random() < 0.04  # index functions that yield a lot
    if many:
        vals_of = vals_of + [f"w{i}" for i in range(rng.choice([4, 12, 40]))]

    def obj():
        vals = {}
        for n in NAMES:
            k = rng.choice([0, 1, 1, 2, 3]) if not many else rng.choice([0, 1, 5, 8, 15, 40])
            v = [rng.choice(vals_of) for _ in range(k)]
            if not repeat:
                v = list(dict.fromkeys(v))
            vals[n] = v
        return [rng.choice(keys), next(ver), vals]

    ops = []
    for _ in range(rng.choice([5, 10, 20, 30]) if not bulk else 2 * len(keys)):
        o = {"a": rng.randrange(3), "p": pause(rng, rng.choice([0, 2]), False)}
        o["o"] = rng.choices(["add", "update", "delete", "replace", "by_index", "index", "index_keys", "values", "list", "add_indexers", "get", "keys", "names", "bad"],
                             [3, 3, 2.5, 0.7, 3, 2, 2, 2, 1, 0.8, 1, 0.5, 0.3, 0.4])[0]
        if o["o"] in ("add", "update", "delete", "index", "get", "bad"):
            o["v"] = obj()
        elif o["o"] == "replace":
            o["l"] = [v for v in (obj() for _ in range(rng.randint(0, 3) if not bulk else len(keys)))]
        elif o["o"] == "add_indexers":
            o["n"] = rng.sample(NAMES, rng.randint(1, 2))
        o["n"] = o.get("n") or rng.choice(NAMES)
        o["val"] = rng.choice(vals_of)
        if bulk:
            o["a"] = o["p"] = 0
        if o["o"] in ("add", "update", "delete", "replace") and rng.random() < 0.08:
            o["c"] = rng.randint(0, 2)
        ops.append(o)
    late = rng.random() < 0.3
    if late:
        ops.insert(0, {"a": 0, "p": 0, "o": "add_indexers", "n": NAMES[start:] or ["i1"], "val": None})
    return {"cfg": {"names": NAMES[:start]}, "ops": ops}


class Obj:
    def __init__(self, v):
        self.key, self.ver, self.vals = v

    def __repr__(self):
        return f"{self.key}{self.ver}"


def func(name):
    return lambda o: list(o.vals[name])


def step(s, op):
    names, items = s
    d = dict(items)
    k = op.kind
    if k in ("add", "update"):
        d[op.args[0]] = op.args[1]
        return ((names, tuple(sorted(d.items()))),)
    if k == "delete":
        d.pop(op.args[0], None)
        return ((names, tuple(sorted(d.items()))),)
    if k == "replace":
        return ((names, tuple(sorted(dict(op.args[0]).items()))),)
    if k == "list":
        return (s,) if op.res == tuple(sorted(d.values())) else ()
    if k == "get":
        return (s,) if op.res == d.get(op.args[0]) else ()
    if k == "keys":
        return (s,) if op.res == tuple(sorted(d)) else ()
    if k == "names":
        return (s,) if op.res == tuple(sorted(names)) else ()
    if k == "bad":
        return (s,)
    if k == "add_indexers":
        new = set(op.args[0])
        refused = bool(d) or bool(new & names)
        if refused:
            return (s,) if op.res == "refused" else ()
        return ((names | new, items),) if op.res == "ok" else ()
    name = op.args[0]
    if name not in names:
        if k == "values":
            return (s,) if op.res in ("KeyError", ()) else ()
        return (s,) if op.res == "KeyError" else ()
    table = op.what

    def having(val):
        return tuple(sorted(v for v in d.values() if val in table[v].vals[name]))

    if k == "by_index":
        want = having(op.args[1])
    elif k == "index_keys":
        want = tuple(sorted(table[v].key for v in having(op.args[1])))
    elif k == "index":
        want = tuple(sorted({v for val in op.args[1] for v in having(val)}))
    else:
        want = tuple(sorted({str(val) for v in d.values() for val in table[v].vals[name]}))
    return (s,) if op.res == want else ()


class H:
    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.hist = []
        self.table = {}
        self.hits = 0

    def obj(self, v):
        o = Obj(v)
        self.table[o.ver] = o
        return o

    async def do(self, o):
        sim, st, k = self.sim, self.store, o["o"]
        if k in ("add", "update", "delete"):
            x = self.obj(o["v"])
            args = (x.key, x.ver)
            coro = getattr(st, k)(x)
        elif k == "replace":
            objs = [self.obj(v) for v in o["l"]]
            args = (tuple((x.key, x.ver) for x in objs),)
            coro = st.replace(objs, "1")
        elif k == "add_indexers":
            args = (tuple(o["n"]),)
            coro = st.add_indexers(aindex.Indexers({n: func(n) for n in o["n"]}))
        elif k == "index":
            x = self.obj(o["v"])
            args = (o["n"], tuple(x.vals[o["n"]]))
            coro = st.index(o["n"], x)
        elif k == "values":
            args = (o["n"],)
            coro = st.list_index_func_values(o["n"])
        elif k in ("list", "keys", "names"):
            args = ()

            async def coro():
                return {"list": st.list, "keys": st.list_keys, "names": st.get_indexers}[k]()

            coro = coro()
        elif k == "get":
            args = (o["v"][0],)

            async def coro():
                return st.get(Obj(o["v"])) if o["v"][1] % 2 else st.get_by_key(o["v"][0])

            coro = coro()
        elif k == "bad":  # an object without a key is refused
            how = ("add", "update", "delete", "get", "replace")[o["v"][1] % 5]
            bad = Obj(o["v"])
            del bad.key
            args = (how,)

            async def coro():
                good = self.obj([o["v"][0], -o["v"][1], o["v"][2]])
                r = getattr(st, how)(*([[good, bad], "1"] if how == "replace" else [bad]))
                if how != "get":
                    await r

            coro = coro()
        else:
            args = (o["n"], o["val"])
            coro = getattr(st, k)(o["n"], o["val"])
        op = lin.Op(k, args, sim.event("call", k, *args))
        op.what = self.table
        self.hist.append(op)
        task = asyncio.ensure_future(coro)
        if "c" in o:
            await sim.pause(o["c"])
            if not task.done():
                task.cancel()
                sim.fault("cancel_" + k)
        optional = False
        try:
            r = await task
        except asyncio.CancelledError:
            r, optional = "cancelled", True
        except KeyError as e:
            r = "KeyError"
            if k == "bad":
                if not isinstance(e, store.StoreKeyError) or e.obj is not bad:
                    sim.fail("C09", "bad_key", f"{args[0]} of an object without a key raised {crash_text(e)}")
            elif k not in ("by_index", "index_keys", "index", "values"):
                sim.fail("C09", f"{k}-raised:KeyError", f"{k}{args!r} raised {crash_text(e)}")
        except Exception as e:
            r = "refused"
            if k != "add_indexers":
                sim.fail("C09", f"{k}-raised:{type(e).__name__}", f"{k}{args!r} raised {crash_text(e)}")
        else:
            if k in ("by_index", "index", "list"):
                own, r = r, tuple(sorted(x.ver for x in r))
                own.clear()
                self.hits += bool(r) and k != "list"
            elif k in ("index_keys", "keys"):
                own, r = r, tuple(sorted(r))
                own.clear()
            elif k == "names":
                r = tuple(sorted(r))
            elif k == "get":
                r = r and r.ver
            elif k == "bad":
                sim.fail("C09", "bad_key", f"{args[0]} accepted an object without a key")
            elif k == "values":
                r = tuple(sorted(map(str, r)))
            elif k == "add_indexers":
                r = "ok"
        op.done(sim.event("ret", k, r), r, optional)

    async def actor(self, ops):
        for o in ops:
            await self.sim.pause(o["p"])
            await self.do(o)
            if self.sim.violations:
                return

    async def main(self, sim):
        plan = self.plan
        names = plan["cfg"]["names"]
        self.store = store.new_indexer(lambda o: o.key, aindex.Indexers({n: func(n) for n in names}))
        actors = {}
        for o in plan["ops"]:
            actors.setdefault(o["a"], []).append(o)
        tasks = [self.sim.helper(self.actor(x)) for x in actors.values()]
        if tasks:
            _, pending = await asyncio.wait(tasks, timeout=10)
            if pending:
                sim.fail("C09", "stuck", "a call on the store never returned")
            for t in tasks:
                if t.done() and t.exception():
                    raise t.exception()
        # every lookup at the end
        for n in NAMES:
            await self.do({"o": "values", "n": n})
            for v in VALUES:
                await self.do({"o": "by_index", "n": n, "val": v})
        await self.do({"o": "list"})
        if sim.violations:
            return
        try:
            bad = lin.check(self.hist, (frozenset(names), ()), step)
            if bad:
                sim.fail("C09", "lookup", lin.explain(bad))
        except lin.Inconclusive:
            sim.probe("inconclusive_history")


def run(plan):
    sim = Sim(plan)
    h = H(sim, plan)
    sim.run(h.main, "C09")
    sim.nontrivial = h.hits > 0
    sim.stats = {"calls": len(h.hist), "lookups_with_results": h.hits}
    return sim
