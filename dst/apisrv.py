"""A simulated Kubernetes API server: versioned objects, lists, watches, optimistic writes, faults.

Front ends: a plain ListWatch (typed objects or dicts) and the HTTP session under the real
kubernetes_asyncio client (real API classes, Watch, (de)serialisation; only aiohttp is replaced).
"""
import asyncio
import collections
import copy
import json
import re
from urllib.parse import parse_qs, urlsplit

from dst import boot

KINDS = {
    # plural: (kind, apiVersion, namespaced)
    "pods": ("Pod", "v1", True),
    "secrets": ("Secret", "v1", True),
    "configmaps": ("ConfigMap", "v1", True),
    "nodes": ("Node", "v1", False),
    "deployments": ("Deployment", "apps/v1", True),
}
OTHER = {"apiVersion": "v1", "kind": "Gadget"}


class ApiError(Exception):
    """An HTTP error answer."""

    def __init__(self, status, reason):
        super().__init__(f"{status} {reason}")
        self.status = status
        self.reason = reason


class Lost(ConnectionError):
    """The connection failed."""


def key_of(raw):
    m = raw["metadata"]
    ns = m.get("namespace")
    return f"{ns}/{m['name']}" if ns else m["name"]


def status(code, reason):
    return {"kind": "Status", "apiVersion": "v1", "metadata": {}, "status": "Failure", "code": code, "reason": reason, "message": reason}


class ApiServer:
    def __init__(self, sim, faults=(), cfg=None):
        cfg = cfg or {}
        self.sim = sim
        sim.api = self
        self.rng = sim.rng("api")
        self.lat = cfg.get("lat", 0.0)
        self.evlat = cfg.get("evlat", 0.0)
        self.max_watch = cfg.get("max_watch")
        self.heal = cfg.get("heal", 0.0)
        self.rv = self.rv0 = cfg.get("rv0", 100)
        self.gone = cfg.get("gone", "mix")
        self.uids = 0
        self.objs = collections.defaultdict(dict)
        self.hist = collections.defaultdict(list)
        self.compacted = collections.Counter()
        self.versions = collections.defaultdict(dict)  # (plural, key) -> rv -> (type, raw)
        self.waiters = []
        self.faults = [dict(f) for f in faults if "w" in f]
        self.outages = [(f["t"], f["t"] + f["d"], f) for f in faults if f["f"] == "outage"]
        self.count = collections.Counter()
        self.log = []  # request records
        self.streams = []
        self.sent = {""}  # every version the server ever sent
        self.bookmarks = set()
        self.stale = False  # a list showed an old state
        self.on_open = None
        self.on_write = None
        self.dead = set()  # clients that crashed
        self.work = set()

    # ------------------------------------------------------------- state
    def raw(self, plural, ns, name, data):
        kind, api_version, namespaced = KINDS[plural]
        m = {"name": name, "labels": {"v": str(data)}}
        if namespaced:
            m["namespace"] = ns
        raw = {"apiVersion": api_version, "kind": kind, "metadata": m}
        return raw

    def _commit(self, plural, typ, raw):
        self.rv += 1
        raw["metadata"]["resourceVersion"] = str(self.rv)
        key = key_of(raw)
        if typ == "DELETED":
            self.objs[plural].pop(key)
        else:
            self.objs[plural][key] = raw
        self.hist[plural].append((self.rv, typ, raw, self.sim.now))
        self.versions[plural, key][str(self.rv)] = (typ, raw)
        self.sim.event("srv", typ, plural, key, self.rv)
        self.wake()
        return self.rv

    def wake(self):
        for f in self.waiters:
            if not f.done():
                f.set_result(None)
        self.waiters.clear()

    def create(self, plural, raw):
        key = key_of(raw)
        if key in self.objs[plural]:
            raise ApiError(409, "AlreadyExists")
        raw = copy.deepcopy(raw)
        self.uids += 1
        raw["metadata"]["uid"] = f"u{self.uids}"
        return self._commit(plural, "ADDED", raw)

    def update(self, plural, raw):
        old = self.objs[plural].get(key_of(raw))
        if old is None:
            raise ApiError(404, "NotFound")
        rv = raw["metadata"].get("resourceVersion")
        if rv and rv != old["metadata"]["resourceVersion"]:
            raise ApiError(409, "Conflict")
        raw = copy.deepcopy(raw)
        raw["metadata"]["uid"] = old["metadata"]["uid"]
        return self._commit(plural, "MODIFIED", raw)

    def delete(self, plural, key):
        old = self.objs[plural].get(key)
        if old is None:
            raise ApiError(404, "NotFound")
        return self._commit(plural, "DELETED", copy.deepcopy(old))

    def bump(self):
        """Something unrelated was written."""
        self.rv += 1

    def compact(self, plural):
        self.compacted[plural] = self.rv

    def state_at(self, plural, rv):
        out = {}
        for r, typ, raw, _ in self.hist[plural]:
            if r > rv:
                break
            if typ == "DELETED":
                out.pop(key_of(raw), None)
            else:
                out[key_of(raw)] = raw
        return out

    def caught_up(self, plural, ns=None):
        """The list and watches since the last list request have shown the client everything."""
        pos = -1
        for r in self.log:
            if r["k"] != plural:
                continue
            if r["op"] == "list":
                pos = int(r["rv"]) if r["out"] == "ok" else -1
            elif r["op"] == "watch" and r["out"] == "ok" and pos >= 0:
                pos = max(pos, int(r["stream"].last_rv or 0))
        return pos >= 0 and not any(e[0] > pos and (not ns or e[2]["metadata"].get("namespace") == ns) for e in self.hist[plural][-40:])

    # ------------------------------------------------------------ faults
    def healed(self):
        return self.sim.now >= self.heal

    def take(self, who, w):
        n = self.count[who, w]
        self.count[who, w] += 1
        if self.healed():
            return None
        for f in self.faults:
            if f["w"] == w and f.get("k", who) == who and f["n"] == n:
                return f
        return None

    def outage(self, who=None):
        for a, b, f in self.outages:
            if f.get("k") not in (None, who):
                continue
            if a <= self.sim.now < min(b, self.heal):
                return min(b, self.heal), f
        return None

    async def break_streams(self):
        """Runs alongside: cuts the streams open when an outage starts."""
        for a, b, f in sorted(self.outages, key=lambda x: x[0]):
            await asyncio.sleep(max(0.0, a - self.sim.now))
            if self.healed():
                return
            self.sim.fault("outage")
            for s in self.streams:
                if s.how is None and f.get("k") in (None, s.plural):
                    s.broken = True
            self.wake()

    async def latency(self, hi):
        r = self.rng.random()
        if r < 0.2 or not hi:
            for _ in range(self.rng.randrange(3)):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(self.rng.random() * hi)

    async def gate(self, rec, f, who=None):
        """Latency and faults before a request takes effect."""
        out = self.outage(who)
        if out:
            end, of = out
            if of.get("how") == "hang":
                self.sim.fault("hang")
                await asyncio.sleep(max(0.0, end - self.sim.now))
            self.sim.fault("request_lost")
            rec["out"] = "error"
            raise Lost("unreachable")
        await self.latency(self.lat)
        if f is None or self.healed():
            return
        k = f["f"]
        if k == "hang":
            self.sim.fault("hang")
            await asyncio.sleep(max(0.0, min(f["d"], self.heal - self.sim.now)))
            if f.get("then") == "ok":
                return
            rec["out"] = "error"
            raise Lost("timed out")
        if k == "lost":
            self.sim.fault("request_lost")
            rec["out"] = "error"
            raise Lost("connection reset")
        if k == "http":
            self.sim.fault(f"http_{f['code']}")
            rec["out"] = "error"
            raise ApiError(f["code"], f.get("reason", "Refused"))

    async def list(self, plural, ns, query, who=None):
        rec = {"op": "list", "k": plural, "t": self.sim.now, "out": None, "rv": None, "q": dict(query)}
        self.log.append(rec)
        self.sim.event("list", plural)
        f = self.take(plural, "list")
        try:
            await self.gate(rec, f, plural)
            rv = self.rv
            state = self.objs[plural]
            if f and f["f"] == "stale" and not self.healed():
                rv = max(self.rv0, self.compacted[plural], rv - f["back"])
                state = self.state_at(plural, rv)
                self.sim.fault("stale_list")
                rec["stale"] = self.stale = True
            items = [copy.deepcopy(o) for k, o in state.items() if not ns or o["metadata"]["namespace"] == ns]
            if f and f["f"] == "order":
                items.reverse()
            await self.latency(self.lat)
            if f and f["f"] == "lost_answer" and not self.healed():
                self.sim.fault("answer_lost")
                rec["out"] = "error"
                raise Lost("connection reset while reading")
            out = self.outage(plural)
            if out:
                rec["out"] = "error"
                raise Lost("connection reset while reading")
        except asyncio.CancelledError:
            rec["out"] = "cancelled"
            raise
        rec["out"] = "ok"
        rec["rv"] = str(rv)
        self.sent.add(str(rv))
        rec["done"] = self.sim.now
        self.sim.event("listed", plural, str(rv))
        rec["items"] = {key_of(o): o["metadata"]["resourceVersion"] for o in items}
        kind, api_version, _ = KINDS[plural]
        return {"apiVersion": api_version, "kind": kind + "List", "metadata": {"resourceVersion": str(rv)}, "items": items}

    async def watch(self, plural, ns, query, typed_junk=True):
        rec = {"op": "watch", "k": plural, "t": self.sim.now, "out": None, "rv": query.get("resource_version"), "q": dict(query)}
        self.log.append(rec)
        self.sim.event("watch", plural, query.get("resource_version"))
        f = self.take(plural, "watch")
        try:
            await self.gate(rec, f, plural)
            rv = int(query.get("resource_version") or 0)
            if rv < self.compacted[plural]:
                self.sim.fault("expired")
                if self.gone == "http" or self.gone == "mix" and self.rng.random() < 0.5:
                    rec["out"] = "error"
                    raise ApiError(410, "Expired")
                f = {"f": "error", "code": 410, "after": 0, "always": True}
        except asyncio.CancelledError:
            rec["out"] = "cancelled"
            raise
        rec["out"] = "ok"
        s = Stream(self, plural, ns, rv, float(query.get("timeout_seconds") or 1e9), f, rec)
        self.streams.append(s)
        return s

    # ------------------------------------------------- single objects
    async def single(self, who, verb, plural, key, body):
        rec = {"op": verb, "k": plural, "who": who, "t": self.sim.now, "out": None, "end": None, "faulty": False}
        self.log.append(rec)
        if who in self.dead:
            await self.sim.loop.create_future()
        f = self.take(who, verb)
        rec["faulty"] = f is not None
        # the server goes on with a request whose client gave up
        work = self.sim.loop.create_task(self._single(rec, f, who, verb, plural, key, body))
        self.work.add(work)
        work.add_done_callback(self._worked)
        try:
            o = await asyncio.shield(work)
            rec["end"] = self.sim.now
            rec["out"] = "ok"
            return o
        except asyncio.CancelledError:
            rec["out"] = "cancelled"
            rec["end"] = self.sim.now
            if not (f and f["f"] == "late") and self.rng.random() < 0.5:
                work.cancel()
            raise
        except ApiError as e:
            rec["out"] = e.status
            rec["end"] = self.sim.now
            raise
        except Lost:
            rec["out"] = "error"
            rec["end"] = self.sim.now
            if f and f["f"] == "late" and not self.healed():
                late = self.sim.loop.create_task(self._late(rec, f, verb, plural, key, body, who))
                self.work.add(late)
                late.add_done_callback(self._worked)
            raise

    def _worked(self, t):
        self.work.discard(t)
        if not t.cancelled():
            t.exception()

    async def _late(self, rec, f, verb, plural, key, body, who):
        """The client was told of a failure; the request arrives all the same."""
        await asyncio.sleep(f["d"])
        try:
            self._apply(rec, verb, plural, key, body, who)
        except ApiError:
            pass

    def _apply(self, rec, verb, plural, key, body, who):
        if verb == "get":
            o = self.objs[plural].get(key)
            if o is None:
                raise ApiError(404, "NotFound")
        elif verb == "post":
            self.create(plural, body)
            o = self.objs[plural][key]
        elif verb == "put":
            self.update(plural, body)
            o = self.objs[plural][key]
        else:
            raise ApiError(405, "MethodNotAllowed")
        if verb != "get" and self.on_write:
            self.on_write(who, verb, o, rec["t"])
        return copy.deepcopy(o)

    async def _single(self, rec, f, who, verb, plural, key, body):
        await self.gate(rec, f, who)
        if f and f["f"] == "late" and not self.healed():
            self.sim.fault("arrives_late")
            raise Lost("connection reset")
        o = self._apply(rec, verb, plural, key, body, who)
        await self.latency(self.lat)
        if verb != "get":
            await asyncio.sleep(1e-5)  # time passes between two writes: their records of the time differ
        if f and f["f"] == "lost_answer" and not self.healed():
            self.sim.fault("answer_lost")
            raise Lost("connection reset while reading")
        if f and f["f"] == "slow_answer" and not self.healed():
            self.sim.fault("answer_slow")
            await asyncio.sleep(f["d"])
        out = self.outage(who)
        if out or who in self.dead:
            raise Lost("connection reset while reading")
        return o


class Stream:
    def __init__(self, api, plural, ns, rv, timeout, fault, rec):
        self.api, self.plural, self.ns, self.pos = api, plural, ns, rv
        self.sim = api.sim
        self.t0 = self.sim.now
        if api.max_watch:
            timeout = min(timeout, api.max_watch)
        self.end = self.t0 + timeout
        self.fault = fault
        self.rec = rec
        rec["stream"] = self
        self.n = 0
        self.junk = 0
        self.marks = 0
        self.how = None  # None while open; clean | exc | error | client
        self.t_end = None
        self.opened = False
        self.released = False  # closed by the client
        self.broken = False
        self.stalled = 0.0
        self.evlat = api.evlat
        self.delivered = []  # (type, key, rv)
        self.last_rv = None

    def open(self):
        if not self.opened:
            self.opened = True
            self.sim.event("open", self.plural)
            if self.api.on_open:
                self.api.on_open(self)

    def held(self):
        """Opened and not given back by the client."""
        return self.opened and not self.released

    def finish(self, how):
        if self.how is None:
            self.how = how
            self.t_end = self.sim.now
            self.sim.event("end", self.plural, how)

    def close(self):
        self.released = True
        self.finish("client")

    def _next_entry(self):
        hist = self.api.hist[self.plural]
        i = len(hist)
        while i and hist[i - 1][0] > self.pos:
            i -= 1
        while i < len(hist):
            e = hist[i]
            if not self.ns or e[2]["metadata"]["namespace"] == self.ns:
                return e
            i += 1
        return None

    async def next(self):
        """(type, raw object), or None at the end of the stream."""
        self.open()
        sim, api = self.sim, self.api
        while True:
            if self.how is not None:
                return None
            if self.broken:
                self.finish("exc")
                raise Lost("stream cut")
            until = self.end
            f = self.fault
            if f and (f.get("always") or not api.healed()) and self.n + self.junk + self.marks >= f.get("after", 0):
                at = self.t0 + f.get("t", 0)
                if sim.now >= at:
                    self.fault = None
                    k = f["f"]
                    if k == "eof":
                        sim.fault("stream_eof")
                        self.finish("clean")
                        return None
                    if k == "exc":
                        sim.fault("stream_exc")
                        self.finish("exc")
                        raise Lost("stream reset")
                    if k == "timeout":
                        sim.fault("stream_timeout")
                        self.finish("exc")
                        raise asyncio.TimeoutError()
                    if k == "error":
                        sim.fault("error_event")
                        self.finish("error")
                        return "ERROR", status(f.get("code", 500), "Expired" if f.get("code") == 410 else "InternalError")
                    if k == "stall":
                        sim.fault("stream_stall")
                        self.stalled = min(sim.now + f["d"], max(api.heal, sim.now))
                        self.stall_then = f.get("then")
                        continue
                    if k == "junk":
                        sim.fault("junk_event")
                        self.junk += 1
                        raw = copy.deepcopy(OTHER)
                        if self.plural == "deployments" and self.pos % 2:  # of the same name in another group
                            raw = {"apiVersion": "extensions/v1beta1", "kind": "Deployment"}
                        raw["metadata"] = {"name": "junk", "namespace": "junk", "uid": "junk", "resourceVersion": str(self.pos)}
                        return "ADDED", raw
                    if k == "bookmark":
                        sim.fault("bookmark")
                        self.marks += 1
                        e = self._next_entry()
                        if e is None:
                            self.pos = max(self.pos, api.rv)
                        kind, av, _ = KINDS[self.plural]
                        self.last_rv = str(self.pos)
                        api.sent.add(self.last_rv)
                        api.bookmarks.add(self.last_rv)
                        return "BOOKMARK", {"apiVersion": av, "kind": kind, "metadata": {"name": "", "namespace": "", "uid": "", "resourceVersion": str(self.pos)}}
                    if k == "slow":
                        sim.fault("slow_stream")
                        self.evlat = f["d"]
                else:
                    until = min(until, at)
            if self.stalled:
                if sim.now < self.stalled and not api.healed():
                    until = min(until, self.stalled)
                else:
                    self.stalled = 0.0
                    if self.stall_then == "timeout":
                        self.finish("exc")
                        raise asyncio.TimeoutError()
                    continue
            else:
                e = self._next_entry()
                if e is not None:
                    if self.evlat > api.evlat:
                        await asyncio.sleep(max(0.0, min(self.evlat * api.rng.random(), api.heal - sim.now)))
                    else:
                        await api.latency(self.evlat)
                    if self.broken or self.how is not None:
                        continue
                    self.pos = e[0]
                    self.n += 1
                    self.last_rv = str(e[0])
                    api.sent.add(self.last_rv)
                    self.delivered.append((e[1], key_of(e[2]), str(e[0])))
                    return e[1], copy.deepcopy(e[2])
            if sim.now >= self.end:
                self.finish("clean")
                return None
            fut = sim.loop.create_future()
            api.waiters.append(fut)
            try:
                await asyncio.wait([fut], timeout=max(0.0, until - sim.now))
            finally:
                if not fut.done():
                    api.waiters.remove(fut)


# ------------------------------------------------------------------ ListWatch front end
class Meta:
    def __init__(self, d):
        self.name = d.get("name")
        self.namespace = d.get("namespace")
        self.uid = d.get("uid")
        self.resource_version = d.get("resourceVersion")
        self.labels = d.get("labels")


class Obj:
    def __init__(self, raw):
        self.api_version = raw["apiVersion"]
        self.kind = raw["kind"]
        self.metadata = Meta(raw["metadata"])

    def __repr__(self):
        return f"Obj({self.metadata.namespace}/{self.metadata.name}@{self.metadata.resource_version})"


class Gadget(Obj):
    """An object of another type (not a subtype, as far as users are concerned)."""


class Junk:
    def __init__(self, raw):
        self.api_version = raw["apiVersion"]
        self.kind = raw["kind"]
        self.metadata = Meta(raw["metadata"])


class ObjList:
    def __init__(self, raw):
        self.metadata = Meta(raw["metadata"])
        self.items = [Obj(r) for r in raw["items"]]


class DuckWatch:
    """What a ListWatch hands out: an async iterator and context manager."""

    def __init__(self, open_, conv):
        self.open_, self.conv = open_, conv
        self.stream = None

    def __aiter__(self):
        return self

    async def __aenter__(self):
        if self.stream:
            self.stream.open()
        return self

    async def __aexit__(self, *exc):
        if self.stream:
            self.stream.close()

    async def __anext__(self):
        if self.stream is None:
            self.stream = await self.open_()
        e = await self.stream.next()
        if e is None:
            raise StopAsyncIteration
        return {"type": e[0], "object": self.conv(e[1]), "raw_object": e[1]}


class DuckListWatch:
    def __init__(self, api, plural, typed, lazy, ns=None):
        self.api, self.plural, self.typed, self.lazy, self.ns = api, plural, typed, lazy, ns

    def conv(self, raw):
        if not self.typed:
            return raw
        if raw["kind"] == "Status":
            return raw
        if raw["kind"] != KINDS[self.plural][0]:
            return Junk(raw)
        return Obj(raw)

    async def list(self, options):
        raw = await self.api.list(self.plural, self.ns, options)
        return ObjList(raw) if self.typed else raw

    async def watch(self, options):
        options = dict(options)

        def open_():
            return self.api.watch(self.plural, self.ns, options)

        w = DuckWatch(open_, self.conv)
        if not self.lazy:
            w.stream = await open_()
        return w


# ------------------------------------------------------------------ HTTP front end
class Content:
    def __init__(self, stream, api):
        self.stream, self.api = stream, api

    async def readline(self):
        e = await self.stream.next()
        if e is None:
            return b""
        typ, raw = e
        if raw["kind"] == "Gadget":
            return b"{ this is not json\n"
        return json.dumps({"type": typ, "object": raw}).encode() + b"\n"


class Resp:
    def __init__(self, code, reason, body=b"", stream=None, api=None):
        self.status, self.reason, self.body = code, reason, body
        self.headers = {"content-type": "application/json"}
        self.stream = stream
        if stream:
            self.content = Content(stream, api)

    async def read(self):
        return self.body

    def release(self):
        if self.stream:
            self.stream.close()

    close = release


class Session:
    """Stands in for aiohttp.ClientSession."""

    async def close(self):
        pass

    async def request(self, method, url, data=None, **kw):
        api = boot.active.api
        u = urlsplit(url)
        q = {k: v[-1] for k, v in parse_qs(u.query).items()}
        query = {re.sub("[A-Z]", lambda m: "_" + m[0].lower(), k): v for k, v in q.items()}
        m = re.fullmatch(r"/api(?:s/[^/]+)?/v1(?:/namespaces/(?P<ns>[^/]+))?/(?P<p>[a-z]+)(?:/(?P<n>[^/]+))?", u.path)
        if not m:
            return Resp(404, "Not Found", json.dumps(status(404, "NotFound")).encode())
        ns, plural, name = m["ns"], m["p"], m["n"]
        try:
            if method == "GET" and not name:
                if query.get("watch", "").lower() == "true":
                    s = await api.watch(plural, ns, query)
                    s.open()
                    return Resp(200, "OK", stream=s, api=api)
                out = await api.list(plural, ns, query)
            else:
                from dst.core import node

                body = json.loads(data) if data else None
                if name is None:
                    name = body["metadata"]["name"]
                key = f"{ns}/{name}" if ns else name
                out = await api.single(node.get(), method.lower(), plural, key, body)
        except ApiError as e:
            return Resp(e.status, e.reason, json.dumps(status(e.status, e.reason)).encode())
        except Lost as e:
            import aiohttp

            raise aiohttp.ClientConnectionError(str(e)) from None
        return Resp(200, "OK", json.dumps(out).encode())


def install_http():
    """Puts Session under the real kubernetes_asyncio client; before aiok8s.controller is imported."""
    from kubernetes_asyncio.client import rest

    real = rest.RESTClientObject
    if getattr(real, "simulated", False):
        return

    class RESTClientObject(real):
        simulated = True

        def __init__(self, configuration, pools_size=4, maxsize=None):
            self.server_hostname = None
            self.proxy = None
            self.proxy_headers = None
            self.pool_manager = Session()

    rest.RESTClientObject = RESTClientObject
    from kubernetes_asyncio.client import api_client

    api_client.rest.RESTClientObject = RESTClientObject
