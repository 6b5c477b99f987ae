"""Simulation, plans, violations and results."""
import asyncio
import contextvars
import gc
import hashlib
import random
import signal
import sys
import traceback
import warnings

from dst import boot
from dst.loop import SimDeadlock, SimLong, SimLoop, SimStepLimit

gc.disable()
warnings.simplefilter("ignore")

node = contextvars.ContextVar("node", default=None)


class HarnessError(Exception):
    """The harness itself went wrong: never a verdict about the code."""


checked = None  # the property a check is about


class SimHang(BaseException):
    """A callback computed for too long without yielding."""


class Violation(dict):
    def __init__(self, prop, cls, msg):
        super().__init__(prop=prop, cls=cls, msg=msg)


def canon(x):
    """A stable text of a log payload."""
    if isinstance(x, float):
        return f"{x:.6f}"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(canon(y) for y in x) + ")"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(canon(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{canon(v)}" for k, v in x.items()) + "}"
    return str(x)


class Sim:
    hang_error = SimHang
    STUCK = 12  # CPU seconds without yielding: a hang
    LONG = 60  # CPU seconds of one run: given up without a verdict

    def __init__(self, plan, max_steps=400_000):
        self.plan = plan
        self.seed = plan["seed"]
        self.max_steps = max_steps
        self.log = []
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.seqno = 0
        self.counts = {}
        self._waiters = []
        self.stalls = []  # (start, end) in loop time
        self._stall_rng = self.rng("stall")
        st = plan.get("cfg", {}).get("stall") or {}
        self._stall_p = st.get("p", 0.0)
        self._stall_max = st.get("max", 0.0)
        self._stall_left = st.get("n", 0)
        self.wall_offset = 0.0
        self.jumps = []  # (loop time, delta)
        self.node_offset = {}
        self.hung = self.long = False
        self.nontrivial = False
        self.stats = {}
        self.loop = SimLoop(self)

    # -- randomness and clocks
    def rng(self, name):
        return random.Random(f"{self.seed}/{name}")

    @property
    def now(self):
        return self.loop.vtime

    def wall(self):
        off = self.wall_offset
        n = node.get()
        if n is not None:
            off += self.node_offset.get(n, 0.0)
        return boot.WALL0 + self.loop.vtime + off

    def mono(self):
        return 1000.0 + self.loop.vtime

    def jump(self, delta, who=None):
        """Steps the wall clock (of one node, or of all)."""
        if who is None:
            self.wall_offset += delta
        else:
            self.node_offset[who] = self.node_offset.get(who, 0.0) + delta
        self.jumps.append((self.now, delta))
        self.fault("clock_step")
        self.event("clock_step", who, round(delta, 3))

    def maybe_stall(self):
        if self._stall_left and self._stall_rng.random() < self._stall_p:
            self._stall_left -= 1
            self.stall(self._stall_rng.random() * self._stall_max, "stall")

    def stall(self, d, kind):
        a = self.loop.vtime
        self.loop.vtime = a + d
        self.stalls.append((a, a + d))
        self.fault(kind)

    def stalled(self, a, b):
        """Stall time overlapping [a, b]."""
        return sum(max(0.0, min(b, y) - max(a, x)) for x, y in self.stalls)

    # -- recording
    def seq(self):
        self.seqno += 1
        return self.seqno

    def event(self, *what):
        self.seqno += 1
        self.log.append((self.seqno, round(self.loop.vtime, 6), what))
        n = self.counts[what[0]] = self.counts.get(what[0], 0) + 1
        for w in self._waiters:
            if w[0] == what[0] and n >= w[1] and not w[2].done():
                w[2].set_result(None)
        return self.seqno

    async def instant(self, at):
        """Waits for [time, pauses] or [kind of event, its number, pauses, latest time]."""
        if isinstance(at[0], str):
            kind, n, pauses, latest = at
            if self.counts.get(kind, 0) < n:
                w = (kind, n, self.loop.create_future())
                self._waiters.append(w)
                await asyncio.wait([w[2]], timeout=max(0.0, latest - self.now))
                self._waiters.remove(w)
        else:
            t, pauses = at
            await asyncio.sleep(max(0.0, t - self.now))
        await self.pause(pauses)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, prop, cls, msg):
        if len(self.violations) < 20:
            self.event("VIOLATION", prop, cls, msg)
            self.violations.append(Violation(prop, cls, msg))

    def violated(self):
        """The property under check was violated (others' violations do not end a run early)."""
        return any(checked in (None, v.prop) for v in self.violations)

    # -- pausing: ints are loop iterations, floats simulated seconds
    async def pause(self, p):
        if isinstance(p, float):
            await asyncio.sleep(p)
        else:
            for _ in range(p):
                await asyncio.sleep(0)

    def spawn(self, coro, who=None):
        if who is None:
            return asyncio.ensure_future(coro)
        ctx = contextvars.copy_context()
        ctx.run(node.set, who)
        return self.loop.create_task(coro, context=ctx)

    def helper(self, coro):
        """A task of the harness: an exception of its own in there is the harness's fault."""
        t = asyncio.ensure_future(coro)
        t.add_done_callback(self._helper_done)
        return t

    def _helper_done(self, t):
        if not t.cancelled() and t.exception() is not None and not blames_code(t.exception()):
            self.broken = t.exception()

    broken = None

    def fail_also(self, props, cls, msg):
        """Something that breaks props[0] in itself; a check of one of the others sees that its property cannot hold either."""
        self.fail(checked if checked in props else props[0], cls, msg)

    # -- running
    def run(self, main, prop_of_crash):
        """Runs the coroutine function main(sim) to its end; a crash of the code under test that
        reaches main, or a run that never ends, is a violation of the property under check (of
        prop_of_crash outside a check); anything else raises HarnessError."""
        unjudged = checked or prop_of_crash
        loop = self.loop
        random.seed(f"{self.seed}/global")
        boot.active = self
        old = signal.signal(signal.SIGVTALRM, _hang)
        self.ticks, self.stuck, self.mark = 0, 0, -1
        signal.setitimer(signal.ITIMER_VIRTUAL, 1.0, 1.0)
        asyncio.set_event_loop(None)
        try:
            try:
                loop.run_until_complete(main(self))
            except SimStepLimit:
                self.fail(unjudged, "livelock", f"no quiescence within {loop.steps} steps")
            except SimLong:
                self.probe("given_up")
            except SimDeadlock:
                self.fail(prop_of_crash, "deadlock", "everything is blocked and no timer is pending")
            except SimHang:
                self.fail(unjudged, "hang", f"code ran {self.STUCK} CPU seconds without yielding")
            except HarnessError:
                raise
            except Exception as e:
                if blames_code(e):
                    self.fail(unjudged, "crash:" + type(e).__name__, crash_text(e))
                elif not self.violations:  # after a violation nothing can be relied on
                    raise HarnessError("".join(traceback.format_exception(e))) from e
            if self.broken is not None and not self.violations:
                raise HarnessError("".join(traceback.format_exception(self.broken))) from self.broken
            self.digest = self._digest()
        finally:
            self.hung = self.long = False
            self.ticks, self.stuck, self.mark = 0, 0, -1
            try:
                self._teardown()
            except SimHang:
                pass
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.signal(signal.SIGVTALRM, old)
                boot.active = None

    def _teardown(self):
        loop = self.loop
        self._stall_left = 0
        loop.on_iteration.clear()
        loop.max_steps = loop.steps + 50_000
        try:
            for _ in range(3):
                tasks = loop.live_tasks()
                if not tasks:
                    break
                for t in tasks:
                    t._log_destroy_pending = False
                    t.cancel()

                async def drain():
                    for _ in range(40):
                        await asyncio.sleep(0)

                loop._stopping = False  # may be left over from an interrupted run
                loop.run_until_complete(drain())
        except (SimStepLimit, SimDeadlock, SimLong):
            pass
        except RuntimeError:  # a stop of the interrupted run came late; what is left is dropped below
            pass
        for t in loop.live_tasks():
            t._log_destroy_pending = False
        loop._ready.clear()
        loop._scheduled.clear()
        loop.all_tasks.clear()
        loop.close()

    def _digest(self):
        h = hashlib.blake2b(digest_size=12)
        for seq, t, what in self.log:
            h.update(f"{seq} {t:.6f} {canon(what)}\n".encode())
        h.update(f"{self.loop.fingerprint} {self.loop.steps}".encode())
        return h.hexdigest()

    def shape(self):
        """Order of events without times: the measure of distinct interleavings."""
        h = hashlib.blake2b(digest_size=8)
        for _, _, what in self.log:
            h.update(canon(what).encode())
            h.update(b"\n")
        return h.hexdigest()


def _hang(signum, frame):
    """Once per CPU second of a run."""
    sim = boot.active
    if sim is None:
        raise SimHang
    sim.ticks += 1
    if sim.loop.iterations != sim.mark:
        sim.mark, sim.stuck = sim.loop.iterations, 0
        if sim.ticks > sim.LONG:
            sim.long = True
        return
    sim.stuck += 1
    if sim.stuck >= sim.STUCK:
        sim.hung = True
        raise SimHang


def blames_code(e):
    """True when the exception was raised below a frame of the code under test."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(boot.REPO + "/aiok8s"):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def crash_text(e):
    last = traceback.extract_tb(e.__traceback__)
    where = [f for f in last if f.filename.startswith(boot.REPO)]
    at = f" at {where[-1].filename[len(boot.REPO) + 1:]}:{where[-1].name}" if where else ""
    return f"{type(e).__name__}: {e}{at}"[:400]


sys.unraisablehook = lambda *_: None
