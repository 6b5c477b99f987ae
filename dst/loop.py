"""A virtual-time asyncio event loop: one seed decides timer ties, stalls and set orders.

Ready callbacks keep asyncio's documented FIFO order. Interleavings vary because every task of the
environment (clients, handlers, simulated network) pauses for seeded numbers of loop iterations or
amounts of simulated time, because equal deadlines are ordered by a seeded jitter, and because seeded
stalls let simulated time pass while callbacks are waiting.
"""
import asyncio
import heapq


class SimDeadlock(Exception):
    """Nothing is runnable and no timer is pending."""


class SimLong(Exception):
    """The run takes too long for a verdict."""


class SimStepLimit(Exception):
    """The step limit was reached: the system spins without progress."""


class SimTask(asyncio.Task):
    """Hash decided by the simulation, so that sets of tasks iterate reproducibly."""

    def __init__(self, coro, *, loop, **kw):
        self._sim_hash = loop._next_hash()
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._sim_hash


class SimFuture(asyncio.Future):
    def __init__(self, *, loop):
        self._sim_hash = loop._next_hash()
        super().__init__(loop=loop)

    def __hash__(self):
        return self._sim_hash


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, sim):
        super().__init__()
        self._sim = sim
        self.vtime = 0.0
        self._clock_resolution = 1e-9
        self.steps = 0
        self.iterations = 0
        self.max_steps = sim.max_steps  # time has to pass from then on
        self.progress = 0.0
        self.tie = sim.rng("loop.ties").random
        self.hashes = sim.rng("loop.hashes").getrandbits
        self.all_tasks = {}
        self.fingerprint = 0
        self.on_iteration = []
        self.unhandled = []
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._handler)

    # nondeterminism seams
    def _next_hash(self):
        return self.hashes(48)

    def _factory(self, loop, coro, **kw):
        task = SimTask(coro, loop=loop, **kw)
        self.all_tasks[id(task)] = task
        task.add_done_callback(self._forget)
        return task

    def _forget(self, task):
        self.all_tasks.pop(id(task), None)

    def _handler(self, loop, context):
        e = context.get("exception")
        self.unhandled.append((context.get("message"), repr(e)))

    def live_tasks(self):
        return [t for t in self.all_tasks.values() if not t.done()]

    def create_future(self):
        return SimFuture(loop=self)

    def time(self):
        return self.vtime

    def call_at(self, when, callback, *args, context=None):
        return super().call_at(
            when + self.tie() * 1e-6, callback, *args, context=context
        )

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        if self._sim.hung:
            raise self._sim.hang_error
        if self._sim.long:
            raise SimLong
        ready, sched = self._ready, self._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
            self._timer_cancelled_count -= 1
        if not ready and not self._stopping:
            if not sched:
                raise SimDeadlock
            if sched[0]._when > self.vtime:
                self.vtime = sched[0]._when
        self._sim.maybe_stall()
        end = self.vtime + self._clock_resolution
        while sched and sched[0]._when <= end:
            h = heapq.heappop(sched)
            h._scheduled = False
            if h._cancelled:
                self._timer_cancelled_count -= 1
            else:
                ready.append(h)
        n = len(ready)
        self.iterations += 1
        self.steps += n
        self.fingerprint = (self.fingerprint * 1000003 + n + int(self.vtime * 1e6)) & (
            (1 << 61) - 1
        )
        if self.steps > self.max_steps:
            if self.vtime < self.progress + 5.0:
                raise SimStepLimit
            self.progress = self.vtime
            self.max_steps += 200_000
        for _ in range(n):
            h = ready.popleft()
            if not h._cancelled:
                h._run()
        h = None
        for f in self.on_iteration:
            f()
