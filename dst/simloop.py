"""A deterministic asyncio event loop: virtual time, seeded choice of the next task step.

Plain callbacks keep their order among themselves, the steps of one task keep theirs; which of
the runnable tasks (or the callback queue) goes next is decided by the Chooser."""
import asyncio
import collections
import heapq
import math

from .base import Hang, SimDeadlock, SimLivelock


class SimLoop(asyncio.BaseEventLoop):

    def __init__(self, chooser, max_steps=200000, on_step=None):
        super().__init__()
        self.chooser = chooser
        self.max_steps = max_steps
        self.steps = 0
        self.now = 0.0
        self.on_step = on_step
        self.exceptions = []
        self.set_exception_handler(lambda loop, c: self.exceptions.append(c))

    # virtual time
    def time(self):
        return self.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    @staticmethod
    def _owner(handle):
        o = getattr(handle._callback, "__self__", None)
        return o if isinstance(o, asyncio.Task) else None

    def _run_once(self):
        if Hang.raised:
            raise Hang("time limit of one run")
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
        while self._ready and self._ready[0]._cancelled:
            self._ready.popleft()
        if not self._ready:
            if not self._scheduled:
                if self._stopping:
                    return
                raise SimDeadlock("nothing left to run")
            self.now = max(self.now, self._scheduled[0]._when)
        while self._scheduled and self._scheduled[0]._when <= self.now:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)
        # one candidate per owner: its oldest handle
        cands, seen = [], set()
        for h in self._ready:
            if h._cancelled:
                continue
            o = self._owner(h)
            key = id(o) if o is not None else None
            if key not in seen:
                seen.add(key)
                cands.append(h)
        if not cands:
            self._ready.clear()
            return
        h = cands[self.chooser.choose(len(cands))]
        self._ready.remove(h)
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimLivelock(f"no end after {self.max_steps} task steps")
        if self.on_step is not None:
            self.on_step(self, h)
        h._run()

    async def shutdown_default_executor(self, timeout=None):
        self._executor_shutdown_called = True


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    """Every event loop made by the code under test is a SimLoop of the current run."""

    def __init__(self, make):
        super().__init__()
        self._make = make

    def new_event_loop(self):
        return self._make()


class loops:
    """with loops(chooser) as L: ... ; loops opened inside are simulated; closes them all."""

    def __init__(self, chooser, max_steps=200000, on_step=None):
        self.chooser, self.max_steps, self.on_step = chooser, max_steps, on_step
        self.made = []

    def make(self):
        l = SimLoop(self.chooser, self.max_steps, self.on_step)
        self.made.append(l)
        return l

    def __enter__(self):
        self._old = asyncio.get_event_loop_policy()
        asyncio.set_event_loop_policy(SimPolicy(self.make))
        return self

    def __exit__(self, *a):
        asyncio.set_event_loop_policy(self._old)
        for l in self.made:
            if not l.is_closed():
                try:
                    for t in asyncio.all_tasks(l):
                        t._log_destroy_pending = False
                    l.close()
                except Exception:
                    pass
        return False

    @property
    def steps(self):
        return sum(l.steps for l in self.made)

    @property
    def simtime(self):
        return sum(l.now for l in self.made)

    def run(self, coro):
        """Run one coroutine to its end on a fresh simulated loop."""
        l = self.make()
        asyncio.set_event_loop(l)
        try:
            return l.run_until_complete(coro)
        finally:
            for t in asyncio.all_tasks(l):
                t._log_destroy_pending = False
            asyncio.set_event_loop(None)


class _BudgetMixin:
    """Queue with a budget of operations and, if asked, seeded extra suspension points. A real
    queue may suspend its caller at any put or get, so both are legal behaviours of the seam."""
    budget = [math.inf]
    chooser = None
    rate = 0.0

    @classmethod
    def _spend(cls):
        _BudgetMixin.budget[0] -= 1
        if _BudgetMixin.budget[0] < 0:
            raise SimLivelock("queue operation budget used up: the operation does not terminate")

    async def put(self, item):
        self._spend()
        if self.chooser is not None and self.chooser.chance(self.rate):
            await asyncio.sleep(0)
        await super().put(item)

    async def get(self):
        self._spend()
        if self.chooser is not None and self.chooser.chance(self.rate):
            await asyncio.sleep(0)
        return await super().get()

    def put_nowait(self, item):
        self._spend()
        super().put_nowait(item)


def queue_types():
    """asyncio's queues with the budget and suspension points of the current run"""
    if _TYPES:
        return _TYPES
    for n in ("Queue", "LifoQueue", "PriorityQueue"):
        _TYPES[n] = type(n, (_BudgetMixin, getattr(asyncio.queues, n)), {})
    return _TYPES


_TYPES = {}


class sim_queues:
    """asyncio's queues replaced while a module of the code under test is imported, so that queues it makes
    once and for all are simulated as well"""

    def __init__(self, simulated=True):
        self.simulated = simulated

    def __enter__(self):
        self._old = {n: getattr(asyncio, n) for n in ("Queue", "LifoQueue", "PriorityQueue")}
        for n, t in queue_types().items():
            setattr(asyncio, n, t if self.simulated else getattr(asyncio.queues, n))
        return self

    def __exit__(self, *a):
        for n, t in self._old.items():
            setattr(asyncio, n, t)
        return False


class buggify_queues(sim_queues):
    """Replace asyncio's queues for the time of a run."""

    def __init__(self, budget=400000, chooser=None, rate=0.0):
        super().__init__()
        self.budget, self.chooser, self.rate = budget, chooser, rate

    def __enter__(self):
        _BudgetMixin.budget = [self.budget]
        _BudgetMixin.chooser = self.chooser
        _BudgetMixin.rate = self.rate
        return super().__enter__()

    def __exit__(self, *a):
        _BudgetMixin.budget, _BudgetMixin.chooser, _BudgetMixin.rate = [math.inf], None, 0.0
        return super().__exit__(*a)
