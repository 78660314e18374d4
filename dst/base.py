"""Common pieces of every check: violations, outcomes, seeded randomness, choice traces."""
import asyncio
import collections
import hashlib
import json
import random


class Violation(Exception):
    """The property under test does not hold in this run."""


class Machinery(Exception):
    """The check itself cannot go on (a helper process is gone): no answer."""


class Discard(Exception):
    """The case cannot be judged (the set-up it needs did not come about)."""


class SimLivelock(Exception):
    """A run used up its step budget: no progress within the bound."""


class SimDeadlock(Exception):
    """Nothing is runnable although the main task has not finished."""


class Hang(BaseException):
    """Back stop: the time limit of a single run was hit."""
    raised = False


class Injected(Exception):
    """An error raised on purpose by a harness callback."""


# What a callback fails with: also the errors that code under test may handle for its own purposes
ERRORS = [None, KeyError, AttributeError, IndexError, ValueError, TypeError, RuntimeError, OSError, asyncio.TimeoutError,
          asyncio.QueueEmpty, ZeroDivisionError, NotImplementedError, asyncio.InvalidStateError]
_INJECTED = {}


def injected(msg, which=0):
    """an injected error that is also an ordinary one"""
    b = ERRORS[which % len(ERRORS)]
    if b is None:
        return Injected(msg)
    if b not in _INJECTED:
        _INJECTED[b] = type(f"Injected{b.__name__}", (Injected, b), {})
    return _INJECTED[b](msg)


def rng_of(*parts):
    return random.Random(":".join(str(p) for p in parts))


class Chooser:
    """Every scheduling decision of a run. Either drawn from a seed or replayed from a trace;
    decisions beyond a replayed trace are 0 (first runnable, i.e. FIFO)."""

    def __init__(self, sched):
        sched = sched or {"trace": []}
        self.trace = []
        self._replay = sched.get("trace")
        self._rng = None if self._replay is not None else rng_of("sched", sched.get("seed", 0))
        self.bias = sched.get("bias", 0.0)

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self._replay is not None:
            c = self._replay[i] % n if i < len(self._replay) else 0
        else:
            c = 0 if self._rng.random() < self.bias else self._rng.randrange(n)
        self.trace.append(c)
        return c

    def chance(self, p):
        """A biased coin, recorded as 0/1."""
        i = len(self.trace)
        if self._replay is not None:
            c = self._replay[i] % 2 if i < len(self._replay) else 0
        else:
            c = 1 if self._rng.random() < p else 0
        self.trace.append(c)
        return bool(c)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=_d).encode()).hexdigest()[:16]


def _d(x):
    if isinstance(x, (bytes, bytearray)):
        return x.hex()
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    return str(x)


class Ctx:
    """What one run reports back."""

    def __init__(self):
        self.faults = collections.Counter()
        self.ops = collections.Counter()
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = True
        self.trace = None       # schedule trace actually taken
        self.note = {}

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def op(self, kind):
        self.ops[kind] += 1

    def state(self, x):
        self.states.add(digest(x))


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg.format(*a) if a else msg)
