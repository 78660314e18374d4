"""Simulated clocks: they stall, tick coarsely, jump and run backwards on command."""
import time

from .base import need, rng_of


def make_clock(seed, mode="tick", start=1_700_000_000_000_000_000):
    from rei.foundations.clock import MetaClock

    class SimClock(MetaClock):
        def __init__(self):
            self.rng = rng_of("clock", seed)
            self.now = start
            self.mode = mode
            self.readings = []
            self.count = 0
            self.counts = {}

        def _advance(self):
            m = self.mode
            self.counts[m] = self.counts.get(m, 0) + 1
            if m == "tick":
                self.now += self.rng.randrange(1, 5000)
            elif m == "stall":
                pass
            elif m == "coarse":
                if self.rng.random() < 0.1:
                    self.now += 1_000_000
            elif m == "jump":
                self.now += self.rng.randrange(10**9, 10**13)
            elif m == "back":
                self.now = max(0, self.now - self.rng.randrange(1, 10**10))
            elif m == "epoch":
                # a machine without a battery: its time starts at zero again and again
                self.now = self.now + 1 if self.rng.random() < 0.6 and self.now < 10**6 else 0
            elif m == "unit":
                self.now += 1

        def get_time_ns(self):
            self._advance()
            self.count += 1
            self.readings.append(self.now)
            return self.now

        def get_time_sec(self):
            return self.get_time_ns() / 1e9

    return SimClock()


def local_clock(sim):
    """The library's LocalClock on a machine whose time is the simulated clock `sim` (see system_time)."""
    from rei.foundations.clock import LocalClock

    class Spy(LocalClock):
        readings = property(lambda self: self._readings, lambda self, v: setattr(self, "_readings", v))
        mode = property(lambda self: sim.mode, lambda self, m: setattr(sim, "mode", m))
        now = property(lambda self: sim.now)

        def get_time_ns(self):
            r = super().get_time_ns()
            need(abs(r - sim.now) < 2000, "the local clock reads {} when the system time is {}", r, sim.now)
            self._readings.append(r)
            return r
    c = Spy()
    c.readings = []
    return c


class system_time:
    """While active, the time of the machine is that of a simulated clock."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.old = time.time, time.time_ns
        time.time_ns = self.sim.get_time_ns
        time.time = self.sim.get_time_sec
        return self.sim

    def __exit__(self, *a):
        time.time, time.time_ns = self.old


MODES = ["tick", "stall", "coarse", "jump", "back", "unit", "epoch"]
