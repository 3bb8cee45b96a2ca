"""A virtual clock behind Python's time functions, and a virtual in-order device whose
work completes at virtual times.  Install before importing the code under test (so that
``from time import perf_counter`` is covered too); inactive unless a plan runs."""
import time as _time

_REAL = {}
_clock = [None]
# (name, which reading, integer nanoseconds)
_FUNCS = [("perf_counter", "mono", False), ("perf_counter_ns", "mono", True), ("monotonic", "mono", False),
          ("monotonic_ns", "mono", True), ("time", "wall", False), ("time_ns", "wall", True),
          ("process_time", "cpu", False), ("process_time_ns", "cpu", True), ("thread_time", "cpu", False)]


class Clock:
    """mono never goes back; wall = mono + an offset that may jump; cpu advances only while the host works."""

    def __init__(self, start=1024.0, wall=1.7e9):
        self.mono, self.off, self.cpu = float(start), float(wall), 0.0
        self.reads = 0
        self.device_free = 0.0

    def work(self, d):                      # host computing
        self.mono += d
        self.cpu += d

    def sleep_until(self, t):               # host waiting
        if t > self.mono:
            self.mono = t

    def jump(self, d):
        self.off += d

    @property
    def wall(self):
        return self.mono + self.off

    def dispatch(self, d):
        """Queue d of work on the device; returns the time it is done."""
        self.device_free = max(self.device_free, self.mono) + d
        return self.device_free


def install():
    if _REAL:
        return
    for name, which, ns in _FUNCS:
        real = getattr(_time, name)
        _REAL[name] = real

        def f(real=real, which=which, ns=ns):
            c = _clock[0]
            if c is None:
                return real()
            c.reads += 1
            v = getattr(c, which)
            return int(round(v * 1e9)) if ns else v
        f.__name__ = name
        setattr(_time, name, f)


class active:
    def __init__(self, clock):
        self.c = clock

    def __enter__(self):
        _clock[0] = self.c
        return self.c

    def __exit__(self, *a):
        _clock[0] = None
