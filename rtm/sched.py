"""Schedule perturbation for threaded code: random micro-delays at call boundaries of the code under test."""
import contextlib
import random
import sys
import threading
import time


class Perturber:
    """Injects delays in every thread started while active; counts what it saw."""

    def __init__(self, seed: int, prob: float = 0.05, max_s: float = 0.002, match: str = "/corrct/"):
        self.seed, self.prob, self.max_s, self.match = seed, prob, max_s, match
        self.calls = 0
        self.delays = 0
        self.threads: set[int] = set()
        self.trace: list[tuple[int, str]] = []
        self._local = threading.local()
        self._n = 0
        self._lock = threading.Lock()

    def _prof(self, frame, event, arg):
        if event not in ("call", "return"):
            return
        code = frame.f_code
        if self.match not in code.co_filename:
            return
        loc = self._local
        rng = getattr(loc, "rng", None)
        if rng is None:
            with self._lock:
                self._n += 1
                loc.idx = self._n
            rng = loc.rng = random.Random(self.seed * 1000 + loc.idx)
            self.threads.add(loc.idx)
        self.calls += 1
        if event == "call" and len(self.trace) < 4000:
            self.trace.append((loc.idx, code.co_name))
        if rng.random() < self.prob:
            self.delays += 1
            time.sleep(rng.random() * self.max_s)

    def signature(self):
        """The observed interleaving: sequence of (thread, function) with consecutive duplicates collapsed."""
        out, prev = [], None
        for t in self.trace:
            if t != prev:
                out.append(t)
            prev = t
        return hash(tuple(out)) & 0xFFFFFFFF

    def switches(self):
        return sum(1 for a, b in zip(self.trace, self.trace[1:]) if a[0] != b[0])


@contextlib.contextmanager
def perturbed(seed: int, prob: float = 0.05, max_s: float = 0.002, switch_interval: float = 1e-5):
    p = Perturber(seed, prob, max_s)
    old = sys.getswitchinterval()
    threading.setprofile(p._prof)
    sys.setswitchinterval(switch_interval)
    try:
        yield p
    finally:
        threading.setprofile(None)  # type: ignore[arg-type]
        sys.setswitchinterval(old)


class ThreadWatch:
    """Counts live threads before/after a region (leak monitor)."""

    def __enter__(self):
        self.before = set(threading.enumerate())
        return self

    def __exit__(self, *a):
        return False

    def leaked(self, grace_s: float = 2.0):
        t0 = time.monotonic()
        while True:
            extra = [t for t in threading.enumerate() if t not in self.before and t.is_alive() and "tqdm" not in t.name]
            if not extra or time.monotonic() - t0 > grace_s:
                return extra
            time.sleep(0.01)
