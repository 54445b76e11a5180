"""Real threads under pressure: random delays at line granularity inside chosen source files, tiny switch intervals, a watchdog for the event loop."""
import sys, os, threading, time, random
import vsim
from sippy.Core.EventDispatcher import ED2

class Jitter:
    """while active, threads running code of the given sippy files are held up at random lines"""
    def __init__(self, files, seed, p = .05, most = .002):
        self.files = tuple(os.path.join(os.path.realpath(vsim.REPO), 'sippy', f) for f in files)
        self.rng, self.p, self.most = random.Random(seed), p, most
        self.hits, self.path = 0, []
    def _glob(self, frame, ev, arg):
        f = frame.f_code.co_filename
        if f in self.files: return self._local
    def _local(self, frame, ev, arg):
        if ev == 'line' and self.p:
            r = self.rng.random()
            if r < self.p:
                self.hits += 1
                if len(self.path) < 400: self.path.append((threading.get_ident() & 0xffff, frame.f_lineno))
                # most of the time give the processor away, at times for long enough that others get far
                time.sleep(0 if r < self.p * .6 else self.rng.random() * self.most)
        return self._local
    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(self.rng.choice([1e-6, 1e-5, 1e-4, .005]))
        threading.settrace(self._glob)
        sys.settrace(self._glob)
        return self
    def __exit__(self, *a):
        self.p = 0
        sys.settrace(None)
        threading.settrace(None)
        sys.setswitchinterval(self.old)
    @property
    def sig(self):
        ids = {}
        return hash(tuple((ids.setdefault(t, len(ids)), l) for t, l in self.path))

def loop(cond, tmo, poll = .01):
    """run the event loop until cond() or the time is over; True if cond() held"""
    from sippy.Time.Timeout import Timeout
    end = time.monotonic() + tmo
    ok = [False]
    def tick():
        if cond(): ok[0] = True; ED2.breakLoop()
        elif time.monotonic() > end: ED2.breakLoop()
    t = Timeout(tick, poll, -1)
    try: ED2.loop()
    finally: t.cancel()
    return ok[0]

class noisy:
    """silences what the code prints, keeps it"""
    def __enter__(self):
        import io
        self.o = sys.stdout
        sys.stdout = self.b = io.StringIO()
        return self.b
    def __exit__(self, *a): sys.stdout = self.o
