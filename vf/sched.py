"""Perturbs the schedules of threads running hdf5storage and watches them.

Line events (sys.monitoring) of the code under test call into ``Sched``, which
makes the thread sleep at some of them, so that other threads run in between.
The places where control went from one thread to another are recorded.
"""
import os
import random
import sys
import threading
import time

from vf.env import SRC

TOOL = 4
_cur = [None]
_on = [False]


def _line(code, line):
    fn = code.co_filename
    if not fn.startswith(SRC):
        return sys.monitoring.DISABLE
    s = _cur[0]
    if s is not None:
        s.hit(fn, line)


def start():
    if not _on[0]:
        sys.monitoring.use_tool_id(TOOL, "vf")
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)
        _on[0] = True
    sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)


def stop():
    sys.monitoring.set_events(TOOL, 0)


class Sched:
    def __init__(self, seed):
        r = random.Random(seed)
        self.seed = seed
        self.p = r.choice([0.0, 0.002, 0.01, 0.03])
        self.slow = r.choice([3, 7, 17, 41])
        self.salt = r.randrange(1 << 30)
        self.pslow = r.choice([0.0, 0.05, 0.2])
        self.nap = r.choice([0.0, 0.0002, 0.001])
        # mostly at the lines of the File methods
        self.top = r.choice([0.0, 0.0, 0.15, 0.4])
        if self.top:
            self.p = self.pslow = 0.002
            self.nap = r.choice([0.0005, 0.002])
        self.local = threading.local()
        self.last = None
        self.switches = []
        self.hits = 0
        self.naps = 0

    def register(self, i):
        self.local.i = i
        self.local.r = random.Random("%s/%s" % (self.seed, i))

    def hit(self, fn, line):
        r = getattr(self.local, "r", None)
        if r is None:
            return
        self.hits += 1
        i = self.local.i
        if self.last != i:
            self.last = i
            if len(self.switches) < 4000:
                self.switches.append((i, os.path.basename(fn), line))
        x = r.random()
        slow = (line * 2654435761 + self.salt) % self.slow == 0
        if x < (self.top if self.top and fn.endswith("__init__.py") else self.pslow if slow else self.p):
            self.naps += 1
            time.sleep(self.nap)

    def __enter__(self):
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(random.Random(self.seed).choice([1e-6, 1e-5, 1e-4, 0.005]))
        _cur[0] = self
        start()
        return self

    def __exit__(self, *a):
        stop()
        _cur[0] = None
        sys.setswitchinterval(self.interval)


def run_threads(funcs, sched, timeout=40.0):
    """Runs the functions in threads that start together.

    Returns None or what went wrong.
    """
    bar = threading.Barrier(len(funcs))
    errs = []

    def body(i, f):
        sched.register(i)
        try:
            bar.wait(30)
            f()
        except BaseException as e:  # reported by the caller
            import traceback
            errs.append((i, "%s" % "".join(traceback.format_exception(e))[-1500:]))

    ts = [threading.Thread(target=body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
    for t in ts:
        t.start()
    end = time.monotonic() + timeout
    for t in ts:
        t.join(max(0.0, end - time.monotonic()))
    stuck = [i for i, t in enumerate(ts) if t.is_alive()]
    if stuck:
        frames = sys._current_frames()
        import traceback
        where = ["".join(traceback.format_stack(frames[ts[i].ident])[-4:]) for i in stuck if ts[i].ident in frames]
        return "threads %s did not end within %d s:\n%s" % (stuck, timeout, "\n".join(where)[:1500])
    if errs:
        return "thread %d: %s" % errs[0]
    return None


def linearizable(hist, init, step):
    """Wing and Gong's algorithm with memoization.

    hist is a list of (invoked, returned, op); step(state, op) gives the new
    state or None when op's recorded result isn't possible in state; states
    must be hashable.  Returns an order of indices or None.
    """
    n = len(hist)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init, ())]
    while stack:
        done, state, order = stack.pop()
        if done == full:
            return order
        if (done, state) in seen:
            continue
        seen.add((done, state))
        limit = min(hist[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n - 1, -1, -1):
            if done >> i & 1 or hist[i][0] > limit:
                continue
            ns = step(state, hist[i][2])
            if ns is not None:
                stack.append((done | 1 << i, ns, order + (i,)))
    return None
