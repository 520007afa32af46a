"""A deterministic scheduler for real threads: one runs at a time, control changes hands only at chosen points."""
import os
import sys
import threading
import time

from . import env, seams


class Abandoned(BaseException):
    pass


def others_running():
    """Does any thread of this process other than the caller run or wait for a processor?"""
    me = threading.get_native_id()
    for t in os.listdir("/proc/self/task"):
        if int(t) == me:
            continue
        try:
            with open("/proc/self/task/%s/stat" % t) as f:
                if f.read().rsplit(")", 1)[1].split()[0] in "RD":
                    return True
        except OSError:
            pass
    return False


class Baton:
    """Threads are numbered; `turn` is the one allowed to run. Control passes at points according to the plan:
    handovers[(thread, op)] = {point: next thread}, faults[(thread, op)] = (point, exception)."""

    def __init__(self, n, handovers, faults=None, patience=0.5, max_forced=4):
        self.n, self.handovers, self.faults = n, handovers, faults or {}
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False] * n
        self.op = [None] * n
        self.points = [0] * n
        self.inner = [0] * n       # points inside Python parts of TensorFlow functions (transforms)
        self.trace = []            # (thread, op, point, to) of every handover that took place
        self.kinds = {}
        self.patience, self.max_forced = patience, max_forced
        self.forced = 0
        self.stop = False
        self.beat = time.monotonic()
        self.faulted = {}

    # -- called by the threads
    def begin_op(self, t, op):
        with self.cv:
            self.op[t], self.points[t], self.inner[t] = op, 0, 0
        self.point("call", t)

    def wait_turn(self, t):
        with self.cv:
            while self.turn != t and not self.stop:
                self.cv.wait(0.5)
            self.beat = time.monotonic()
            if self.stop:
                raise Abandoned()

    def point(self, kind, t):
        """A point at which control may change hands."""
        with self.cv:
            k = self.points[t]
            self.points[t] = k + 1
            self.beat = time.monotonic()
            key = (t, self.op[t])
            name = None
            if kind in ("transform", "transform done", "inner line"):
                if self.forced:            # whose call this is is no longer certain
                    return
                name = "T%d" % self.inner[t]
                self.inner[t] += 1
            plan = self.handovers.get(key, {}) if (self.forced < self.max_forced or kind == "call") else {}
            to = plan.get(k, plan.get(name))
            if to is not None and to != t and not self.done[to] and self.turn == t:
                self.trace.append((t, self.op[t], k, to))
                self.kinds[kind] = self.kinds.get(kind, 0) + 1
                self.turn = to
                self.cv.notify_all()
            mine = self.turn == t
        if not mine:
            self.wait_turn(t)
        f = self.faults.get(key)
        if f and kind != "call" and key not in self.faulted and f[0] in (k, name):
            self.faulted[key] = kind
            raise f[1]("injected")

    def finish(self, t):
        with self.cv:
            self.done[t] = True
            self.beat = time.monotonic()
            if self.turn == t:
                rest = [u for u in range(self.n) if not self.done[u]]
                if rest:
                    self.turn = rest[0]
            self.cv.notify_all()

    # -- called by the main thread
    def watch(self, limit):
        """Until all are done. A thread that cannot go on because another holds a lock is passed over. Returns False if all are stuck."""
        t_end = time.monotonic() + limit
        while True:
            with self.cv:
                if all(self.done):
                    return True
                self.cv.wait(0.25)
                if all(self.done):
                    return True
                now, beat = time.monotonic(), self.beat
                if now > t_end:
                    self.stop = True
                    self.cv.notify_all()
                    return False
            if now - beat > self.patience and self.asleep(beat):
                with self.cv:
                    rest = [(self.turn + d) % self.n for d in range(1, self.n) if not self.done[(self.turn + d) % self.n]]
                    if rest and self.beat == beat:
                        self.turn = rest[0]
                        self.forced += 1
                        self.beat = time.monotonic()
                        self.cv.notify_all()

    def asleep(self, beat):
        for _ in range(10):
            if others_running() or self.beat != beat:
                return False
            time.sleep(0.02)
        return True


class Lines:
    """Every line of the library that the current thread executes outside graph tracing is a point of thread t."""

    def __init__(self, baton, t, kind="line"):
        self.baton, self.t, self.kind = baton, t, kind

    def globaltrace(self, frame, event, arg):
        if event != "call" or not env.is_lib_file(frame.f_code.co_filename) or seams.tracing():
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.baton.point(self.kind, self.t)
        return self.local

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self.globaltrace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)
        return False


def python_ops(baton):
    """tf.numpy_function / tf.py_function whose Python part also runs under the scheduler, whichever thread executes it. Returns undo."""
    tf = env.tf()
    saved = {n: getattr(tf, n) for n in ("numpy_function", "py_function")}

    def make(orig):
        @tf.autograph.experimental.do_not_convert
        def op(func=None, inp=None, Tout=None, *a, **k):
            @tf.autograph.experimental.do_not_convert
            def under_scheduler(*args):
                cur = baton()
                if cur is None:
                    return func(*args)
                t = cur.turn
                with Lines(cur, t, "inner line"):
                    return func(*args)
            return orig(under_scheduler, inp, Tout, *a, **k)
        return op
    for n, f in saved.items():
        setattr(tf, n, make(f))

    def undo():
        for n, f in saved.items():
            setattr(tf, n, f)
    return undo


def one_at_a_time():
    """TensorFlow functions called under this execute their operations one after another (no parallelism inside a call)."""
    env.tf()
    from tensorflow.python.eager import context
    return context.function_executor_type("SINGLE_THREADED_EXECUTOR")
