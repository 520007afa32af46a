"""Shared types: what a simulated run returns, and what a property check provides."""
import hashlib
import json


class Result:
    def __init__(self):
        self.viol = []          # (class, message)
        self.stats = {}
        self.states = set()
        self.sim_us = 0
        self.log = hashlib.sha256()
        self.nontrivial = False
        self.notes = []

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def violate(self, cls, msg):
        self.viol.append((cls, str(msg)[:600]))

    def record(self, *what):
        self.log.update(repr(what).encode())

    def state(self, *what):
        self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

    def digest(self):
        return self.log.hexdigest()[:16]


class Property:
    id = None
    needs_tf = True
    quick_runs = 100
    thorough_runs = 2000
    run_timeout = 150
    level = "exploration"
    technique = ""
    level_note = ""
    rule = ""
    real = []
    stub = []
    assumptions = []
    min_ops = 1
    collect_every = 0
    state_measure = ""

    def generate(self, seed, tier):
        raise NotImplementedError

    def execute(self, plan):
        raise NotImplementedError

    # -- minimisation: smaller plans, most drastic first
    def shrink(self, plan):
        ops = plan.get("ops", [])
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                cand = dict(plan)
                cand["ops"] = ops[:i] + ops[i + size:]
                if len(cand["ops"]) >= self.min_ops:
                    yield cand
            size //= 2
        for i, op in enumerate(ops):
            for smaller in self.shrink_op(op):
                cand = dict(plan)
                cand["ops"] = ops[:i] + [smaller] + ops[i + 1:]
                yield cand

    def shrink_op(self, op):
        for key in ("faults", "trig"):
            if op.get(key):
                small = dict(op)
                del small[key]
                yield small
                if len(op[key]) > 1:
                    for j in range(len(op[key])):
                        small = dict(op)
                        small[key] = op[key][:j] + op[key][j + 1:]
                        yield small
        for key in ("scribble", "buffer", "layout", "fault", "gap", "window"):
            if op.get(key) not in (None, False, 0, "C"):
                small = dict(op)
                del small[key]
                yield small
        for key in ("n", "imgs"):
            v = op.get(key)
            if isinstance(v, int) and v > 1:
                small = dict(op)
                small[key] = v // 2
                yield small
            if isinstance(v, list) and len(v) > 1:
                small = dict(op)
                small[key] = v[:-1]
                yield small


def canonical(plan):
    return json.dumps(plan, sort_keys=True)


def plan_digest(plan):
    return hashlib.sha1(canonical(plan).encode()).hexdigest()[:12]
