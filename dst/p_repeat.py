"""C18: the same seeded session twice, with every other source of nondeterminism changed in between, and in other processes."""
import gc
import math
import os
import random
import time

import numpy as np

from . import env, gen, lab, p_history, seams
from .core import Property, Result
from .p_random import probability
from .p_threads import differs
from .p_update import describe
from .rng import rand


class Weather:
    """The state of everything else: other random sources, clocks, addresses, environment."""

    def __init__(self, w):
        self.w = w
        self.saved = {}

    def __enter__(self):
        w = self.w
        self.np_state, self.py_state = np.random.get_state(), random.getstate()
        if w["np"] is not None:
            np.random.seed(w["np"])
        if w["py"] is not None:
            random.seed(w["py"])
        self.ballast = [bytearray(64 + 16 * (i % 7)) for i in range(w["ballast"])]
        self.gc = gc.isenabled()
        if w["gc"] == "off":
            gc.disable()
        if w["clock"]:
            self.clock(w["clock"])
        os.environ["VERIF_WEATHER"] = str(w["np"])
        return self

    def clock(self, c):
        """Clocks that are off by c["offset"] seconds and run c["rate"] times as fast."""
        off, rate = c["offset"], c["rate"]
        for name in ("time", "monotonic", "perf_counter"):
            real = self.saved[name] = getattr(time, name)
            t0 = real()
            setattr(time, name, lambda real=real, t0=t0: t0 + off + (real() - t0) * rate)
        for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
            real = self.saved[name] = getattr(time, name)
            t0 = real()
            setattr(time, name, lambda real=real, t0=t0: int(t0 + off * 1e9 + (real() - t0) * rate))

    def step(self, k):
        if self.w["between"] == "draw":
            np.random.random(3 + k % 5)
            random.random()
        elif self.w["between"] == "seed":
            np.random.seed(k)
            random.seed(k)
        if self.w["gc"] == "often":
            gc.collect(0)
            self.ballast.append(object())

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(time, name, f)
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)
        if self.gc:
            gc.enable()
        os.environ.pop("VERIF_WEATHER", None)
        return False


def weather(r):
    return {"np": r.choice([None, 0, 1, r.randrange(10 ** 6)]), "py": r.choice([None, 0, r.randrange(10 ** 6)]), "ballast": r.choice([0, 10, 1000]), "gc": r.choice(["on", "off", "often"]),
            "clock": r.choice([None, {"offset": r.choice([-3600.0, 0.25, 86400.0 * 400]), "rate": r.choice([0.5, 1.0, 1000.0])}]), "between": r.choice(["nothing", "draw", "seed"])}


class C18(Property):
    id = "C18"
    quick_runs = 150
    thorough_runs = 4500
    collect_every = 5
    rechecks = 40
    recheck_workers = 8
    digest_is_property = True
    technique = ("deterministic simulation of everything nondeterministic around the library (other random sources, clocks, addresses, collection, hash seeds, processes); "
                 "the same seeded session must give the same bits, another seed another hologram")
    rule = ("A case is a seeded session of 5-16 operations on 1-2 modulators with TensorFlow's real generator, seeded before or after import, failing calls included, executed twice in one process under "
            "different states of numpy's and Python's generators, clocks (jumped, fast, slow), garbage collection and heap, once more with another seed, and for a sample of the cases in further "
            "processes with other hash seeds. Non-trivial: at least two operations that draw random numbers.")
    real = ["pySLM2 (slm, simulation, _lib, _backend), two or three times", "TensorFlow kernels and random generator", "numpy FFT"]
    stub = ["clocks", "state of the other random sources", "failures"]
    assumptions = ["same machine, same TensorFlow build, as many TensorFlow threads in both sessions"]
    state_measure = "hash of (operation kinds, when the seed was set, weather of the second session)"
    level_note = "Seeded search; sources of nondeterminism that were not varied (processor type, TensorFlow version) are outside."

    def generate(self, seed, tier):
        r = rand("C18", seed)
        slms = [gen.slm_spec(r, "dmd" if r.random() < 0.7 else "lcos", sizes=[(24, 16), (16, 24), (20, 20), (32, 24)]) for _ in range(r.choice([1, 1, 2]))]
        sims = [{"slm": i, "padx": r.choice([0, 2]), "pady": 0} for i in range(len(slms))]
        plan = {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "sims": sims, "seed": r.choice([0, 1, 42, r.randrange(2 ** 31)]),
                "when": r.choice(["before", "after"]), "weather": [weather(r), weather(r), weather(r)]}
        plan["other"] = r.choice([plan["seed"] + 1, plan["seed"] + 1000003, (plan["seed"] * 7 + 3) % 2 ** 31])
        methods = r.choice([["random"], ["random"], ["random", "ifta"], ["random", "ideal"]])
        ops = []
        for _ in range(r.randint(4, 13)):
            k = r.randrange(len(slms))
            s = slms[k]
            q = r.random()
            if q < 0.7 or not ops:
                if s["kind"] == "lcos":
                    op = gen.hologram(r, k, s, how="array")
                else:
                    op = r.choice([gen.calc, gen.calc, gen.grating, gen.patch])(r, k, s, methods, "array") if methods != ["random", "ifta"] else gen.calc(r, k, s, methods, "array")
                    if op["op"] == "calc":
                        op["input"] = gen.as_arg(r, gen.bright_beam(r, s), r.choice(["array", "array", "profile"]))
                    if r.random() < 0.4 and op["method"] == "random":
                        op["kw"] = {"r": 1.0}
                if ops and r.random() < 0.3 and ops[-1]["op"] in ("calc", "grating", "hologram"):
                    op = dict(ops[-1])
                    op.pop("fault", None)
            else:
                op = {"op": "prop", "sim": k, "input": gen.as_arg(r, gen.beam(r, s), "array")}
            if r.random() < 0.1:
                op["fault"] = gen.call_fault(r, 20)
            ops.append(op)
        plan["ops"] = ops
        return plan

    def shrink_op(self, op):
        if op.get("fault"):
            yield {k: v for k, v in op.items() if k != "fault"}

    def session(self, plan, seed, w, res=None):
        tf = env.tf()
        with Weather(w) as weather_:
            if plan["when"] == "before":
                a = lab.Lab(plan, seam=False, seed=seed, result=res)
            else:
                lib = seams.fresh_library(plan["bits"], False, None, plan["fft"])
                tf.random.set_seed(seed)
                a = lab.Lab(plan, lib=lib, result=res)
            a.neg = {i: bool(s.get("neg")) for i, s in enumerate(plan["slms"])}
            out = []
            for n, op in enumerate(plan["ops"]):
                out.append(p_history.run_op(a, op))
                weather_.step(n)
        return a, out

    def execute(self, plan):
        res = Result()
        W = plan["weather"]
        a, first = self.session(plan, plan["seed"], W[0], res)
        _, second = self.session(plan, plan["seed"], W[1])
        res.record([(k, p_history.digest(v)) for k, v in first])
        draws = 0
        for n, op in enumerate(plan["ops"]):
            (k1, v1), (k2, v2) = first[n], second[n]
            if k1 != k2:
                res.violate("not_repeatable_here", "operation %d %s ends with '%s' in one and '%s' in the other of two sessions with the seed %d" % (n, describe(op), k1, k2, plan["seed"]))
                break
            why = differs(v1, v2)
            if why:
                res.violate("not_repeatable_here", "operation %d %s: two sessions with the seed %d (set %s import) differ in %s" % (n, describe(op), plan["seed"], plan["when"], why))
                break
            draws += op.get("method") in ("random", "gs", "mraf")
        if not res.viol:
            _, third = self.session(plan, plan["other"], W[2])
            for n, op in enumerate(plan["ops"]):
                (k1, v1), (k3, v3) = first[n], third[n]
                if k1 != "ok" or k3 != "ok" or op["op"] == "prop":
                    continue
                if op.get("method") == "random" and op["op"] in ("calc", "grating"):
                    p, tol, _ = probability(a, op["slm"], op)
                    sure = tol < 0.05
                    log = float(np.log(p[sure] ** 2 + (1 - p[sure]) ** 2).sum())
                    if log < -35:
                        res.count("seeds_compared")
                        if lab.same(v1["pattern"], v3["pattern"]):
                            res.violate("seed_ignored", "operation %d %s gives the same pattern with the seeds %d and %d (chance below e^%.0f)" % (n, describe(op), plan["seed"], plan["other"], log))
                            break
                elif op.get("method") in ("gs", "mraf") and np.any(v1["pattern"]):
                    res.count("seeds_compared")
                    if lab.same(v1["pattern"], v3["pattern"]) and op["kw"]["N"] < 4:
                        res.violate("seed_ignored", "operation %d %s gives the same phases with the seeds %d and %d" % (n, describe(op), plan["seed"], plan["other"]))
                        break
        res.state([o["op"] for o in plan["ops"]][:4], plan["when"], plan["bits"], W[1]["between"], bool(W[1]["clock"]), W[1]["gc"])
        res.count("weather_changes", 1)
        for k in ("clock", "np", "py"):
            if W[0][k] != W[1][k]:
                res.count("fault:changed:" + k)
        res.nontrivial = draws >= 2
        return res


PROPS = {"C18": C18}
