"""C17: several threads, each with objects of its own, under a deterministic scheduler; every thread must get what it gets alone."""
import threading

import numpy as np

from . import gen, lab, p_history, sched, seams
from .core import Property, Result
from .p_update import describe
from .rng import nprand, rand


class ThreadLab(lab.Lab):
    """A Lab whose calls run under the scheduler (the seams are set once for all threads)."""

    def call(self, op, fn, faults=True):
        out = lab.Outcome()
        try:
            out.value = fn()
        except KeyboardInterrupt as e:
            out.kind, out.exc = "interrupt", e
        except Exception as e:
            out.kind, out.exc = "error", e
        out.exc_type = type(out.exc).__name__ if out.exc is not None else None
        return out


class C17(Property):
    id = "C17"
    quick_runs = 130
    thorough_runs = 4000
    collect_every = 4
    rechecks = recheck_workers = 4
    technique = "deterministic scheduling of real threads: one runs at a time, control changes hands at seeded points (library lines, transforms, random draws); each thread's results against the same thread alone"
    rule = ("A case is 2-3 threads of 6-21 operations each on modulators, simulations and profiles of their own (plus shared profiles and arrays nobody changes), with a seeded plan of 5-1000 "
            "handovers at numbered library lines, transform entries and exits, and failures of single operations. Every result must be bit-identical to that of the same thread running alone "
            "in a fresh session. Non-trivial: at least three handovers inside operations took place.")
    real = ["pySLM2 (slm, simulation, profile, window, analysis, _lib, _backend) in several threads", "TensorFlow kernels", "numpy FFT"]
    stub = ["thread scheduler", "random source (depends on the shape only)", "failures"]
    assumptions = ["a thread waiting for a lock another thread holds is passed over (found by all threads sleeping); after four of those a run only switches between operations",
                   "control does not change hands inside TensorFlow kernels or while a function is traced"]
    state_measure = "hash of (operation and point left, operation and point entered) of a handover"
    level_note = "Seeded search over interleavings at the granularity of library lines and numpy transforms."

    # ---------------------------------------------------------------------------------------------------- generation
    def generate(self, seed, tier):
        r = rand("C17", seed)
        n = r.choice([2, 2, 2, 3])
        base = gen.slm_spec(r, sizes=[(24, 16), (16, 24), (20, 20), (21, 16)])
        shared = {"profs": [gen.beam(r, base, False, False), gen.target(r, base)], "arrs": [{"slm": 0, "plane": "f", "spec": gen.beam(r, base), "cplx": True},
                  {"slm": 0, "plane": "i", "spec": gen.target(r, base), "cplx": True}, {"slm": 0, "noise": r.randrange(10 ** 6)}]}
        methods = r.choice([["random"], ["ideal"], ["simple"], ["ifta"], ["random", "ideal"]])
        threads = []
        like = r.random()
        focus = r.random() < 0.55             # all threads call the same one or two things over and over, with other options each time
        style = r.choice(["any", "any", "profile", "shared"])
        for t in range(n):
            s = dict(base)
            if t and like < 0.5:
                s.update(px=s["px"] * (1 + 0.37 * t), wl=s["wl"] * 1.21)
            if t and like < 0.25 and s["kind"] == "dmd":
                s.update(p=s["p"] + 1.7, theta=s["theta"] + 0.6, neg=not s["neg"])
            if t and like > 0.85:
                s = gen.slm_spec(r, sizes=[(24, 16), (16, 24), (20, 20), (21, 16)])
            plan = {"slms": [s], "sims": [{"slm": 0, "padx": r.choice([0, 2]), "pady": r.choice([0, 0, 3])}], "profs": [gen.leaf(r, s, "f", kinds=["sg", "hg"])]}
            if focus:
                if t == 0 or (s["kind"], s["Nx"], s["Ny"]) != (base["kind"], base["Nx"], base["Ny"]):
                    few = [self.random_op(r, s, base, methods, shared, style) for _ in range(r.choice([1, 1, 2]))]
                plan["ops"] = [self.vary(r, s, r.choice(few)) for _ in range(r.randint(16, 36))]
                threads.append(plan)
                continue
            few = [self.random_op(r, s, base, methods, shared, style) for _ in range(r.randint(2, 5))]
            plan["ops"] = few + [dict(r.choice(few)) for _ in range(r.randint(4, 16))]         # repeating what is traced already costs little
            threads.append(plan)
        handovers, faults = [], []
        for t in range(n):
            if focus:
                top = r.choice([20, 60, 150])
                for k in range(len(threads[t]["ops"])):
                    for q in sorted(r.sample(range(top), r.choice([0, 1, 1, 2, 3]))):
                        handovers.append([t, k, q if r.random() < 0.85 else "T%d" % r.randrange(r.choice([4, 12, 30])), r.choice([u for u in range(n) if u != t])])
                continue
            density = r.choice([0.01, 0.05, 0.15, 0.4])
            top = r.choice([25, 60, 120])
            for k in range(len(threads[t]["ops"])):
                for q in range(top):
                    if r.random() < density:
                        q = q if r.random() < 0.7 else "T%d" % r.randrange(r.choice([4, 12, 30]))
                        handovers.append([t, k, q, r.choice([u for u in range(n) if u != t])])
        for t in range(n):
            ops, k = threads[t]["ops"], 0
            while k < len(ops):
                if r.random() < 0.12 and ops[k]["op"] in ("calc", "grating", "patch", "hologram", "prop"):
                    faults.append([t, k, r.choice([r.randrange(r.choice([6, 25, 60])), "T%d" % r.randrange(6)]), r.choice(["KeyboardInterrupt", "MemoryError"])])
                    ops.insert(k + 1, {"op": "wipe"})
                    for h in handovers:
                        if h[0] == t and h[1] > k:
                            h[1] += 1
                    k += 1
                k += 1
        return {"bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "np", "np", "tf"]), "base": base, "shared": shared, "threads": threads, "handovers": handovers, "faults": faults,
                "first": r.randrange(n)}

    def random_op(self, r, s, base, methods, shared, style):
        same = (s["Nx"], s["Ny"]) == (base["Nx"], base["Ny"])
        B = [{"as": "profile", "spec": {"t": "ref", "id": 100}}, {"as": "profile", "spec": {"t": "ref", "id": 0}}, gen.as_arg(r, gen.beam(r, s), "array")] + ([{"as": "named", "id": 0}] * 3 if same else [])
        T = [{"as": "profile", "spec": {"t": "ref", "id": 101}}, gen.as_arg(r, gen.target(r, s), "array")] + ([{"as": "named", "id": 1}] * 3 if same else [])
        if style == "profile":
            B, T = B[:2], T[:1]
        elif style == "shared":
            B, T = B[:1] + B[3:], T[:1] + T[2:]
        q = r.random()
        if q < 0.45:
            if s["kind"] == "lcos":
                op = gen.hologram(r, 0, s, how="array", nmax=4)
                op["input"] = r.choice(B)
            else:
                f = r.choice(["calc", "calc", "grating", "patch"])
                if f == "calc":
                    op = gen.calc(r, 0, s, methods, "array")
                    op["input"], op["target"] = r.choice(B), r.choice(T)
                    if "N" in op["kw"]:
                        op["kw"]["N"] = r.choice([2, 3])
                else:
                    op = getattr(gen, f)(r, 0, s, [m for m in methods if m != "ifta"] or ["random"], "array")
            return op
        if q < 0.72:
            op = {"op": "prop", "sim": 0, "input": r.choice(B)}
            if s["kind"] == "dmd" and r.random() < 0.4:
                op["block"] = r.choice([None, s["wl"] * s["f"] / (s["Nx"] * s["px"]) * 3.3])
            return op
        if q < 0.78:
            L, px = gen.extent(s, "f")
            return {"op": "setp", "prof": 0, "param": r.choice(["x0", "y0"]), "value": round(r.uniform(-0.4, 0.4), 3) * L}
        if q < 0.84:
            return {"op": "sample", "slm": 0, "plane": r.choice(["f", "i"]), "arg": r.choice([B[0], B[-1], {"as": "number", "v": 0.5}]), "cplx": r.random() < 0.5}
        if q < 0.88:
            return {"op": "recreate", "what": r.choice(["sim", "slm"]), "i": 0, "slm": 0}
        if q < 0.93:
            return {"op": "analysis", "arr": 2, "slm": 0, "radius": r.choice([5, 6.5]), "num": r.choice([3, 5]), "extra": r.random() < 0.4, "trivial": r.random() < 0.5,
                    "defocus": r.random() < 0.5, "rec": r.random() < 0.5}
        if q < 0.96:
            return {"op": "neg", "slm": 0}
        return {"op": "grids", "slm": 0, "sim": 0}

    def vary(self, r, s, op):
        """The same call with other numbers."""
        op = dict(op)
        if op["op"] in ("calc", "grating", "patch") and op["method"] == "random":
            op["kw"] = {"r": r.choice([1.0, 3.0, 10.0, 0.3])} if r.random() < 0.8 else {}
        for f in ("amp", "pin", "pout"):
            if f in op and op[f]["as"] == "number":
                op[f] = dict(op[f], v=r.choice([0.3, 0.6, 0.9] if f == "amp" else [0.2, -0.8, 1.7]))
        if op["op"] == "patch":
            op.update(i=r.randint(0, s["Ny"] - 1), j=r.randint(0, s["Nx"] - 1), d=r.choice([op["d"], r.randint(2, 14)]))
        if op["op"] == "hologram" and "mixing_factor" in op["kw"]:
            op["kw"] = dict(op["kw"], mixing_factor=r.choice([0.4, 0.7, 1.0]))
        if op["op"] == "setp":
            op["value"] = -0.7 * op["value"]
        if op.get("block"):
            op["block"] *= r.choice([0.4, 0.7, 1.5])
        if op["op"] == "sample" and op["arg"]["as"] == "number":
            op["arg"] = {"as": "number", "v": r.choice([0.1, 0.9])}
        if op["op"] == "analysis":
            op.update(radius=r.choice([5, 6.5, 7]), extra=r.random() < 0.4)
        return op

    def shrink(self, plan):
        H = plan["handovers"]
        size = (len(H) + 1) // 2
        while size >= 1 and H:
            for i in range(0, len(H), size):
                yield dict(plan, handovers=H[:i] + H[i + size:])
            size //= 2
        for i in range(len(plan["faults"])):
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
        for t, p in enumerate(plan["threads"]):
            n = len(p["ops"])
            for k in range(n):                     # dropping an operation keeps the numbers of the others
                if p["ops"][k]["op"] != "nop":
                    ops = list(p["ops"])
                    ops[k] = {"op": "nop"}
                    yield dict(plan, threads=plan["threads"][:t] + [dict(p, ops=ops)] + plan["threads"][t + 1:])

    # ----------------------------------------------------------------------------------------------------- execution
    def execute(self, plan):
        res = Result()
        n = len(plan["threads"])
        hand = {}
        for t, k, q, to in plan["handovers"]:
            if t < n and to < n:
                hand.setdefault((t, k), {})[q] = to
        faults = {(t, k): (q, lab.EXC[e]) for t, k, q, e in plan["faults"]}
        baton = sched.Baton(n, hand, faults)
        baton.turn = plan.get("first", 0)
        now = [baton]
        H = seams.HOOKS
        H.draw = lambda shape, i: nprand("draw", "C17", shape).random(shape)
        H.fft = lambda name, i: now[0] and now[0].point("transform", now[0].turn)
        H.fft_post = lambda name: now[0] and now[0].point("transform done", now[0].turn)
        undo = sched.python_ops(lambda: now[0])
        try:
            got, finished = self.together(plan, baton)
            now[0] = None
            for t, k, q, to in baton.trace:
                res.state(plan["threads"][t]["ops"][k]["op"] if k >= 0 else "start", q, to, plan["threads"][t]["ops"][k].get("method") if k >= 0 else None)
            res.record(baton.trace, [[(k, p_history.digest(v)) for k, v in g] for g in got])
            res.count("handovers", len(baton.trace))
            for k, v in baton.kinds.items():
                res.count("handover:" + k, v)
            res.count("forced_passes", baton.forced)
            for k, kind in baton.faulted.items():
                res.count("fault:%s:%s" % (kind, faults[k][1].__name__))
            res.count("ops", sum(len(g) for g in got))
            if not finished:
                where = ["thread %d in operation %s" % (t, baton.op[t]) for t in range(n) if not baton.done[t]]
                res.violate("stuck", "threads with objects of their own block each other for good: " + ", ".join(where))
                return res
            alone = self.alone(plan, got, set(baton.faulted))
        finally:
            undo()
            H.draw = H.fft = H.fft_post = None
        for t in range(n):
            for k, op in enumerate(plan["threads"][t]["ops"]):
                if (t, k) in baton.faulted:
                    continue
                if alone[t][k] is None:
                    continue
                (ka, va), (kb, vb) = got[t][k], alone[t][k]
                if ka != kb:
                    res.violate("interference", "thread %d, operation %d %s ends with '%s' (%s) next to the others and with '%s' alone" % (t, k, describe(op), ka, str(va)[:120] if ka != "ok" else "", kb))
                    return res
                why = differs(va, vb)
                if why:
                    res.violate("interference", "thread %d, operation %d %s gives another result next to the others than alone: %s" % (t, k, describe(op), why))
                    return res
        res.nontrivial = sum(1 for t, k, q, to in baton.trace if q > 0) >= 3
        return res


    def program(self, *args):
        with sched.one_at_a_time():
            self.run_program(*args)

    def run_program(self, plan, t, lib, shared, baton, skip, out):
        """What thread t does."""
        a = ThreadLab({"bits": plan["bits"], "slms": plan["threads"][t]["slms"], "only": []}, lib=lib)
        spec = plan["threads"][t]
        a.arrs = shared["arrs"]
        a.aspec = {i: s for i, s in enumerate(plan["shared"]["arrs"])}
        a.neg = {0: bool(spec["slms"][0].get("neg"))}
        a.simspec = {}
        for i, p in shared["profs"].items():
            a.profs[i], a.pspec[i] = p, plan["shared"]["profs"][i - 100]
        if baton is not None:
            baton.wait_turn(t)
            baton.begin_op(t, -1)
        with sched.Lines(baton, t) if baton is not None else nothing():
            a.new_slm(0, spec["slms"][0])
            a.new_sim(0, spec["sims"][0])
            a.new_prof(0, spec["profs"][0])
        for k, op in enumerate(spec["ops"]):
            if (t, k) in skip:
                out.append(None)
                continue
            if baton is not None:
                baton.begin_op(t, k)
            try:
                with sched.Lines(baton, t) if baton is not None else nothing():
                    out.append(self.step(a, op))
            except (KeyboardInterrupt, MemoryError) as e:
                if baton is None or (t, k) not in baton.faulted:
                    raise
                out.append(("interrupt", str(e)))

    def step(self, a, op):
        if op["op"] == "nop":
            return "ok", None
        if op["op"] == "wipe":
            if a.geo[0].spec["kind"] == "dmd":
                a.slms[0].set_dmd_state_off()
            else:
                a.slms[0].reset_slm_state()
            a.sims[0].clear()
            return "ok", None
        return p_history.run_op(a, op)

    def shared(self, plan, lib):
        """Profiles and arrays nobody changes, made by the main thread."""
        with sched.one_at_a_time():
            return self.make_shared(plan, lib)

    def make_shared(self, plan, lib):
        m = lab.Lab({"bits": plan["bits"], "slms": [plan["base"]], "only": [0], "profs": plan["shared"]["profs"], "arrs": plan["shared"]["arrs"]}, lib=lib)
        return {"profs": {100 + i: p for i, p in m.profs.items()}, "arrs": m.arrs}

    def together(self, plan, baton):
        n = len(plan["threads"])
        lib = seams.fresh_library(plan["bits"], True, None, plan["fft"])
        shared = self.shared(plan, lib)
        out = [[] for _ in range(n)]
        broken = []

        def body(t):
            try:
                self.program(plan, t, lib, shared, baton, (), out[t])
            except sched.Abandoned:
                return
            except BaseException as e:
                broken.append(e)
            finally:
                baton.finish(t)
        threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for th in threads:
            th.start()
        finished = baton.watch(100)
        if finished:
            for th in threads:
                th.join()
        if broken:
            raise broken[0]
        return out, finished

    def alone(self, plan, got, faulted):
        out = []
        for t in range(len(plan["threads"])):
            lib = seams.fresh_library(plan["bits"], True, None, plan["fft"])
            res = []
            self.program(plan, t, lib, self.shared(plan, lib), None, faulted, res)
            out.append(res)
        return out


class nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def differs(u, v):
    if u is None or v is None or isinstance(u, str):
        return None
    if isinstance(u, dict):
        for k in u:
            if not lab.same(u[k], v.get(k)):
                return "%s: %s" % (k, amount(u[k], v.get(k)))
        return None
    return None if lab.same(u, v) else amount(u, v)


def amount(u, v):
    if u is None or v is None:
        return "only one of them has it"
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape or u.dtype != v.dtype:
        return "%s%s against %s%s" % (u.dtype, u.shape, v.dtype, v.shape)
    return "%d of %d values differ" % ((u != v).sum(), u.size)


PROPS = {"C17": C17}
