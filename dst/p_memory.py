"""C21: long sessions hold only what is alive. A cycle of operations is repeated with ever new numbers, faults and short-lived objects; what is in memory is counted."""
import gc

import numpy as np

from . import ctl, devices, env, gen, lab
from .core import Property, Result
from .p_update import apply_bad, bad_variant
from .rng import nprand, rand


def census():
    """Live traced graphs, objects of the package, TensorFlow variables, arrays and tensors."""
    for _ in range(3):
        gc.collect()
    from tensorflow.python.framework.func_graph import FuncGraph
    from tensorflow.python.ops.resource_variable_ops import BaseResourceVariable
    eager = type(env.tf().constant(0.0))
    out = {"traced graphs": 0, "objects of the package": 0, "variables": 0, "arrays and tensors": 0}
    arrays, seen, stack = set(), set(), []
    of = {}

    def look(x):
        t = type(x)
        if t is np.ndarray or isinstance(x, np.ndarray):
            while isinstance(x.base, np.ndarray):
                x = x.base
            arrays.add(id(x))
        elif t is bytearray or t is memoryview:
            arrays.add(id(x))
        elif not gc.is_tracked(x) and (t is dict or t is tuple) and id(x) not in seen:
            seen.add(id(x))
            stack.append(x)

    everything = gc.get_objects()
    for o in everything:
        t = type(o)
        if t is FuncGraph:
            out["traced graphs"] += 1
        elif t is eager:
            arrays.add(id(o))
        elif isinstance(t.__module__, str) and t.__module__.startswith("pySLM2"):
            out["objects of the package"] += 1
            of[t.__name__] = of.get(t.__name__, 0) + 1
        elif isinstance(o, BaseResourceVariable):
            out["variables"] += 1
    for i in range(0, len(everything), 5000):
        for x in gc.get_referents(*everything[i:i + 5000]):
            look(x)
        while stack:
            for x in gc.get_referents(stack.pop()):
                look(x)
    del everything
    out["arrays and tensors"] = len(arrays)
    return out, of


class C21(Property):
    id = "C21"
    quick_runs = 300
    thorough_runs = 12000
    run_timeout = 400
    collect_every = 1
    rechecks = recheck_workers = 4
    technique = ("deterministic simulation of long sessions (a cycle of operations repeated with new numbers, injected failures and short-lived objects); census of live graphs, "
                 "objects, variables and arrays as invariant, progress of the remaining objects as liveness check")
    rule = ("A case is a seeded cycle of 2-7 operations (holograms, gratings, patches, propagations, blocked orders, profile values and parameters, profile arithmetic, grids, analysis, "
            "modulators, simulations and profiles created and dropped, backend switches; every ninth case a controller on a simulated device), some with an interrupt, allocation failure or invalid "
            "argument in some cycles, repeated with ever new numbers: a warm-up and two windows of equal length. After collecting garbage, the number of live traced graphs, objects of the package, "
            "variables, arrays and tensors must not have grown over both windows. Non-trivial: at least half of the operations succeeded.")
    real = ["pySLM2 (slm, simulation, profile, window, analysis, util.controller)", "TensorFlow kernels and function tracing", "Python garbage collector"]
    stub = ["random source (scripted)", "failures", "DMD devices (controller cases)"]
    assumptions = ["memory that neither Python's garbage collector nor TensorFlow's Python objects refer to (inside the TensorFlow runtime) is not counted"]
    state_measure = "hash of (operation, method, form of the argument, fault or invalid argument, outcome)"
    level_note = ("Seeded search over cycles. Growth is reported if it exceeds a third of an object per cycle in both windows, so a cache of a fixed small size is not an alarm, and a leak that needs "
                  "rarer events than every third cycle is not seen.")

    # ---------------------------------------------------------------------------------------------------- generation
    def generate(self, seed, tier):
        r = rand("C21", seed)
        if r.random() < 0.11:
            return self.controller_plan(r)
        kinds = ["dmd", "dmd", "dmd", "lcos"]
        slms = [gen.slm_spec(r, r.choice(kinds), sizes=[(24, 16), (16, 24), (20, 20), (21, 16)])]
        if r.random() < 0.4:
            slms.append(gen.slm_spec(r, r.choice(kinds), sizes=[(24, 16), (18, 18)]))
        sims = [{"slm": i, "padx": r.choice([0, 0, 3]), "pady": r.choice([0, 0, 2])} for i in range(len(slms))]
        profs = [gen.leaf(r, slms[0], "f", kinds=["sg", "hg", "lg"]), gen.leaf(r, slms[0], "f", kinds=["zern", "circwin"])]
        ops = []
        for n in range(r.randint(2, 7)):
            ops.append(self.template(r, slms, n))
        slow = any(o["t"] == "analysis" for o in ops)
        return {"kind": "numeric", "bits": r.choice([32, 32, 64]), "fft": r.choice(["np", "tf"]), "slms": slms, "sims": sims, "profs": profs, "seed": r.randrange(10 ** 9),
                "warm": 3, "window": 6 if slow else r.choice([9, 9, 12]), "ops": ops}

    def template(self, r, slms, n):
        k = r.randrange(len(slms))
        dmd = slms[k]["kind"] == "dmd"
        t = r.choice(["pattern"] * 5 + ["prop", "prop", "block", "make", "make", "newsim", "compose", "compose", "setp", "values", "grids", "pack", "fft", "direction"] + (["analysis"] if r.random() < 0.15 else []))
        op = {"t": t, "id": n, "slm": k}
        if t == "pattern":
            op["f"] = r.choice(["calc", "calc", "grating", "patch", "patch"]) if dmd else "hologram"
            op["method"] = r.choice(["random", "random", "ideal", "simple", "ifta"]) if op["f"] != "hologram" else r.choice(["gs", "mraf"])
            op["how"] = r.choice(["array", "array", "tensor", "profile"])
            op["vary"] = r.random() < 0.6            # numbers of the method differ from call to call
            if op["f"] == "patch":
                op["coord"] = r.choice([None, None, "numpy", "double", "array0", "tensor"])
        elif t in ("prop", "newsim", "make"):
            op["how"] = r.choice(["array", "tensor", "profile"])
            op["method"] = r.choice(["random", "ideal", "simple", "ifta"]) if dmd else r.choice(["gs", "mraf"])
            op["keep"] = r.choice([0, 0, 1, 2])
            op["what"] = r.choice(["pattern", "patch", "grids", "all", "direction"]) if dmd else r.choice(["pattern", "grids", "all", "direction"])
        elif t == "compose":
            op["how"] = r.choice(["shift", "rotate", "rescale_x", "rescale_y", "add", "mul", "pow", "number", "new", "chain", "cplx", "div"])
            op["use"] = r.choice(["values", "tensor", "nothing", "input"])
        elif t == "setp":
            op["prof"], op["form"] = r.choice([0, 1]), r.choice(["float", "numpy", "array0", "tensor"])
        elif t in ("values", "direction"):
            op["prof"] = r.choice([0, 1])
            op["how"] = r.choice(["array", "number", "tensor", "list"])
        if r.random() < 0.35 and t in ("pattern", "prop"):
            op["trouble"] = r.choice(["call", "call", "bad", "rng", "fft"] if t == "pattern" else ["call", "fail", "fft"])
        return op

    def controller_plan(self, r):
        fam = r.choice(["alp", "lux"])
        ops = []
        for n in range(r.randint(2, 6)):
            t = r.choice(["single", "multi", "multi", "reopen", "new", "query", "soft", "guard"])
            ops.append({"t": t, "id": n, "n": r.randint(1, 4), "trouble": r.random() < 0.35})
        return {"kind": "ctl", "family": fam, "invert": r.random() < 0.4, "ops": ops, "seed": r.randrange(10 ** 9), "warm": 4, "window": 20}

    def shrink_op(self, op):
        for key in ("trouble", "coord", "vary"):
            if op.get(key):
                yield {k: v for k, v in op.items() if k != key}
        if op.get("keep"):
            yield dict(op, keep=0)
        if op.get("how") in ("tensor", "profile") and op["t"] in ("pattern", "prop", "newsim", "make"):
            yield dict(op, how="array")

    # ----------------------------------------------------------------------------------------------------- execution
    def execute(self, plan):
        res = Result()
        steps = self.numeric(plan, res) if plan["kind"] == "numeric" else self.controllers(plan, res)
        w, k = plan["warm"], plan["window"]
        allowed = max(2, k // 3)
        counts, c, end, grown, done, ok = [], 0, w, [], 0, 0
        while True:
            while c < end:
                for outcome in steps(c):
                    done += 1
                    ok += outcome == "ok"
                c += 1
                if res.viol:
                    return res
            counts.append(census())
            if len(counts) in (3, 5):            # two windows, and two more to be sure
                grown = [n for n in counts[0][0] if all(q[0][n] - p[0][n] > allowed for p, q in zip(counts, counts[1:]))]
                if not grown or len(counts) == 5:
                    break
            end += k
        for name in counts[0][0]:
            res.count("counted " + name, counts[-1][0][name])
        for name in grown:
            of = ""
            if name == "objects of the package":
                of = " (%s)" % ", ".join("%s %d -> %d" % (t, counts[0][1].get(t, 0), n) for t, n in sorted(counts[-1][1].items()) if n > counts[0][1].get(t, 0))
            res.violate("grows", "%s alive after %d cycles and then after every %d more: %s%s; the cycle is %s" % (name, w, k, ", ".join(str(q[0][name]) for q in counts), of, self.cycle(plan)))
        res.count("cycles", c)
        res.nontrivial = ok * 2 >= done and done > 0
        return res

    def cycle(self, plan):
        return "; ".join(" ".join(str(v) for f, v in o.items() if f in ("t", "f", "method", "how", "what", "use", "coord", "form", "trouble")) for o in plan["ops"])

    # ------------------------------------------------------------------------------------------------- numerical part
    def numeric(self, plan, res):
        a = lab.Lab(plan, result=res)
        for g in list(a.slms.values()) + list(a.sims.values()):      # what an object keeps for itself, however late it is needed
            for name in ("image_plane_grid", "fourier_plane_grid", "image_plane_padded_grid", "fourier_plane_padded_grid"):
                getattr(g, name, None)
        kept = []

        def steps(c):
            for tmpl in plan["ops"]:
                r = rand("C21op", plan["seed"], tmpl["id"], c)
                kind, trouble = self.step(a, tmpl, r, c, kept, res)
                a.last_args = []
                if kind is not None:
                    res.state(tmpl["t"], tmpl.get("f"), tmpl.get("method"), tmpl.get("how"), tmpl.get("what"), trouble, kind)
                    res.record(c, tmpl["id"], kind)
                    yield kind
                if res.viol:
                    return
            while kept and kept[0][0] <= c:
                kept.pop(0)
        return steps

    def run(self, a, op, fn, res, what, c, excused=False):
        out = a.call(op, fn)
        kind, fired = out.kind, out.fired
        if kind != "ok" and fired is None and not excused:
            res.violate("raises", "in cycle %d, %s raised %s without a fault: %s" % (c, what, out.exc_type, str(out.exc)[:250]))
        value = out.value
        out.exc = None
        return kind, value

    def step(self, a, tmpl, r, c, kept, res):
        t, k = tmpl["t"], tmpl["slm"]
        s = a.geo[k].spec
        trouble = tmpl.get("trouble") if r.random() < 0.8 else None
        what = "operation %d (%s)" % (tmpl["id"], " ".join(str(tmpl[f]) for f in ("t", "f", "method", "how", "what") if tmpl.get(f)))
        if t == "pattern":
            op = self.pattern_op(r, k, s, tmpl["f"], tmpl["method"], tmpl["how"], c if tmpl.get("vary") else None)
            if tmpl.get("coord"):
                op["coord"] = tmpl["coord"]
            excused = self.spoil(r, op, trouble)
            fn = a.thunk(apply_bad(op, op["bad"]) if op.get("bad") else op)
            kind, v = self.run(a, op, fn, res, what, c, excused)
            res.record(lab.summary(a.pattern(k)))
            return kind, trouble
        if t == "prop":
            op = {"op": "prop", "sim": k, "input": gen.as_arg(r, gen.beam(r, s), tmpl["how"]), "seed": c}
            excused = False
            if trouble == "fail":
                op["input"], excused = gen.bad_arg(r), True
            else:
                excused = self.spoil(r, op, trouble)
            kind, v = self.run(a, op, a.thunk(op), res, what, c, excused)
            if kind == "ok":
                self.run(a, {"op": "results"}, lambda: a.snap_sim(k), res, what, c)
            return kind, trouble
        if t == "block":
            sim = a.sims[k]
            if s["kind"] != "dmd" or sim.image_plane_field is None:
                return None, None
            op = {"op": "block"}
            L, px = gen.extent(s, "i")
            radius = [None, r.uniform(0.5, 3) * px, np.float32(r.uniform(0.5, 3) * px), np.float64(2 * px)][c % 4]
            return self.run(a, op, lambda: sim.block_zeroth_order(r=radius) if radius is not None else sim.block_zeroth_order(), res, what, c)[0], None
        if t in ("make", "newsim"):
            return self.short_lived(a, tmpl, r, c, kept, res, what), None
        if t == "compose":
            return self.compose(a, tmpl, r, c, res, what), None
        if t == "setp":
            spec = a.pspec[tmpl["prof"]]
            L, px = gen.extent(a.geo[0].spec, "f")
            par, v = {"zern": ("a", r.uniform(-1, 1)), "circwin": ("r", r.uniform(0.4, 0.9) * L)}.get(spec["t"], ("w", r.uniform(0.3, 0.9) * L) if r.random() < 0.5 else ("x0", r.uniform(-0.3, 0.3) * L))
            if not hasattr(a.profs[tmpl["prof"]], par):
                return None, None
            op = {"op": "setp", "prof": tmpl["prof"], "param": par, "value": v, "form": tmpl["form"]}
            kind, v = self.run(a, op, a.thunk(op), res, what, c)
            if kind == "ok":
                kind, v = self.run(a, {"op": "sample"}, lambda: np.array(a.slms[k].profile_to_tensor(a.profs[tmpl["prof"]])), res, what, c)
            return kind, None
        if t == "values":
            p = a.profs[tmpl["prof"]]
            x, y = (np.array(g, dtype=a.fdtype) * r.uniform(0.8, 1.2) for g in a.geo[k].fourier_grid())
            if tmpl["how"] == "number":
                x, y = float(x[3, 4]), float(y[3, 4])
            elif tmpl["how"] == "list":
                x, y = x[0].tolist(), y[0].tolist()
            elif tmpl["how"] == "tensor":
                x, y = a.tf.constant(x), a.tf.constant(y)
            return self.run(a, {"op": "values"}, lambda: np.array(p(x, y)), res, what, c)[0], None
        if t == "direction":
            slm = a.slms[k]
            return self.run(a, {"op": "profile"}, lambda: np.array(slm.profile_to_tensor(r.uniform(0.1, 2))), res, what, c)[0], None
        if t == "grids":
            def grids():
                for g in (a.slms[k].image_plane_grid, a.slms[k].fourier_plane_grid, a.sims[k].image_plane_padded_grid, a.sims[k].fourier_plane_padded_grid):
                    np.array(g[0]) + np.array(g[1])
            return self.run(a, {"op": "grids"}, grids, res, what, c)[0], None
        if t == "pack":
            slm = a.slms[k]
            if s["kind"] != "dmd" or slm.dmd_state.dtype != bool:
                return None, None
            return self.run(a, {"op": "pack"}, lambda: len(slm.pack_dmd_state()), res, what, c)[0], None
        if t == "fft":
            op = {"op": "fft", "to": r.choice(["np", "tf"])}
            return self.run(a, op, a.thunk(op), res, what, c)[0], None
        if t == "analysis":
            m = nprand("c21", c).normal(size=(s["Ny"], s["Nx"]))
            radius = r.uniform(5, 7.5)
            if c % 2:
                return self.run(a, {"op": "analysis"}, lambda: np.array(a.lib.remove_trivial_phase(m, radius)), res, what, c)[0], None
            return self.run(a, {"op": "analysis"}, lambda: a.lib.zernike_decomposition(m, radius, 3, reconstruct=True) and None, res, what, c)[0], None
        raise AssertionError(t)

    def pattern_op(self, r, k, s, f, method, how, vary=None):
        if f == "hologram":
            op = gen.hologram(r, k, s, how=how)
            L, px = gen.extent(s, "i")
            op["method"], op["kw"] = method, {"N": 2}
            if method == "mraf":
                op["kw"].update(signal_window=gen.as_arg(r, {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": r.uniform(5, 9) * gen.EDGE * px}, "array"), mixing_factor=0.5)
                if vary is not None:
                    op["kw"]["mixing_factor"] = r.uniform(0.3, 0.9)
            if vary is not None:
                op["kw"]["N"] = 1 + vary
            return op
        op = getattr(gen, f)(r, k, s, [method], how)
        if vary is not None and method == "random":
            op["kw"]["r"] = r.uniform(1, 9)
        if vary is not None and method == "ifta":
            op["kw"].update(N=1 + vary, s=r.uniform(0.8, 1.0))
        return op

    def spoil(self, r, op, trouble):
        """Adds a failure; True if the call may be refused."""
        if trouble == "call":
            op["fault"] = gen.call_fault(r, 20)
        elif trouble == "fft":
            op["fault"] = gen.fft_fault(r, 3)
        elif trouble == "rng":
            op["fault"] = gen.rng_fault(r)
        elif trouble == "bad":
            op["bad"] = bad_variant(r, op)
            return bool(op["bad"])
        return False

    def short_lived(self, a, tmpl, r, c, kept, res, what):
        """A modulator (and a simulation of it), used and dropped at the end of the cycle or a few cycles later."""
        k, s = tmpl["slm"], dict(a.geo[tmpl["slm"]].spec)
        i = 1000
        kind = "ok"
        if tmpl["t"] == "make":
            if s["kind"] == "dmd":
                s.update(p=r.uniform(3, 7), theta=r.uniform(-1, 1))
            s.update(px=r.uniform(7e-6, 14e-6), f=r.uniform(0.1, 0.5))
            a.new_slm(i, s)
        else:
            i = k
        a.new_sim(i + 1000, {"slm": i, "padx": tmpl["id"] % 3, "pady": 1})
        use = tmpl["what"]
        if use in ("pattern", "all", "patch"):
            f = "patch" if use == "patch" else "hologram" if s["kind"] != "dmd" else "calc"
            method = "random" if use == "patch" and tmpl["method"] == "ifta" else tmpl["method"]
            op = self.pattern_op(r, i, s, f, method, tmpl["how"])
            kind, v = self.run(a, op, a.thunk(op), res, what + ", pattern", c)
        if use in ("all", "direction") and kind == "ok":
            op = {"op": "prop", "sim": i + 1000, "input": gen.as_arg(r, gen.beam(r, s), tmpl["how"])}
            kind, v = self.run(a, op, a.thunk(op), res, what + ", propagation", c)
            if kind == "ok":
                self.run(a, {"op": "results"}, lambda: a.snap_sim(i + 1000), res, what, c)
        if use in ("grids", "all") and kind == "ok":
            slm, sim = a.slms[i], a.sims[i + 1000]
            kind, v = self.run(a, {"op": "grids"}, lambda: (slm.image_plane_grid, slm.fourier_plane_grid, sim.image_plane_padded_grid, sim.fourier_plane_padded_grid) and None, res, what, c)
            del slm, sim
        kept.append((c + tmpl["keep"], a.slms[i], a.sims.pop(i + 1000)))
        kept.sort(key=lambda q: q[0])
        del a.simspec[i + 1000]
        if tmpl["t"] == "make":
            del a.slms[i], a.geo[i]
        return kind

    def compose(self, a, tmpl, r, c, res, what):
        k, how = tmpl["slm"], tmpl["how"]
        p, q, slm = a.profs[0], a.profs[1], a.slms[tmpl["slm"]]
        L, px = gen.extent(a.geo[k].spec, "f")
        v = r.uniform(0.2, 1.5)

        def build():
            if how == "shift":
                return p.shift(v * px, 0.1 * px)
            if how == "rotate":
                return p.rotate(v)
            if how in ("rescale_x", "rescale_y"):
                return getattr(p, how)(0.5 + v)
            if how == "add":
                return p + q
            if how == "mul":
                return p * q * v
            if how == "div":
                return p / (2.0 + v)
            if how == "pow":
                return p ** 2
            if how == "number":
                return (p * v - 1.0) + v
            if how == "cplx":
                return q.as_complex_profile()
            if how == "new":
                return a.build(gen.leaf(r, a.geo[k].spec, "f", kinds=["sg", "hg", "lg", "zern"]))
            return ((p + q) * v).shift(v * px, 0).rotate(v).rescale_x(1 + v)

        def go():
            z = build()
            if tmpl["use"] == "values":
                np.array(z(np.array([[0.0, v * px]]), np.array([[px, 0.0]])))
            elif tmpl["use"] == "tensor":
                np.array(slm.profile_to_tensor(z, complex=True))
            elif tmpl["use"] == "input":
                a.sims[k].propagate_to_image(z)
        return self.run(a, {"op": "compose"}, go, res, what, c)[0]

    # ------------------------------------------------------------------------------------------------------ controllers
    def controllers(self, plan, res):
        world = devices.World(40, 30)
        mod = ctl.fresh_controllers()
        state = {}

        def make():
            return mod.ALPController(invert=plan["invert"]) if plan["family"] == "alp" else mod.LuxbeamController("192.168.0.10", invert=plan["invert"], timeout=1.0)

        def call(name, fn, faults, c):
            world.begin_call(faults, ())
            try:
                fn()
                kind = "ok"
            except KeyboardInterrupt:
                kind = "interrupt"
            except Exception as e:
                kind = "error"
                if not world.fired and name not in ("guard", "soft") and not state.get("faulted"):
                    res.violate("raises", "in cycle %d, %s failed without a fault: %r" % (c, name, e))
            if world.fired:
                state["faulted"] = True
            for f in world.fired:
                res.count("fault:" + f[1])
            world.call_faults, world.call_triggers = {}, {}
            res.count("ops")
            return kind

        def steps(c):
            ctl.CURRENT[0] = world
            try:
                del world.log[:]
                if "ctrl" not in state:
                    state["ctrl"] = make()
                if state.get("faulted") or c == 0:       # the operator starts again
                    world.alp_device.host_gone()
                    world.restart_host()
                    state["ctrl"], state["faulted"] = make(), False
                    call("initialize", state["ctrl"].initialize, (), c)
                for tmpl in plan["ops"]:
                    r = rand("C21op", plan["seed"], tmpl["id"], c)
                    ctrl = state["ctrl"]
                    faults = ()
                    if tmpl["trouble"] and r.random() < 0.7:
                        kinds = ["err_before", "interrupt_before", "interrupt_after", "slow"] + (["err_after"] if plan["family"] == "alp" else ["lost_request", "lost_ack"])
                        faults = ({"at": r.randrange(8), "kind": r.choice(kinds)},)
                    images = [nprand("c21img", plan["seed"], tmpl["id"], c, i).random((30, 40)) < 0.5 for i in range(tmpl["n"])]
                    t = tmpl["t"]
                    if t == "single":
                        kind = call(t, lambda: ctrl.load_single(images[0]), faults, c)
                    elif t == "multi":
                        kind = call(t, lambda: ctrl.load_multiple(images), faults, c)
                    elif t == "reopen":
                        call("close", ctrl.close, (), c)
                        kind = call("initialize", ctrl.initialize, faults, c)
                    elif t == "new":
                        call("close", ctrl.close, (), c)
                        ctrl = state["ctrl"] = make()
                        kind = call("initialize", ctrl.initialize, faults, c)
                    elif t == "soft":
                        if plan["family"] == "alp":
                            continue
                        kind = call(t, ctrl.fire_software_trigger, faults, c)
                    elif t == "query":
                        kind = call(t, lambda: (ctrl.Nx, ctrl.Ny, ctrl.is_initialized()), faults, c)
                    else:
                        other = make()
                        kind = call("guard", lambda: other.load_multiple(images), (), c)
                        del other
                    res.state("ctl", plan["family"], t, bool(faults), kind)
                    res.record(c, tmpl["id"], kind)
                    yield "ok" if t == "guard" else kind
                    if res.viol:
                        return
                res.sim_us = world.now
            finally:
                ctl.CURRENT[0] = None
        return steps


PROPS = {"C21": C21}
