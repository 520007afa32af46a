"""C06: imports with vendor libraries that fail in every way an import can fail."""
import importlib
import importlib.abc
import importlib.machinery
import sys

import numpy as np

from . import ctl, devices, env
from .core import Property, Result
from .rng import rand


class VendorError(Exception):
    pass


class BareBase(BaseException):
    """Not an Exception, like the ones some runtimes raise out of native code."""


FAILURES = (Exception, SystemExit, BareBase, GeneratorExit)


class Unprintable(Exception):
    def __str__(self):
        raise RuntimeError("this exception cannot be printed")
    __repr__ = __str__


EXCS = {
    "ImportError": lambda: ImportError("DLL load failed while importing ALP4"),
    "ModuleNotFoundError": lambda: ModuleNotFoundError("No module named 'vendor_dependency'", name="vendor_dependency"),
    "OSError": lambda: OSError("alp43.so: cannot open shared object file"),
    "FileNotFoundError": lambda: FileNotFoundError(2, "No such file or directory", "alpD43.dll"),
    "PermissionError": lambda: PermissionError(13, "Permission denied"),
    "AttributeError": lambda: AttributeError("module 'ctypes' has no attribute 'windll'"),
    "RuntimeError": lambda: RuntimeError("driver service is not running"),
    "SyntaxError": lambda: SyntaxError("invalid syntax"),
    "NameError": lambda: NameError("name 'WindowsError' is not defined"),
    "ValueError": lambda: ValueError("bad version"),
    "TypeError": lambda: TypeError("an integer is required"),
    "KeyError": lambda: KeyError("ALP_ROOT"),
    "IndexError": lambda: IndexError("list index out of range"),
    "MemoryError": lambda: MemoryError(),
    "AssertionError": lambda: AssertionError(),
    "NotImplementedError": lambda: NotImplementedError("platform"),
    "RecursionError": lambda: RecursionError("maximum recursion depth exceeded"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte"),
    "TimeoutError": lambda: TimeoutError("licence server"),
    "DeprecationWarning": lambda: DeprecationWarning("turned into an error"),
    "StopIteration": lambda: StopIteration(),
    "ZeroDivisionError": lambda: ZeroDivisionError(),
    "VendorError": lambda: VendorError(1001),
    "Unprintable": lambda: Unprintable(),
    "SystemExit": lambda: SystemExit("the vendor library gives up: no licence"),
    "BareBase": lambda: BareBase(),
    "Group": lambda: ExceptionGroup("several", [OSError("a"), ValueError("b")]),
}
HOWS = ["ok", "missing", "raise", "raise", "raise_late", "find", "none", "partial"]


class VendorFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds (or breaks) the vendor modules, and hides any installed ones."""

    def __init__(self):
        self.spec = {}
        self.attempts = 0

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in ("ALP4", "Luxbeam"):
            return None
        self.attempts += 1
        s = self.spec.get(root, {"how": "missing"})
        if s["how"] == "missing" or name != root:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if s["how"] == "find":
            raise EXCS[s["exc"]]()
        return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        if self.spec[spec.name]["how"] == "ok":
            world = lambda: ctl.CURRENT[0]
            return devices.make_alp_module(world) if spec.name == "ALP4" else devices.make_luxbeam_module(world)
        return None

    def exec_module(self, module):
        s = self.spec[module.__name__]
        if s["how"] == "raise":
            raise EXCS[s["exc"]]()
        if s["how"] in ("raise_late", "partial"):
            fake = devices.make_alp_module(lambda: ctl.CURRENT[0]) if module.__name__ == "ALP4" else devices.make_luxbeam_module(lambda: ctl.CURRENT[0])
            names = [k for k in vars(fake) if not k.startswith("__")]
            for k in names if s["how"] == "raise_late" else names[:len(names) // 2]:
                setattr(module, k, getattr(fake, k))
            raise EXCS[s["exc"]]()


FINDER = VendorFinder()


class C06(Property):
    id = "C06"
    quick_runs = 5000
    thorough_runs = 150000
    level = "exploration"
    technique = "simulated import system with seeded failures of the vendor imports"
    rule = ("A case is a seeded session of 1-4 imports (fresh process state: the vendor modules and the package's modules are dropped) with each vendor "
            "library present, absent, or failing with one of 27 exception types when found, at the start or at the end of its execution, followed by "
            "constructions, hardware work and computations. Non-trivial: at least one vendor library was broken and at least one construction judged.")
    real = ["pySLM2 package import", "pySLM2.util.controller", "pySLM2.util.sample", "the Python import system"]
    stub = ["vendor modules (found and executed by a simulated finder)", "ALP and Luxbeam devices"]
    assumptions = ["the failure is the same for every import attempt of one import session", "a keyboard interrupt during an import is the user's, not a broken library's, and is not injected"]
    state_measure = "hash of (state of both vendor libraries, exception types, what was imported, operation, outcome)"
    level_note = ("Seeded search over failure kind x place x import route x later use, against a small oracle (which controller must be refused). "
                  "Trusts the simulated vendor modules; keyboard interrupts during an import are outside.")
    run_timeout = 100

    def generate(self, seed, tier):
        r = rand("C06", seed)
        ops = []
        for k in range(r.randint(1, 4)):
            ven = {}
            for name in ("ALP4", "Luxbeam"):
                how = r.choice(HOWS)
                ven[name] = {"how": how}
                if how in ("raise", "raise_late", "find", "partial"):
                    ven[name]["exc"] = r.choice(sorted(EXCS))
            ops.append({"op": "import", "vendor": ven, "full": r.random() < 0.1,
                        "route": r.choice(["util", "util", "controller", "from", "star", "sample_first", "package_first"])})
            for j in range(r.randint(1, 6)):
                t = r.choice(["construct", "construct", "work", "work", "image", "compute"])
                op = {"op": t, "family": r.choice(["alp", "lux"])}
                if t == "construct":
                    op["args"] = r.randrange(3)
                if t == "work":
                    op["n"] = r.randint(1, 3)
                    op["invert"] = r.random() < 0.4
                if t == "image":
                    op["i"] = r.randrange(1000)
                if t == "compute" and r.random() < 0.7:
                    continue
                ops.append(op)
        return {"ops": ops}

    def shrink_op(self, op):
        if op["op"] == "import":
            for name in ("ALP4", "Luxbeam"):
                if op["vendor"][name]["how"] != "ok":
                    yield dict(op, vendor=dict(op["vendor"], **{name: {"how": "ok"}}))
            if op.get("full"):
                yield dict(op, full=False)

    def execute(self, plan):
        res = Result()
        env.tf()
        world = devices.World(16, 8)
        ctl.CURRENT[0] = world
        if FINDER not in sys.meta_path:
            sys.meta_path.insert(0, FINDER)
        self.pkg = None
        broken_seen = judged = False
        try:
            for n, op in enumerate(plan["ops"]):
                if op["op"] == "import":
                    if not self.do_import(op, res):
                        break
                    ven = op["vendor"]
                    broken_seen |= any(v["how"] != "ok" for v in ven.values())
                elif self.pkg is None:
                    continue
                else:
                    self.use(op, ven, res, world)
                    judged |= op["op"] == "construct"
                    res.state(sorted((k, v["how"], v.get("exc")) for k, v in ven.items()), op["op"], op["family"], len(res.viol))
                if res.viol:
                    break
        finally:
            for name in ("ALP4", "Luxbeam"):
                env.purge(name)
            env.purge("pySLM2.util")
        res.nontrivial = broken_seen and judged
        res.sim_us = world.now
        for k, v in world.stats.items():
            if not k.startswith("fault:"):
                res.count(k, v)
        return res

    def do_import(self, op, res):
        FINDER.spec = op["vendor"]
        for name in ("ALP4", "Luxbeam"):
            env.purge(name)
            if op["vendor"][name]["how"] == "none":
                sys.modules[name] = None
        env.purge("pySLM2" if op.get("full") else "pySLM2.util")
        before = FINDER.attempts
        desc = "ALP4: %s, Luxbeam: %s" % tuple("%s %s" % (op["vendor"][k]["how"], op["vendor"][k].get("exc", "")) for k in ("ALP4", "Luxbeam"))
        ns = {}
        try:
            if op["route"] == "util":
                importlib.import_module("pySLM2.util")
            elif op["route"] == "controller":
                importlib.import_module("pySLM2.util.controller")
            elif op["route"] == "from":
                exec("from pySLM2.util import ALPController, LuxbeamController, number_image", ns)
            elif op["route"] == "star":
                exec("from pySLM2.util import *", ns)
                for k in ("ALPController", "LuxbeamController", "number_image"):
                    if k not in ns:
                        res.violate("name_missing", "'from pySLM2.util import *' does not give %s (%s)" % (k, desc))
            elif op["route"] == "sample_first":
                importlib.import_module("pySLM2.util.sample")
                importlib.import_module("pySLM2.util.controller")
            else:
                importlib.import_module("pySLM2")
                importlib.import_module("pySLM2.util")
            self.pkg = importlib.import_module("pySLM2")
            self.util = importlib.import_module("pySLM2.util")
        except FAILURES as e:
            res.violate("import_failed", "importing (%s) raised %s while %s" % (op["route"], type(e).__name__, desc))
            return False
        for name, v in op["vendor"].items():
            if v["how"] != "ok":
                res.count("fault:%s:%s" % (v["how"], v.get("exc", "")))
        res.count("imports")
        res.count("vendor_lookups", FINDER.attempts - before)
        res.record("import", op["route"], desc)
        return True

    def use(self, op, ven, res, world):
        fam = op["family"]
        name = "ALP4" if fam == "alp" else "Luxbeam"
        healthy = ven[name]["how"] == "ok"
        cls = self.util.ALPController if fam == "alp" else self.util.LuxbeamController
        sent = world.commands
        what = "%s (%s %s)" % (cls.__name__, ven[name]["how"], ven[name].get("exc", ""))

        def construct(k):
            if fam == "alp":
                return [lambda: cls(), lambda: cls(invert=True), lambda: cls(True, "4.2")][k]()
            return [lambda: cls("10.0.0.2"), lambda: cls("10.0.0.2", invert=True), lambda: cls("10.0.0.2", timeout=1.0)][k]()
        if op["op"] == "construct":
            try:
                c = construct(op["args"])
                got = "ok"
            except ModuleNotFoundError:
                got = "refused"
            except FAILURES as e:
                got = type(e).__name__
            res.count("constructions")
            res.record("construct", fam, got)
            if healthy and got != "ok":
                res.violate("healthy_refused", "constructing %s gave %s although its library imported" % (what, got))
            if not healthy and got != "refused":
                res.violate("broken_not_refused", "constructing %s gave %s instead of a module-not-found error" % (what, got))
            if world.commands != sent:
                res.violate("commands_sent", "constructing %s sent device commands" % what)
        elif op["op"] == "work":
            if not healthy:
                return
            world.restart_host()
            try:
                world.begin_call()
                c = cls(invert=op["invert"]) if fam == "alp" else cls("10.0.0.2", invert=op["invert"])
                c.initialize()
                for i in range(op["n"]):
                    img = ctl.image(i, world.height, world.width)
                    world.begin_call()
                    c.load_single(img)
                    world.advance(5000)
                    shown = (world.alp_device if fam == "alp" else world.lux_device).mirrors.image
                    if shown is None or not np.array_equal(shown, ~img if op["invert"] else img):
                        res.violate("healthy_wrong", "%s does not show the image it loaded" % what)
                world.begin_call()
                if (c.Nx, c.Ny) != (world.width, world.height):
                    res.violate("healthy_wrong", "%s reports a wrong size" % what)
                c.number_image(3)
                world.begin_call()
                c.close()
            except FAILURES as e:
                res.violate("healthy_fails", "%s does not work: %s: %s" % (what, type(e).__name__, str(e)[:200]))
            res.record("work", fam, world.now)
        elif op["op"] == "image":
            try:
                a = self.util.number_image(op["i"], 64, 32)
                if a.shape != (32, 64) or a.dtype != bool or not a.any():
                    res.violate("image", "number_image gives a wrong image")
            except FAILURES as e:
                res.violate("image", "number_image fails: %s" % type(e).__name__)
        elif op["op"] == "compute":
            lib = self.pkg
            try:
                dmd = lib.DMD(369e-9, 0.2, 4.0, 0.3, 16, 12, 10.8e-6)
                eta = dmd.calculate_dmd_state(lib.SuperGaussian(0, 0, 1, 5e-5), lib.SuperGaussian(0, 0, 1, 1e-3), method="ideal")
                sim = lib.DMDSimulation(dmd)
                sim.propagate_to_image(lib.SuperGaussian(0, 0, 1, 5e-5))
                if not (np.isfinite(eta) and np.isfinite(sim.image_plane_intensity).all()):
                    res.violate("compute", "the package computes nonsense")
            except FAILURES as e:
                res.violate("compute", "the package does not compute: %s" % type(e).__name__)


PROPS = {"C06": C06}
