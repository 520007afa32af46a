"""Controller simulation: the real controllers of the library on simulated devices (C01-C05)."""
import importlib
import sys

import numpy as np

from . import devices, env
from .rng import nprand, rand

CURRENT = [None]
_mods = {}


def install_vendor():
    """Put the simulated vendor bindings where the library imports them from."""
    if not _mods:
        _mods["ALP4"] = devices.make_alp_module(lambda: CURRENT[0])
        _mods["Luxbeam"] = devices.make_luxbeam_module(lambda: CURRENT[0])
    sys.modules.update(_mods)


def fresh_controllers():
    env.tf()
    install_vendor()
    if "pySLM2" not in sys.modules:
        importlib.import_module("pySLM2")
    env.purge("pySLM2.util")
    return importlib.import_module("pySLM2.util.controller")


def image(ident, h, w):
    """Image content is a function of its number, unique for all practical purposes; [number, kind, k] is a close relative of that image."""
    if isinstance(ident, list):
        img, kind, k = image(ident[0], h, w), ident[1], ident[2]
        if kind == "pixel":
            img[k // w % h, k % w] ^= True
        elif kind == "swap":                  # as many mirrors on as before
            a, b = np.flatnonzero(img), np.flatnonzero(~img)
            if len(a) and len(b):
                img.flat[a[k % len(a)]], img.flat[b[k % len(b)]] = False, True
        elif kind == "not":
            img = ~img
        elif kind == "mirror":
            img = np.ascontiguousarray(img[:, ::-1])
        elif kind == "roll":
            img = np.roll(img, 1, axis=k % 2)
        elif kind == "on":
            img[...] = True
        elif kind == "off":
            img[...] = False
        return img
    r = nprand("image", ident)
    p = [0.5, 0.12, 0.88, 0.5][ident % 4]
    img = r.random((h, w)) < p
    return img


def as_passed(img, layout):
    if layout == "F":
        return np.asfortranarray(img)
    if layout == "strided":
        big = np.zeros((img.shape[0] * 2, img.shape[1] * 2), dtype=bool)
        big[::2, ::2] = img
        return big[::2, ::2]
    if layout == "readonly":
        img = img.copy()
        img.setflags(write=False)
        return img
    return img.copy()


class LoadedSet:
    def __init__(self, gen, images, invert, single):
        self.gen = gen
        self.shown = [~i if invert else i.copy() for i in images]
        self.keys = [i.tobytes() for i in self.shown]
        self.single = single


class Violations(list):
    def add(self, props, cls, msg):
        self.append((tuple(props), cls, msg))


class CtlRun:
    """One run; `plan` is JSON."""
    GAP = {"alp": 60, "lux": 1000}

    def __init__(self, plan):
        self.plan = plan
        d = plan["dev"]
        self.world = devices.World(d.get("w", 16), d.get("h", 8))
        a = self.world.alp_device
        a.memory = d.get("memory", 64)
        a.freeseq_warns = bool(d.get("freeseq_warns", False))
        a.free_drops_library = bool(d.get("free_drops", False))
        a.freeseq_forgets = bool(d.get("freeseq_forgets", False))
        self.world.lux_device.SLOTS = d.get("slots", 64)
        self.world.lux_device.power_on()
        self.viol = Violations()
        self.states = set()
        self.sets = []
        self.maxgen = -1
        self.updates = []            # (gen, index) of every image switched to since the last mark; None for dark
        self.world.on_mirror.append(self.mirror_update)
        self.expect = None           # ("single"|"multi", LoadedSet, index shown or None)
        self.ctrl = None
        self.mode = None             # True initialised, False not, None unknown
        self.leak_possible = False
        self.faulted_ever = False
        self.history_clean = True    # no fault fired so far
        self.checked = 0
        self.last_images = []
        self.onboard = (None, set())

    # ---------------------------------------------------------------------------------------------- invariants on mirrors
    def complete(self, s, device):
        if device == "alp":
            d = self.world.alp_device
            seq = d.seqs.get(d.running)
            if seq is None or not seq.written.all() or seq.n != len(s.shown):
                return False
            return all(np.array_equal(~f if d.inversion else f, g) for f, g in zip(seq.frames, s.shown))
        d = self.world.lux_device
        if self.onboard[0] != d.writes:
            self.onboard = (d.writes, {x.tobytes() for x in d.slots if x is not None})
        return all(k in self.onboard[1] for k in s.keys)

    def mirror_update(self, device, img, why):
        if img is None:
            self.updates.append(None)
            return
        self.checked += 1
        key = img.tobytes()
        matches = [(s, [i for i, g in enumerate(s.keys) if g == key]) for s in self.sets]
        matches = [(s, idx) for s, idx in matches if idx]
        if not matches:
            self.viol.add(["C02"], "foreign_image",
                          "at t=%d the mirrors switched to an image that belongs to no image set passed to a load (%s)" % (self.world.now, why))
            self.updates.append((-1, -1))
            return
        full = [(s, idx) for s, idx in matches if self.complete(s, device)]
        if not full:
            s = matches[-1][0]
            self.viol.add(["C02"], "incomplete_set",
                          "at t=%d the mirrors switched to an image of load #%d although that set was not completely on the device (%s)" % (self.world.now, s.gen, why))
            self.updates.append((s.gen, matches[-1][1][0]))
            return
        newer = [m for m in full if m[0].gen >= self.maxgen]
        if not newer:
            s, idx = full[-1]
            self.viol.add(["C02"], "older_set",
                          "at t=%d the mirrors switched back to an image of load #%d after an image of load #%d had been shown" % (self.world.now, s.gen, self.maxgen))
            self.updates.append((s.gen, idx[0]))
            return
        # an image shared by several sets proves only the oldest of them; the expectations assume the newest
        self.maxgen = newer[0][0].gen
        s, idx = newer[-1]
        self.updates.append((s.gen, idx[0]))

    # ------------------------------------------------------------------------------------------------------- calls
    def invoke(self, name, fn, op):
        """Run one library call under the op's faults and triggers. Returns (outcome, value)."""
        w = self.world
        w.begin_call(op.get("faults", ()), op.get("trig", ()))
        before = w.commands
        attempted0 = w.call_index
        try:
            value = fn()
            out = "ok"
        except devices.HostCrash:
            out, value = "crash", None
        except devices.SimLimit as e:
            out, value = "limit", str(e)
            self.viol.add(["C03"], "endless_call", "%s: %s" % (name, e))
        except KeyboardInterrupt as e:
            out, value = "interrupt", e
        except Exception as e:
            out, value = "error", e
        self.sent = w.commands - before
        self.attempted = w.call_index
        fired = list(w.fired)
        raised = list(w.raised)
        w.call_faults, w.call_triggers = {}, {}
        hard = [f for f in fired if f[1] != "slow"]
        if hard:
            self.history_clean = False
        for k, kind, cmd in fired:
            if cmd == "SeqAlloc" and kind in ("err_after", "interrupt_after"):
                self.leak_possible = True
            if cmd == "SeqFree" and kind in ("err_before", "interrupt_before", "err_after", "interrupt_after"):
                self.leak_possible = True
        w.note("call", name, out, type(value).__name__ if out == "error" else "")
        w.count("calls")
        w.count("call:%s:%s" % (name, out))
        if raised and out == "ok":
            self.viol.add(["C03"], "silent_failure",
                          "%s returned normally although the device command %s failed (%s)" % (name, raised[0][2], raised[0][1]))
        if out == "crash":
            self.host_restart()
        self.fired_now = hard
        return out, value

    def host_restart(self):
        self.world.restart_host()
        self.ctrl = None
        self.mode = None
        self.expect = None
        self.leak_possible = False

    def construct(self, op):
        c = op.get("ctrl", self.plan["ctrl"])
        if self.plan["family"] == "alp":
            fn = lambda: self.mod.ALPController(invert=bool(c.get("invert", False)))
        else:
            fn = lambda: self.mod.LuxbeamController("192.168.0.10", invert=bool(c.get("invert", False)), timeout=c.get("timeout", None))
        out, value = self.invoke("construct", fn, op)
        if out == "ok":
            self.ctrl = value
            self.invert = bool(c.get("invert", False))
            self.mode = False
            self.expect = None
            if self.attempted:
                self.viol.add(["C05"], "command_before_init", "constructing a controller sent device commands")
        elif out == "error" and not self.fired_now:
            self.viol.add(["C03", "C05"], "construct_failed", "constructing the controller failed: %r" % (value,))
        return out

    def ensure(self):
        if self.ctrl is None:
            self.construct({})
        return self.ctrl is not None

    # ------------------------------------------------------------------------------------------------------- operations
    def op_new(self, op):
        # another controller object; the old one is dropped (the host keeps running)
        self.ctrl = None
        self.construct(op)

    def op_init(self, op, tag=("C05", "C03")):
        if not self.ensure():
            return "error"
        allocated = self.world.alp_device.owner is not None if self.plan["family"] == "alp" else False
        out, value = self.invoke("initialize", self.ctrl.initialize, op)
        if out == "crash":
            return out
        if out == "ok":
            self.mode = True
            self.expect = None
        else:
            self.mode = False
            self.expect = None
            if not self.fired_now and not allocated and not self.world.alp_device.free_drops_library:
                self.viol.add(tag, "init_failed", "initialize failed without a fault: %r" % (value,))
        self.check_flag("initialize")
        return out

    def op_close(self, op):
        if not self.ensure():
            return "error"
        was = self.mode
        out, value = self.invoke("close", self.ctrl.close, op)
        if out == "crash":
            return out
        self.expect = None
        if out == "ok":
            self.mode = False
            self.leak_possible = False
            d = self.world.alp_device
            if self.plan["family"] == "alp":
                if d.owner is not None:
                    self.viol.add(["C04"], "device_kept", "close returned but the device is still allocated")
                if d.seqs:
                    self.viol.add(["C04"], "memory_kept", "close returned but %d image sequences are still on the device" % len(d.seqs))
                if d.running is not None:
                    self.viol.add(["C04"], "still_running", "close returned but the device still projects")
        else:
            self.mode = None if was is not False else False
            if was and not self.fired_now and self.history_clean:
                self.viol.add(["C04"], "close_failed", "close failed without a fault: %r" % (value,))
        self.check_flag("close")
        return out

    def check_flag(self, after):
        if self.ctrl is None or self.mode is None:
            return
        ans = self.ctrl.is_initialized()
        if bool(ans) != self.mode:
            self.viol.add(["C05"], "wrong_answer", "is_initialized() answers %r after %s%s" % (
                ans, after, "" if self.mode else " (failed, closed or never initialised)"))

    def make_images(self, op):
        w = self.world
        imgs = [image(i, w.height, w.width) for i in op["imgs"]]
        passed = [as_passed(i, op.get("layout", "C")) for i in imgs]
        if op.get("share"):                   # an image that occurs twice is the same array twice
            first = {}
            passed = [first.setdefault(str(i), p) for i, p in zip(op["imgs"], passed)]
        if op.get("buffer"):                  # the caller keeps one set of arrays and refills it for every load
            self.bufs = getattr(self, "bufs", [])
            while len(self.bufs) < len(imgs):
                self.bufs.append(np.zeros((w.height, w.width), dtype=bool))
            passed = self.bufs[:len(imgs)]
            for b, i in zip(passed, imgs):
                b[...] = i
        return imgs, passed

    def op_load(self, op):
        if not self.ensure():
            return "error"
        single = bool(op.get("single"))
        imgs, passed = self.make_images(op)
        copies = [p.copy() for p in passed]
        fam = self.plan["family"]
        mode = self.mode
        answered = bool(self.ctrl.is_initialized())
        s = LoadedSet(len(self.sets), imgs, self.invert, single)
        self.sets.append(s)
        mark = len(self.updates)
        if self.expect is not None:
            self.expect = None
        lst = list(passed)
        if op.get("buffer"):
            self.lst = getattr(self, "lst", lst)
            self.lst[:] = passed
            lst = self.lst
        if single:
            fn = lambda: self.ctrl.load_single(passed[0])
        else:
            fn = lambda: self.ctrl.load_multiple(lst)
        out, value = self.invoke("load_single" if single else "load_multiple", fn, op)
        for p, c in zip(passed, copies):
            if p.tobytes() != c.tobytes():      # (a boolean array may hold other bytes than 0 and 1, and then adds up to something else)
                self.viol.add(["C19", "C01"], "argument_modified", "load modified the image passed to it")
        if len(lst) != len(passed) or any(a is not b for a, b in zip(lst, passed)):
            self.viol.add(["C19", "C01"], "argument_modified", "load modified the list passed to it")
        # the caller goes on using its arrays
        if op.get("scribble"):
            for p in {id(p): p for p in passed}.values():
                if p.flags.writeable:
                    p[...] = ~p
        if out == "crash":
            return out
        if mode is False or (mode is None and not answered):
            if out == "ok":
                self.viol.add(["C05"], "unguarded", "a load returned normally on a controller that is not initialised")
            if self.attempted:
                self.viol.add(["C05"], "unguarded", "a load on a controller that is not initialised sent a device command")
            self.check_flag("a refused load")
            return out
        if out == "ok":
            self.after_load(s, mark, single, bool(op.get("trig")))
        else:
            self.expect = None
            if answered and not self.attempted:
                self.viol.add(["C05"], "guarded_though_initialised", "the controller says it is initialised but refused a load: %r" % (value,))
            if mode and not self.fired_now and fam == "alp" and not self.leak_possible and len(imgs) <= self.world.alp_device.memory \
                    and self.world.alp_device.owner is not None:
                self.viol.add(["C01", "C03", "C04"], "load_failed", "a load failed although nothing is wrong with the device: %r" % (value,))
            if mode and not self.fired_now and fam == "lux":
                self.viol.add(["C01", "C03", "C04"], "load_failed", "a load failed although nothing is wrong with the device: %r" % (value,))
        return out

    def mirrors(self):
        return (self.world.alp_device if self.plan["family"] == "alp" else self.world.lux_device).mirrors.image

    def after_load(self, s, mark, single, triggered):
        w = self.world
        tags = ["C01"] if self.history_clean else ["C01", "C03"]
        w.advance(5000)
        seen = [u for u in self.updates[mark:] if u is not None and u[0] == s.gen]
        # images of the set must come one by one, in order, starting with the first
        n = len(s.shown)
        distinct = len(set(s.keys)) == n
        overlap = any(not set(old.keys).isdisjoint(s.keys) for old in self.sets[:s.gen])
        if distinct and not single and not overlap:
            for k, (g, i) in enumerate(seen):
                if i != k % n:
                    self.viol.add(tags, "order", "after a load of %d images the mirrors showed image %d where image %d was due" % (n, i, k % n))
                    break
        lux = self.plan["family"] == "lux"
        if lux or single:                     # its first image is on the mirrors now
            self.maxgen = max(self.maxgen, s.gen)
        if not triggered:
            idx = 0 if (lux or single) else None
        elif overlap:
            # the same image is also in an earlier set: tell the position from what is shown
            cand = [i for i, g in enumerate(s.shown) if self.same(self.mirrors(), g)]
            if single or len(cand) == 1:
                idx = 0 if single else cand[0]
            elif not lux and self.mirrors() is None:
                idx = None
            elif not cand:
                idx = 0
            else:
                self.expect = None
                return
        else:
            idx = (len(seen) - 1) % n if seen else (0 if lux or single else None)
        if idx is not None and not self.same(self.mirrors(), s.shown[idx]):
            self.viol.add(tags, "not_shown", "a load returned but the mirrors show %s, expected image %d of load #%d" % (self.describe(self.mirrors()), idx, s.gen))
            self.expect = None
            return
        if idx is None and self.mirrors() is not None:
            self.viol.add(tags, "too_early", "a load of several images returned and the mirrors show %s before any trigger" % self.describe(self.mirrors()))
            self.expect = None
            return
        self.expect = ["single" if single else "multi", s, idx, tags]

    def same(self, a, b):
        return a is not None and np.array_equal(a, b)

    def describe(self, img):
        if img is None:
            return "nothing (dark)"
        for s in reversed(self.sets):
            for i, g in enumerate(s.shown):
                if np.array_equal(g, img):
                    return "image %d of load #%d" % (i, s.gen)
                if np.array_equal(~g, img):
                    return "image %d of load #%d, inverted" % (i, s.gen)
        return "an image never passed to a load"

    def check_still(self, since, what):
        """Nothing but what is expected was shown since `since`, and the mirrors still show it."""
        if self.expect is None:
            return
        kind, s, idx, tags = self.expect
        want = None if idx is None else s.shown[idx]
        if want is not None and not self.same(self.mirrors(), want):
            self.viol.add(tags, "not_kept", "%s the mirrors show %s instead of image %d of load #%d" % (what, self.describe(self.mirrors()), idx, s.gen))
            self.expect = None
            return
        for u in self.updates[since:]:
            bad = u is None if want is not None else u is not None
            if u is not None and want is not None and not (u[0] == s.gen and self.same(s.shown[u[1]], want)):
                bad = True
            if bad:
                self.viol.add(tags, "not_kept", "%s the mirrors did not keep image %s of load #%d" % (what, idx, s.gen))
                self.expect = None
                return

    def op_wait(self, op):
        since = len(self.updates)
        self.world.advance(int(op.get("dt", 100000)))
        self.check_still(since, "without any trigger")

    def trigger_once(self, fire, gap, what):
        since = len(self.updates)
        fire()
        self.world.advance(gap)
        if self.expect is None:
            return
        kind, s, idx, tags = self.expect
        n = len(s.shown)
        if kind == "single":
            self.check_still(since, "after %s" % what)
            return
        nxt = 0 if idx is None else (idx + 1) % n
        if not self.same(self.mirrors(), s.shown[nxt]):
            self.viol.add(tags, "trigger", "after %s the mirrors show %s, expected image %d of load #%d (%d images)" % (
                what, self.describe(self.mirrors()), nxt, s.gen, n))
            self.expect = None
            return
        shown = [u for u in self.updates[since:]]
        extra = [u for u in shown if u is None or not (u[0] == s.gen and self.same(s.shown[u[1]], s.shown[nxt]))]
        if extra:
            self.viol.add(tags, "trigger", "%s advanced the mirrors by more than one image" % what)
            self.expect = None
            return
        self.expect[2] = nxt

    def op_pulses(self, op):
        gap = max(self.GAP[self.plan["family"]], int(op.get("gap", 0)))
        for _ in range(int(op.get("n", 1))):
            self.trigger_once(lambda: self.world.pulse(op.get("source", "electrical")), gap, "one trigger pulse")

    def op_soft(self, op):
        """fire_software_trigger"""
        if not self.ensure():
            return "error"
        mode, answered = self.mode, bool(self.ctrl.is_initialized())
        if self.plan["family"] == "alp":
            out, value = self.invoke("soft", self.ctrl.fire_software_trigger, op)
            if mode is False and (out == "ok" or self.attempted):
                self.viol.add(["C05"], "unguarded", "a software trigger went through on a controller that is not initialised")
            return out
        if mode is False or (mode is None and not answered):
            out, value = self.invoke("soft", self.ctrl.fire_software_trigger, op)
            if out == "crash":
                return out
            if out == "ok" or self.attempted:
                self.viol.add(["C05"], "unguarded", "a software trigger went through on a controller that is not initialised")
            self.check_flag("a refused software trigger")
            return out
        res = {}
        low = self.world.lux_device.soft == 0
        edges = {"n": 0}
        orig = self.world.lux_device.edge

        def edge(rising, source):
            if rising:
                edges["n"] += 1
            return orig(rising, source)
        self.world.lux_device.edge = edge

        def fire():
            res["out"], res["value"] = self.invoke("soft", self.ctrl.fire_software_trigger, op)
        expect = self.expect
        if op.get("faults") or op.get("trig") or not low:
            self.expect = None
            since = len(self.updates)
            fire()
            self.world.advance(2000)
            if expect is not None and self.ctrl is not None:
                # resynchronise on what is shown: any number of advances, but in order
                kind, s, idx, tags = expect
                seen = [u for u in self.updates[since:] if u is not None and u[0] == s.gen]
                if all(u is not None and u[0] == s.gen for u in self.updates[since:]):
                    self.expect = [kind, s, (idx + len(seen)) % len(s.shown) if kind == "multi" else 0, tags]
        else:
            self.trigger_once(fire, 2000, "one software trigger")
        self.world.lux_device.edge = orig
        if res.get("out") == "ok" and low and not self.fired_now and edges["n"] != 1 and not op.get("trig"):
            self.viol.add(["C01"], "soft_trigger", "a software trigger produced %d rising edges" % edges["n"])
        if res.get("out") == "error" and mode and not self.fired_now:
            self.viol.add(["C05", "C01"], "soft_failed", "a software trigger failed on an initialised controller: %r" % (res["value"],))
        return res.get("out")

    def op_query(self, op):
        """Nx, Ny, number_image"""
        if not self.ensure():
            return "error"
        w = self.world
        which = op.get("which", "Nx")
        mode, answered = self.mode, bool(self.ctrl.is_initialized())
        fn = {"Nx": lambda: self.ctrl.Nx, "Ny": lambda: self.ctrl.Ny,
              "number_image": lambda: self.ctrl.number_image(op.get("number", 1)),
              "load_sequence": lambda: self.ctrl.load_sequence([])}[which]
        since = len(self.updates)
        if op.get("trig") or op.get("faults"):
            self.expect = None
        out, value = self.invoke(which, fn, op)
        if out == "crash":
            return out
        if mode is False or (mode is None and not answered):
            if out == "ok" or self.attempted:
                self.viol.add(["C05"], "unguarded", "%s worked or reached the device on a controller that is not initialised" % which)
            self.check_flag("a refused %s" % which)
            return out
        if which != "load_sequence" and mode and not self.fired_now and (self.plan["family"] == "lux" or w.alp_device.owner is not None):
            want = {"Nx": w.width, "Ny": w.height}.get(which)
            if out != "ok":
                self.viol.add(["C05"], "refused", "%s failed on an initialised controller: %r" % (which, value))
            elif which == "number_image":
                if getattr(value, "shape", None) != (w.height, w.width) or value.dtype != bool:
                    self.viol.add(["C05"], "wrong_size", "number_image has the wrong size or type")
            elif value != want:
                self.viol.add(["C05"], "wrong_size", "%s is %r" % (which, value))
        self.check_still(since, "during a query")
        return out

    def op_restart(self, op):
        """The host process dies between calls and is started again."""
        try:
            self.world.crash()
        except devices.HostCrash:
            pass
        self.host_restart()
        self.ensure()

    def op_power(self, op):
        """The operator power-cycles the Luxbeam and initialises again."""
        if self.plan["family"] == "lux":
            self.world.count("fault:power_cycle")
            self.world.lux_device.power_cycle()
            self.expect = None
            if self.ctrl is not None:
                self.op_init({})

    def op_recover(self, op):
        """Bounded recovery once faults have stopped (C03)."""
        if self.ctrl is None:
            self.construct({})
            self.op_init({}, tag=("C03",))
        n0 = len(self.viol)
        out = self.op_load(op)
        self.world.count("recovery:retry" if out == "ok" else "recovery:reinit")
        if out != "ok":
            for _ in range(2):
                if self.op_close({}) == "ok":
                    break
            if self.world.alp_device.free_drops_library:
                self.construct({})
            out = self.op_init({}, tag=())
            if out != "ok":
                # a second controller object (the first may be unusable)
                self.construct({})
                out = self.op_init({}, tag=())
            if out != "ok":
                self.viol.add(["C03"], "no_recovery", "after the faults stopped, close and initialize do not bring the controller back")
                return out
            out = self.op_load(op)
            if out != "ok":
                self.viol.add(["C03"], "no_recovery", "after the faults stopped and a fresh initialize, a load still fails")
                return out
        k = len(self.viol)
        self.op_pulses({"n": 2 * len(op["imgs"]) + 1})
        self.op_wait({"dt": 40000})
        if len(self.viol) > n0 and any("C01" in v[0] for v in self.viol[n0:]):
            self.viol.add(["C03"], "no_recovery", "after the faults stopped a load returns but is not displayed correctly")
        return out

    def op_second(self, op):
        """After a close that returned, another controller can open and use the device (C04)."""
        if self.ctrl is None or self.mode is not False:
            out = self.op_close({}) if self.ctrl is not None else "none"
            if out != "ok":
                return out
        elif self.plan["family"] == "alp" and self.world.alp_device.owner is not None:
            return "still open"
        self.construct({})
        out = self.op_init({}, tag=("C04", "C03"))
        if out == "ok":
            n0 = len(self.viol)
            out = self.op_load({"imgs": op["imgs"], "single": op.get("single", True)})
            if out != "ok":
                self.viol.add(["C04"], "second_controller", "another controller cannot load after the first was closed")
        return out

    # ---------------------------------------------------------------------------------------------------------- run
    def abstract(self, op):
        w = self.world
        a, l = w.alp_device, w.lux_device
        if self.plan["family"] == "alp":
            st = (a.owner is not None, a.running is not None, a.proj_mode, a.trigger_edge, len(a.seqs), a.used() * 4 // max(1, a.memory), a.pos)
        else:
            st = (l.run, l.reset_line, l.program is None, l.regs.get(0), l.pc, l.waiting is not None, sum(x is not None for x in l.slots), l.soft)
        f = op.get("faults") or [{}]
        return (self.plan["family"], self.mode, st, op["op"], f[0].get("kind"), f[0].get("at"))

    def execute(self):
        self.mod = fresh_controllers()
        CURRENT[0] = self.world
        try:
            self.construct({})
            for op in self.plan["ops"]:
                getattr(self, "op_" + op["op"])(op)
                self.states.add(hash_state(self.abstract(op)))
                if len(self.viol) > 20:
                    break
        finally:
            CURRENT[0] = None
        return self


def hash_state(t):
    import hashlib
    return hashlib.sha1(repr(t).encode()).hexdigest()[:12]


# ------------------------------------------------------------------------------------------------------------ generator
ALP_KINDS = ["err_before", "err_after", "interrupt_before", "interrupt_after", "crash_before", "crash_after", "slow"]
LUX_KINDS = ["lost_request", "lost_ack", "err_before", "interrupt_before", "interrupt_after", "crash_before", "crash_after", "slow"]
PUT_KINDS = ["partial", "partial_interrupt", "partial_crash"]


def gen_fault(r, fam, ncmd):
    kind = r.choice(ALP_KINDS if fam == "alp" else LUX_KINDS)
    if r.random() < 0.2:
        kind = r.choice(PUT_KINDS)
    f = {"at": r.randrange(ncmd), "kind": kind}
    if kind in PUT_KINDS:
        f["chunk"] = r.randrange(4)
        # aim at the uploads
        f["at"] = (r.choice([5, 5, 6, 7, 6]) if fam == "alp" else r.choice([4, 4, 5, 6, 2]))
    return f


def gen_trig(r, fam, ncmd):
    t = {"at": r.randrange(ncmd), "phase": r.choice(["before", "after", "chunk"]), "n": r.randint(1, 3)}
    if t["phase"] == "chunk":
        t["chunk"] = r.randrange(4)
        t["at"] = r.choice([5, 6, 7]) if fam == "alp" else r.choice([4, 5, 6])
    if fam == "lux":
        t["source"] = r.choice(["electrical", "optical"])
        t["gap"] = r.choice([0, 100, 700, 1000])
    else:
        t["gap"] = r.choice([0, 30, 60, 700])
    return t


def generate(seed, focus, tier="quick"):
    r = rand("ctl", focus, seed)
    fam = r.choice(["alp", "lux"]) if focus != "C04" else r.choice(["alp", "alp", "alp", "lux"])
    maxset = r.choice([1, 2, 3, 4, 6]) if r.random() < 0.94 else r.choice([9, 12, 17, 33])
    faulty = {"C01": 0.45, "C02": 0.55, "C03": 1.0, "C04": 0.4, "C05": 0.5, "C19": 0.4}[focus] > r.random()
    fault_rate = r.choice([0.08, 0.15, 0.3, 0.5]) if faulty else 0.0
    trig_rate = {"C02": r.choice([0.3, 0.7, 0.9])}.get(focus, r.choice([0, 0, 0.2, 0.5]))
    size = (r.choice([16, 16, 24, 9]), r.choice([8, 8, 5, 12]))
    if r.random() < 0.004 and maxset < 5:
        size = r.choice([(1024, 768), (1920, 1080), (333, 257)])
    dev = {"w": size[0], "h": size[1], "memory": r.choice([maxset, maxset, maxset, maxset + 1, 2 * maxset, 64]),
           "freeseq_forgets": r.random() < 0.3, "freeseq_warns": focus in ("C01", "C02", "C04") and r.random() < 0.15,
           "free_drops": r.random() < 0.15}
    ctrl = {"invert": r.random() < 0.4, "timeout": r.choice([None, 1.0, 1.0])}
    nops = r.randint(3, 14) if focus != "C04" else r.choice([8, 20, 60]) if r.random() < 0.97 else 300
    if size[0] > 100:
        nops = r.randint(3, 6)
    elif r.random() < 0.003:                  # more images than fit in a byte
        maxset = r.choice([256, 257, 260, 300])
        dev.update(w=16, h=5, memory=2 * maxset, slots=400)
        nops = r.randint(2, 5)
    ops = []
    ident = r.randrange(10 ** 6) * 1000
    recent = []
    scribbling, buffering = (0.3, r.choice([0, 0, 0.8])) if focus != "C19" else (0.6, r.choice([0, 0.8]))

    def load():
        nonlocal ident
        single = r.random() < 0.45
        if recent and r.random() < 0.12:
            imgs = list(r.choice(recent))
            single = single and len(imgs) == 1
        else:
            n = 1 if single else r.randint(1 if maxset < 100 else maxset - 2, maxset)
            imgs = [ident + i for i in range(n)]
            ident += n
            if not single and n > 2 and r.random() < 0.1:
                imgs[r.choice([-1, -1, 1])] = imgs[0]
            if r.random() < 0.06:
                imgs[r.randrange(n)] = [ident, r.choice(["on", "off"]), 0]
            if recent and r.random() < 0.2:   # a close relative of an earlier set
                old = list(r.choice(recent[-3:]))
                how = r.choice(["order", "prefix", "one", "near", "near", "longer"])
                if single:
                    how = "near"
                    old = old[:1]
                i = r.randrange(len(old))
                if how == "order":
                    r.shuffle(old)
                elif how == "prefix":
                    old = old[:r.randint(1, len(old))]
                elif how == "one":
                    old[i] = imgs[0]
                elif how == "longer":
                    old = (old + imgs)[:maxset]
                elif not isinstance(old[i], list):
                    old[i] = [old[i], r.choice(["pixel", "swap", "not", "mirror", "roll"]), r.randrange(10 ** 4)]
                imgs = old
            recent.append(imgs)
        op = {"op": "load", "imgs": imgs, "single": single, "layout": r.choice(["C", "C", "C", "F", "strided", "readonly"])}
        if r.random() < scribbling:
            op["scribble"] = True
        if r.random() < buffering:
            op["buffer"] = True
        elif r.random() < 0.5:
            op["share"] = True
        return op

    def spice(op, ncmd):
        if r.random() < fault_rate:
            op["faults"] = [gen_fault(r, fam, ncmd)]
            if r.random() < 0.15:              # the trouble lasts: what the call does about it may fail too
                f = op["faults"][0]
                for i in range(1, r.choice([2, 3, 6])):
                    op["faults"].append(dict(f, at=f["at"] + i, kind=r.choice([f["kind"], "err_before"])))
        if r.random() < trig_rate:
            op["trig"] = [gen_trig(r, fam, ncmd) for _ in range(r.randint(1, 3))]
        return op

    if focus == "C05":
        weights = dict(load=4, init=3, close=3, query=5, soft=2, pulses=1, wait=0, restart=0.3, new=0.5, power=0.2, second=0.2)
    elif focus == "C04":
        weights = dict(load=12, init=0.3, close=0.6, query=0.3, soft=0.3, pulses=1, wait=0.3, restart=0.2, new=0, power=0.1, second=0.6)
    elif focus == "C02":
        weights = dict(load=7, init=0.4, close=0.3, query=0.2, soft=1, pulses=3, wait=0.5, restart=0.4, new=0.1, power=0.2, second=0.2)
    else:
        weights = dict(load=7, init=0.5, close=0.6, query=0.5, soft=1.5, pulses=4, wait=1, restart=0.4, new=0.1, power=0.2, second=0.3)
    names = list(weights)
    if focus != "C05" or r.random() < 0.5:
        ops.append(spice({"op": "init"}, 6) if faulty and r.random() < 0.4 else {"op": "init"})
    for _ in range(nops):
        name = r.choices(names, [weights[n] for n in names])[0]
        if name == "load":
            op = load()
            spice(op, 11 if fam == "alp" else 5 + len(op["imgs"]))
        elif name == "init":
            op = spice({"op": "init"}, 4 if fam == "alp" else 5)
        elif name == "close":
            op = spice({"op": "close"}, 3)
        elif name == "query":
            op = {"op": "query", "which": r.choice(["Nx", "Ny", "number_image", "load_sequence"]), "number": r.randrange(20)}
            spice(op, 2)
        elif name == "soft":
            op = spice({"op": "soft"}, 2)
        elif name == "pulses":
            op = {"op": "pulses", "n": r.randint(1, 2 * maxset + 1), "gap": r.choice([0, 0, 1500, 5000, 60000])}
            if fam == "lux":
                op["source"] = r.choice(["electrical", "optical"])
        elif name == "wait":
            op = {"op": "wait", "dt": r.choice([1000, 40000, 100000, 300000])}
        elif name in ("new",):
            op = {"op": "close"}
            ops.append(op)
            op = {"op": "new"}
            if r.random() < 0.5:
                op["ctrl"] = {"invert": r.random() < 0.5, "timeout": ctrl["timeout"]}
        elif name == "second":
            i = load()
            op = {"op": "second", "imgs": i["imgs"], "single": i["single"]}
        else:
            op = {"op": name}
        ops.append(op)
        if name == "restart" and focus != "C05":
            ops.append({"op": "init"})
        if name == "close" and focus in ("C01", "C02", "C04") and r.random() < 0.8:
            ops.append({"op": "init"})
        if op.get("faults") and focus in ("C01", "C02", "C04") and r.random() < 0.6:
            again = dict(op)
            again.pop("faults")
            ops.append(again)
        if op.get("faults") and focus == "C03" and r.random() < 0.5:
            l = load()
            ops.append({"op": "recover", "imgs": l["imgs"], "single": l["single"]})
    if focus in ("C01", "C02", "C03"):
        l = load()
        ops.append({"op": "recover", "imgs": l["imgs"], "single": l["single"]})
        if focus == "C01":
            ops.append({"op": "wait", "dt": 100000})
    if focus == "C04":
        l = load()
        ops.append({"op": "close"})
        ops.append({"op": "second", "imgs": l["imgs"], "single": l["single"]})
    if focus == "C05":
        ops += [{"op": "query", "which": q} for q in ("Nx", "number_image")]
    return {"family": fam, "dev": dev, "ctrl": ctrl, "ops": ops}
