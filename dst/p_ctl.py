"""C01-C05: controllers on simulated devices."""
from . import ctl
from .core import Property, Result


class CtlProperty(Property):
    needs_tf = True
    state_measure = "hash of (controller family, initialised, abstract device state, operation, fault kind and place) after every operation"
    rule = ("A case is a seeded plan: device geometry and memory, binding variant, inversion and time-out, 3-60 operations (loads, triggers, "
            "software triggers, waits, queries, close/initialise, host restart, power cycle) with faults at chosen device commands and trigger "
            "pulses at chosen points of chosen commands. Non-trivial: at least two library calls reached the device and at least one mirror "
            "update (C05: at least one refused call) was judged.")
    real = ["pySLM2.util.controller (ALPController, LuxbeamController, DMDControllerBase)", "pySLM2.util.sample", "package import"]
    stub = ["ALP4lib and the ALP device", "Luxbeam binding and device", "clock", "trigger lines"]
    assumptions = ["the device models in dst/devices.py behave like the vendor documentation says", "triggers come no faster than the device accepts them, except during loads"]
    technique = "deterministic simulation of the devices with seeded fault injection"

    def generate(self, seed, tier):
        return ctl.generate(seed, self.id, tier)

    def execute(self, plan):
        run = ctl.CtlRun(plan).execute()
        r = Result()
        w = run.world
        r.viol = [(cls, msg) for props, cls, msg in run.viol if self.id in props]
        for props, cls, msg in run.viol:
            if self.id not in props:
                r.count("other_property_violations:" + props[0])
        r.stats.update(w.stats)
        r.states = run.states
        r.sim_us = w.now
        for line in w.log:
            r.record(*line)
        r.record(sorted(run.viol))
        calls = sum(v for k, v in w.stats.items() if k.startswith("call:") and k.endswith(":ok"))
        refused = sum(v for k, v in w.stats.items() if k.startswith("call:") and k.endswith(":error"))
        r.nontrivial = calls >= 2 and (run.checked > 0 if self.id != "C05" else refused > 0)
        return r


TRUST = ' Nothing is proved: seeded search over plans, each exactly repeatable. Trusts the device models (ALP sequences and memory, Luxbeam inums and sequencer programs) and the oracle in dst/ctl.py.'


def _make(pid, quick, thorough, note):
    return type(pid, (CtlProperty,), dict(id=pid, quick_runs=quick, thorough_runs=thorough, level_note=note))


PROPS = {
    "C01": _make("C01", 16000, 400000, "Thousands of seeded histories of loads, triggers, failures and recoveries on simulated devices; the mirrors' history is compared with the images of the last successful load after every operation." + TRUST),
    "C02": _make("C02", 16000, 400000, 'As C01, with triggers arriving during loads and a fault or interrupt at any device command; every mirror update is attributed to one completely uploaded set.' + TRUST),
    "C03": _make("C03", 16000, 400000, 'Fault sequences at every device command of initialise, load, trigger and close, then faults stop and a bounded recovery must succeed; failing commands must surface.' + TRUST),
    "C04": _make("C04", 8000, 200000, 'Long load histories against small device memories, failures half way, closes and hand-over of the device to a second controller.' + TRUST),
    "C05": _make("C05", 20000, 400000, 'Calls before initialise, after failed initialise and after close in every state reached; the device must see no command.' + TRUST),
}
