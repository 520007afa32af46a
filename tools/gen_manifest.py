#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import registry  # noqa: E402

PURE = ("it is a pure function of its arguments: no scheduling, time, I/O, randomness, failure or session history enters it, so there is "
        "nothing for a simulator to schedule or inject; ")
REASONS = {
    "N01": PURE + "the formulas are only used here as the reference model of C13 (history and parameter changes).",
    "N02": PURE + "deciding it needs input enumeration or algebra, not schedules.",
    "N03": PURE + "it is an arithmetic identity over the integers (induction or enumeration).",
    "N04": PURE + "its history-dependent side (caches, several modulators) is C14, its side in the optics is C12.",
    "N05": PURE + "it depends on the font files of matplotlib and on nothing that can be scheduled.",
}


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in registry.MODULES:
            c = registry.get(pid)
            assert c.level_note, pid
            checks.append(dict(property=pid, quick_cmd="./check %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check %s" % pid,
                               evidence_file="evidence/%s.json" % pid, technique=c.technique, level=c.level, level_note=c.level_note))
        else:
            na.append(dict(property=pid, reason=REASONS.get(pid, "no check built yet")))
    doc = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Everything runs from /verif against /repo's working tree (pure Python, nothing to build). No hooks were added to /repo: the seams "
                     "are the vendor modules, numpy.fft, tf.random.uniform, the import system, sys.settrace and the thread scheduler.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
