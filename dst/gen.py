"""Seeded generators of geometries, profiles and operations."""
import math

EDGE = 1.00037172937          # keeps sharp edges off the sample points


MEDIUM = [(100, 76), (76, 100), (130, 97), (96, 96), (200, 150), (257, 64), (64, 300), (128, 128), (150, 111)]
LARGE = [(640, 530), (530, 640), (1024, 600), (515, 1030), (1024, 768), (700, 700), (1920, 200), (131, 1080)]


def slm_spec(r, kind=None, sizes=None, mid=0.0, big=0.0):
    """A modulator; with probability `mid` / `big` a medium or large one (comparable to real devices)."""
    kind = kind or r.choice(["dmd", "dmd", "lcos"])
    q = r.random() if mid or big else 1.0
    nx, ny = r.choice(LARGE if q < big else MEDIUM if q < big + mid else sizes or [(32, 24), (24, 32), (20, 20), (31, 23), (16, 12), (25, 16)])
    s = {"kind": kind, "Nx": nx, "Ny": ny, "px": r.choice([7.56e-6, 10.8e-6, 13.68e-6]), "wl": r.choice([369e-9, 532e-9, 780e-9]),
         "f": r.choice([0.1, 0.2, 0.5])}
    if kind == "dmd":
        s.update(p=r.choice([3.0, 4.0, 5.5, 7.3]), theta=r.choice([0.0, math.pi / 4, 0.3, 2.2, -1.0]), neg=r.random() < 0.35)
    return s


def cap(n, slms):
    """Number of operations of a session: fewer when its modulators are large."""
    pixels = max(s["Nx"] * s["Ny"] for s in slms)
    return n if pixels < 3000 else max(4, min(n, 16)) if pixels < 100000 else max(3, min(n, 9))


def extent(s, plane):
    """half width of the plane and a typical pixel"""
    if plane == "f":
        return 0.5 * min(s["Nx"], s["Ny"]) * s["px"], s["px"]
    px = s["wl"] * s["f"] / (max(s["Nx"], s["Ny"]) * s["px"])
    return 0.5 * min(s["Nx"], s["Ny"]) * px, px


def leaf(r, s, plane, positive=False, kinds=None):
    L, px = extent(s, plane)
    t = r.choice(kinds or (["hg", "sg", "sg", "lg", "zern", "rectwin", "circwin", "const"] if not positive else ["sg", "sg", "hg"]))
    w = round(r.uniform(0.25, 0.8), 3) * L
    x0, y0 = round(r.uniform(-0.3, 0.3), 3) * L, round(r.uniform(-0.3, 0.3), 3) * L
    a = round(r.uniform(0.3, 2.0), 3)
    if t == "hg":
        n, m = (0, 0) if positive else (r.choice([0, 0, 1, 2, 5]), r.choice([0, 0, 1, 3, 4]))
        return {"t": "hg", "x0": x0, "y0": y0, "a": a, "w": w, "n": n, "m": m}
    if t == "sg":
        return {"t": "sg", "x0": x0, "y0": y0, "a": a, "w": w, "p": r.choice([1.0, 1.0, 2.0, 3.0])}
    if t == "lg":
        return {"t": "lg", "x0": x0, "y0": y0, "a": a, "w": w, "l": r.choice([0, 1, -1, 2, -3]), "p": r.choice([0, 0, 1, 2, 3])}
    if t == "zern":
        n = r.choice([0, 1, 2, 2, 3, 4, 6])
        m = r.choice([k for k in range(-n, n + 1) if (n - k) % 2 == 0])
        return {"t": "zern", "a": a, "radius": round(r.uniform(0.6, 1.6), 3) * EDGE * L, "n": n, "m": m, "norm": r.random() < 0.7, "extra": r.random() < 0.4}
    if t == "rectwin":
        return {"t": "rectwin", "x0": x0, "y0": y0, "wx": w * 1.5 * EDGE, "wy": w * 1.2 * EDGE}
    if t == "circwin":
        return {"t": "circwin", "x0": x0, "y0": y0, "r": w * EDGE}
    return {"t": "const", "c": a if r.random() < 0.7 else [a, round(r.uniform(-1, 1), 3)]}


def beam(r, s, aberrated=None, clipped=None):
    """A laser beam at the modulator."""
    L, px = extent(s, "f")
    b = {"t": "sg", "x0": round(r.uniform(-0.15, 0.15), 3) * L, "y0": round(r.uniform(-0.15, 0.15), 3) * L, "a": round(r.uniform(0.5, 2), 3),
         "w": round(r.uniform(0.7, 1.3), 3) * L, "p": r.choice([1.0, 1.0, 2.0])}
    if r.random() < (0.3 if aberrated is None else float(aberrated)):
        z = {"t": "zern", "a": round(r.uniform(-0.8, 0.8), 3), "radius": 1.5 * L, "n": 2, "m": r.choice([-2, 0, 2]), "norm": True, "extra": True}
        b = {"t": "mul", "a": b, "b": {"t": "cplx", "a": z}}
    if r.random() < (0.15 if clipped is None else float(clipped)):
        b = {"t": "mul", "a": b, "b": {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": round(r.uniform(0.7, 1.0), 3) * EDGE * L}}
    return b


def bright_beam(r, s):
    """A beam that is not dark anywhere on the modulator, so that what is computed from it is well conditioned."""
    L = 0.5 * max(s["Nx"], s["Ny"]) * s["px"]
    b = {"t": "sg", "x0": round(r.uniform(-0.1, 0.1), 3) * L, "y0": round(r.uniform(-0.1, 0.1), 3) * L, "a": round(r.uniform(0.5, 2), 3),
         "w": round(r.uniform(0.9, 1.6), 3) * L, "p": 1.0}
    if r.random() < 0.4:
        z = {"t": "zern", "a": round(r.uniform(-0.8, 0.8), 3), "radius": 1.5 * L, "n": 2, "m": r.choice([-2, 0, 2]), "norm": True, "extra": True}
        b = {"t": "mul", "a": b, "b": {"t": "cplx", "a": z}}
    if r.random() < 0.15:
        b = {"t": "mul", "a": b, "b": {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": round(r.uniform(0.7, 1.0), 3) * EDGE * L}}
    return b


def target(r, s):
    L, px = extent(s, "i")
    t = r.choice(["sg", "hg", "lg", "two"])
    w = round(r.uniform(1.5, 3.5), 3) * px
    x0, y0 = round(r.uniform(-2, 2), 2) * px, round(r.uniform(-2, 2), 2) * px
    if t == "sg":
        return {"t": "sg", "x0": x0, "y0": y0, "a": 1.0, "w": w, "p": r.choice([1.0, 2.0])}
    if t == "hg":
        return {"t": "hg", "x0": x0, "y0": y0, "a": 1.0, "w": w, "n": r.choice([0, 1]), "m": r.choice([0, 1])}
    if t == "lg":
        return {"t": "lg", "x0": x0, "y0": y0, "a": 1.0, "w": w, "l": r.choice([1, -1, 0]), "p": 0}
    return {"t": "add", "a": {"t": "sg", "x0": x0, "y0": y0, "a": 1.0, "w": w, "p": 1.0},
            "b": {"t": "sg", "x0": -1.5 * x0, "y0": y0 + 2 * px, "a": 0.6, "w": w, "p": 1.0}}


def as_arg(r, spec, how=None):
    return {"as": how or r.choice(["array", "array", "tensor", "profile"]), "spec": spec}


def bad_arg(r):
    if r.random() < 0.5:
        return {"as": "fail", "exc": r.choice(["ValueError", "MemoryError", "RuntimeError", "KeyboardInterrupt"])}
    return {"as": "bad", "what": r.choice(["shape", "string", "object", "list"])}


def kw_for(r, s, method, n_ifta=None):
    if method == "random":
        return {"r": r.choice([1.0, 3.0, 10.0])} if r.random() < 0.5 else {}
    if method == "ifta":
        L, px = extent(s, "i")
        return {"N": n_ifta or r.choice([2, 3, 5, 8]), "s": r.choice([1.0, 0.9]),
                "signal_window": as_arg(r, {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": 8 * EDGE * px}, "array")}
    return {}


def calc(r, k, s, methods=("random", "random", "ideal", "simple", "ifta"), how=None):
    m = r.choice(methods)
    op = {"op": "calc", "slm": k, "input": as_arg(r, beam(r, s), how), "target": as_arg(r, target(r, s), how), "method": m,
          "kw": kw_for(r, s, m), "seed": r.randrange(10 ** 9)}
    if r.random() < 0.25:
        op["window"] = window(r, s, how)
    return op


def window(r, s, how=None):
    """Sharp, soft, constant, and with a phase of its own."""
    L, px = extent(s, "f")
    q = r.random()
    circ = {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": 0.9 * EDGE * L}
    if q < 0.4:
        return as_arg(r, circ, how)
    if q < 0.55:
        return as_arg(r, {"t": "rectwin", "x0": round(r.uniform(-0.2, 0.2), 3) * L, "y0": 0.0, "wx": 1.5 * EDGE * L, "wy": 1.7 * EDGE * L}, how)
    if q < 0.68:
        return as_arg(r, {"t": "sg", "x0": 0.0, "y0": round(r.uniform(-0.1, 0.1), 3) * L, "a": r.choice([1.0, 0.6]), "w": round(r.uniform(0.7, 1.2), 3) * L, "p": r.choice([1.0, 2.0])}, how)
    if q < 0.9:
        n, m = r.choice([(1, 1), (1, -1), (2, 0), (2, 2)])
        z = {"t": "cplx", "a": {"t": "zern", "a": round(r.choice([-1, 1]) * r.uniform(0.3, 1.5), 3), "radius": 1.5 * L, "n": n, "m": m, "norm": True, "extra": True}}
        return as_arg(r, {"t": "mul", "a": circ if r.random() < 0.5 else {"t": "const", "c": 1.0}, "b": z}, how)
    return {"as": "number", "v": r.choice([1.0, 0.5, [0.6, 0.8], -1.0])}


def phase_arg(r, s, how=None):
    q = r.random()
    if q < 0.4:
        return {"as": "number", "v": r.choice([0, 0.5, -1.2, 3.0])}
    L, px = extent(s, "f")
    return as_arg(r, {"t": "zern", "a": round(r.uniform(-1, 1), 3), "radius": 1.5 * L, "n": 2, "m": r.choice([-2, 0, 2]), "norm": True, "extra": True}, how)


def amp_arg(r, s, how=None):
    q = r.random()
    if q < 0.5:
        return {"as": "number", "v": r.choice([1, 1, 0.5, 0.25, 0, 0.8])}
    L, px = extent(s, "f")
    return as_arg(r, {"t": "sg", "x0": 0.0, "y0": 0.0, "a": r.choice([1.0, 0.7]), "w": r.choice([0.5, 1.0]) * L, "p": 1.0}, how)


def grating(r, k, s, methods=("random", "random", "ideal", "simple"), how=None):
    m = r.choice(methods)
    op = {"op": "grating", "slm": k, "amp": amp_arg(r, s, how), "pin": phase_arg(r, s, how), "pout": phase_arg(r, s, how), "method": m,
          "kw": kw_for(r, s, m), "seed": r.randrange(10 ** 9)}
    if m == "ifta":
        op["kw"]["input_profile"] = as_arg(r, beam(r, s), "array")
    return op


def patch(r, k, s, methods=("random", "random", "ideal", "simple"), how=None):
    op = grating(r, k, s, methods, how)
    op["op"] = "patch"
    op["i"] = r.choice([r.randint(0, s["Ny"] - 1), round(r.uniform(-3, s["Ny"] + 3), 2)])
    op["j"] = r.choice([r.randint(0, s["Nx"] - 1), round(r.uniform(-3, s["Nx"] + 3), 2)])
    op["d"] = r.choice([r.randint(1, 10), round(r.uniform(0.5, 14), 2), 1, 200])
    return op


def hologram(r, k, s, nmax=6, how=None):
    m = r.choice(["gs", "gs", "mraf"])
    L, px = extent(s, "i")
    spec = {"t": "sg", "x0": round(r.uniform(-3, 3), 2) * px, "y0": round(r.uniform(-3, 3), 2) * px, "a": 1.0, "w": round(r.uniform(1.5, 4), 2) * px, "p": r.choice([1.0, 2.0])}
    op = {"op": "hologram", "slm": k, "input": as_arg(r, beam(r, s), how), "target": as_arg(r, spec, how), "method": m,
          "kw": {"N": r.randint(1, nmax)}, "seed": r.randrange(10 ** 9)}
    if m == "mraf":
        op["kw"]["signal_window"] = as_arg(r, {"t": "circwin", "x0": 0.0, "y0": 0.0, "r": 8 * EDGE * px}, "array")
        op["kw"]["mixing_factor"] = r.choice([0.4, 0.7, 1.0])
    return op


def call_fault(r, hi):
    return {"kind": "call", "at": r.randrange(hi), "exc": r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}


def fft_fault(r, hi):
    return {"kind": "fft", "at": r.randrange(hi), "exc": r.choice(["MemoryError", "FloatingPointError", "RuntimeError", "ValueError"])}


def rng_fault(r):
    return {"kind": "rng", "at": 0, "exc": r.choice(["MemoryError", "RuntimeError"])}
