"""Reference model: what the library is documented to compute, in numpy float64 / complex128 (independent of the library)."""
import math

import numpy as np
from scipy.special import eval_genlaguerre, eval_hermite, factorial

FFT2, IFFT2 = np.fft.fft2, np.fft.ifft2        # taken before the seam is installed


class Geometry:
    def __init__(self, d):
        self.Nx, self.Ny, self.px, self.wl, self.f = d["Nx"], d["Ny"], d["px"], d["wl"], d["f"]
        self.scale = self.wl * self.f

    def fourier_grid(self, padx=0, pady=0):
        j = np.arange(-padx, self.Nx + padx)
        i = np.arange(-pady, self.Ny + pady)
        x = (j - self.Nx / 2) * self.px
        y = (self.Ny / 2 - i) * self.px
        return np.meshgrid(x, y)

    def image_grid(self, padx=0, pady=0):
        nx, ny = self.Nx + 2 * padx, self.Ny + 2 * pady
        x = np.fft.fftshift(np.fft.fftfreq(nx, self.px)) * self.scale
        y = -np.fft.fftshift(np.fft.fftfreq(ny, self.px)) * self.scale
        return np.meshgrid(x, y)

    def index_grid(self):
        return np.meshgrid(np.arange(self.Ny, dtype=float), np.arange(self.Nx, dtype=float), indexing="ij")


def number(v):
    """JSON number: float, or [re, im]."""
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else float(v)


def zernike_radial(n, m, rho):
    out = np.zeros_like(rho)
    for k in range((n - m) // 2 + 1):
        out = out + (-1) ** k * math.factorial(n - k) / (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k)) * rho ** (n - 2 * k)
    return out


def evaluate(s, x, y, params=None):
    """Value of a profile spec at (x, y). `params(id)` gives the current parameters of a named leaf."""
    if not isinstance(s, dict):
        return number(s) * np.ones_like(x)
    t = s["t"]
    ev = lambda q, a=x, b=y: evaluate(q, a, b, params)
    if t == "ref":
        leaf = params(s["id"])
        return evaluate(leaf, x, y, params)
    if t == "int":
        return float(s["v"]) * np.ones_like(x)
    if t == "const":
        return number(s["c"]) * np.ones_like(x)
    if t == "hg":
        u, v = (x - s["x0"]) / s["w"], (y - s["y0"]) / s["w"]
        return s["a"] * eval_hermite(s.get("n", 0), math.sqrt(2) * u) * eval_hermite(s.get("m", 0), math.sqrt(2) * v) * np.exp(-(u ** 2 + v ** 2))
    if t == "sg":
        u, v = (x - s["x0"]) / s["w"], (y - s["y0"]) / s["w"]
        return s["a"] * np.exp(-(u ** 2 + v ** 2) ** s.get("p", 1.0))
    if t == "lg":
        r2 = (x - s["x0"]) ** 2 + (y - s["y0"]) ** 2
        phi = np.arctan2(y - s["y0"], x - s["x0"])
        l, p, w = s.get("l", 0), s.get("p", 0), s["w"]
        amp = s["a"] * (math.sqrt(2) * np.sqrt(r2) / w) ** abs(l) * np.exp(-r2 / w ** 2) * eval_genlaguerre(p, abs(l), 2 * r2 / w ** 2)
        return amp * np.exp(-1j * l * phi)
    if t == "zern":
        n, m = s["n"], s["m"]
        rho, phi = np.sqrt(x ** 2 + y ** 2) / s["radius"], np.arctan2(y, x)
        if n == 0:
            z = np.ones_like(rho)
        else:
            z = zernike_radial(n, abs(m), rho)
            z = z * (np.cos(m * phi) if m > 0 else np.sin(-m * phi) if m < 0 else 1.0)
        if s.get("norm", True):
            z = z * (math.sqrt(n + 1) if m == 0 else math.sqrt(2 * n + 2))
        z = s["a"] * z
        return z if s.get("extra", False) else np.where(rho > 1.0, 0.0, z)
    if t == "rectwin":
        return ((np.abs(x - s["x0"]) < s["wx"] / 2) & (np.abs(y - s["y0"]) < s["wy"] / 2)).astype(float)
    if t == "circwin":
        return ((x - s["x0"]) ** 2 + (y - s["y0"]) ** 2 <= s["r"] ** 2).astype(float)
    if t in ("add", "radd"):
        return ev(s["a"]) + ev(s["b"])
    if t == "sub":
        return ev(s["a"]) - ev(s["b"])
    if t in ("mul", "rmul"):
        return ev(s["a"]) * ev(s["b"])
    if t == "div":
        return ev(s["a"]) / ev(s["b"])
    if t == "pow":
        return ev(s["a"]) ** (s["b"]["v"] if isinstance(s["b"], dict) else number(s["b"]))
    if t == "neg":
        return -ev(s["a"])
    if t == "rotate":
        c, q = math.cos(s["theta"]), math.sin(s["theta"])
        return ev(s["a"], c * x - q * y, q * x + c * y)
    if t == "shift":
        return ev(s["a"], x - s["dx"], y - s["dy"])
    if t == "rescale_x":
        return ev(s["a"], x / s["m"], y)
    if t == "rescale_y":
        return ev(s["a"], x, y / s["m"])
    if t == "cplx":
        return np.exp(1j * ev(s["a"]))
    raise AssertionError(t)


def magnitude(s, x, y, params=None):
    """Scale of the intermediate values of a profile spec (for rounding tolerances)."""
    mg = lambda q: magnitude(q, x, y, params)
    if not isinstance(s, dict):
        return abs(number(s))
    t = s["t"]
    if t == "ref":
        return mg(params(s["id"]))
    if t in ("add", "radd", "sub"):
        return mg(s["a"]) + mg(s["b"])
    if t in ("mul", "rmul"):
        return mg(s["a"]) * mg(s["b"])
    if t == "div":
        b = np.abs(evaluate(s["b"], x, y, params)).min()
        return mg(s["a"]) / b * (1 + mg(s["b"]) / b)
    if t == "pow":
        e = s["b"]["v"] if isinstance(s["b"], dict) else number(s["b"])
        return mg(s["a"]) ** abs(e) * (1 + abs(e))
    if t == "cplx":
        return 1.0 + mg(s["a"])
    if t in ("neg", "rotate", "shift", "rescale_x", "rescale_y"):
        return max(mg(s["a"]), float(np.abs(evaluate(s, x, y, params)).max()))
    v = float(np.abs(evaluate(s, x, y, params)).max())
    if t == "hg":
        from scipy.special import hermite
        for o, q in ((s.get("n", 0), (x - s["x0"]) / s["w"]), (s.get("m", 0), (y - s["y0"]) / s["w"])):
            v = max(v, abs(s["a"]) * float(sum(abs(c) for c in hermite(o).coef)))
    if t == "zern":
        rho = float(np.sqrt(x ** 2 + y ** 2).max() / s["radius"])
        top = max(1.0, rho) if s.get("extra") else 1.0
        n, m = s["n"], abs(s["m"])
        c = sum(math.factorial(n - k) / (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k)) for k in range((n - m) // 2 + 1))
        v = max(v, abs(s["a"]) * c * top ** n * math.sqrt(2 * n + 2))
    return v


# ---------------------------------------------------------------------------------------------------------------- DMD

def to_image(field):
    return np.fft.fftshift(IFFT2(np.fft.ifftshift(field)))


def amp_phase(inp, target, window=None):
    """amplitude scaling, input phase, output phase, 1/eta (largest amplitude ratio), target at the Fourier plane"""
    t = np.fft.fftshift(FFT2(np.fft.ifftshift(target)))
    if window is not None:
        t = t * window
    a_in, a_out = np.abs(inp), np.abs(t)
    ph_out = np.where(t == 0, 0.0, np.angle(t))
    with np.errstate(divide="ignore", invalid="ignore"):
        amp = np.where((a_in == 0) | (a_out == 0), 0.0, a_out / np.where(a_in == 0, 1, a_in))
    k = amp.max()
    return amp / k if k > 0 else amp, np.angle(inp), ph_out, k, t


def grating_phase(x, y, p, theta):
    return 2 * np.pi / p * (np.cos(theta) * x + np.sin(theta) * y)


def total_phase(x, y, p, theta, ph_in, ph_out, neg):
    s = -1.0 if neg else 1.0
    return grating_phase(x, y, p, theta) - s * (np.asarray(ph_out) - np.asarray(ph_in))


def ideal(amp, phase):
    return amp * (np.cos(phase) / 2 + 0.5)


def random_probability(amp, phase, r):
    p = np.arccos(np.cos(phase))
    w = np.arcsin(np.clip(amp, -1, 1))
    return 0.5 * (np.tanh(r * (p + w)) - np.tanh(r * (p - w)))


def random_tolerance(amp, phase, r, eps, dphase=0.0, damp=0.0):
    """How far the probability may be off because of rounding (eps) and phase / amplitude uncertainty.

    The probability falls with the distance q of the phase from 0 and rises with the amplitude, so the corners bound it."""
    base = random_probability(amp, phase, r)
    q = np.arccos(np.cos(phase))
    h = np.sqrt(8 * eps) + np.asarray(dphase)               # acos(cos) loses half the digits near 0 and pi
    da = np.asarray(damp) + 4 * eps
    w_hi, w_lo = np.arcsin(np.clip(amp + da, 0, 1)), np.arcsin(np.clip(amp - da, 0, 1))
    q_lo, q_hi = np.clip(q - h, 0, np.pi), np.clip(q + h, 0, np.pi)
    hi = 0.5 * (np.tanh(r * (q_lo + w_hi)) - np.tanh(r * (q_lo - w_hi)))
    lo = 0.5 * (np.tanh(r * (q_hi + w_lo)) - np.tanh(r * (q_hi - w_lo)))
    return 1.1 * np.maximum(hi - base, base - lo) + 20 * eps


def ifta(amp, phase, inp, window, N, s):
    gi = s * ideal(amp, phase)
    g = gi.copy()
    want = IFFT2(inp * gi)
    win = np.fft.ifftshift(window)
    step = 0.5 / N
    for i in range(N):
        th = (i + 1) * step
        b = np.where(g > 1 - th, 1.0, g)
        b = np.where(g < th, 0.0, b)
        im = IFFT2(inp * b)
        im = (want - im) * win + im
        with np.errstate(divide="ignore", invalid="ignore"):
            g = np.where(inp == 0, 0.0, np.real(FFT2(im) / np.where(inp == 0, 1, inp)))
    return g


def gs(inp, target_amp, start_phase, N):
    ph = start_phase
    t = np.fft.ifftshift(target_amp)
    for _ in range(N):
        im = IFFT2(inp * np.exp(1j * ph))
        ph = np.angle(FFT2(t * np.exp(1j * np.angle(im)))) - np.angle(inp)
        ph = np.where(ph > np.pi, ph - 2 * np.pi, ph)
        ph = np.where(ph < -np.pi, ph + 2 * np.pi, ph)
    return ph


def gs_error(inp_amp_phase, target_amp):
    """root mean square deviation of the image amplitude from the target (same scale as the algorithm uses)"""
    im = np.abs(IFFT2(inp_amp_phase))
    return math.sqrt(float(np.mean((im - np.abs(np.fft.ifftshift(target_amp))) ** 2)))
