"""Strategies.  Every case is plain JSON data, so a shrunk case is its own replay file."""
import math

import numpy as np
from hypothesis import strategies as st


def fl(lo, hi):
    """Floats in [lo, hi]; magnitudes that would underflow when squared in single precision become zero."""
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    if lo <= 0 <= hi:
        small = 1e-6 * max(abs(lo), abs(hi), 1e-3)
        return f.map(lambda v: 0.0 if abs(v) < small else v)
    return f


def seldom(common, rare, n=10):
    """Mostly the first, now and then the second."""
    return st.integers(0, n).flatmap(lambda k: rare if k == n else common)


def size(lo=2, hi=24):
    """Pixel counts, now and then larger ones."""
    return seldom(st.integers(lo, hi), st.integers(hi, 6 * hi))


def pad(hi=8):
    return seldom(st.integers(0, hi), st.integers(hi, 70))


def even(lo=2, hi=24):
    return st.integers((lo + 1) // 2, hi // 2).map(lambda k: 2 * k)


def logf(lo, hi):
    """Floats spread over decades."""
    return fl(math.log10(lo), math.log10(hi)).map(lambda e: float("%.6g" % 10 ** e))


def mag():
    """An overall scale: fields come in all units."""
    return st.one_of(st.just(1.0), st.just(1.0), logf(1e-10, 1e10))


seeds = st.integers(0, 2 ** 20)
angle = st.one_of(st.sampled_from([0.0, math.pi / 4, -math.pi / 4, math.pi / 2, math.pi, 3 * math.pi / 4, -2.0]),
                  fl(-math.pi, math.pi), fl(-math.pi, math.pi), fl(-20.0, 20.0).map(
                      lambda v: float(np.float32(v))))


def optics(n=None):
    """wavelength, focal length, pixel size and dimensions of an SLM."""
    n = n if n is not None else size()
    return st.fixed_dictionaries({"wl": logf(2e-7, 2e-6), "f": logf(5e-3, 1.0), "pix": logf(2e-6, 4e-5),
                                  "Nx": n, "Ny": n})


def grating():
    return st.fixed_dictionaries({"period": st.one_of(st.sampled_from([2, 4, 10]), fl(1.5, 25.0), fl(1.5, 25.0), logf(0.7, 500.0)),
                                  "theta": angle, "neg": st.booleans(), "late": st.booleans()})


def dmd_case(n=None):
    return st.tuples(optics(n), grating()).map(lambda t: {**t[0], **t[1]})


DEVICES = {"DLP9500": (1920, 1080, 10.8e-6), "DLP7000": (1024, 768, 13.68e-6), "DLP9000": (2560, 1600, 7.56e-6),
           "PLUTO_2": (1920, 1080, 8e-6)}


def mk_dmd(env, c, **other):
    """A DMD; the diffraction order is chosen when it is made or switched afterwards."""
    c = {**c, **other}
    neg, late = c["neg"], c.get("late", False)
    dmd = env.p.DMD(c["wl"], c["f"], c["period"], c["theta"], c["Nx"], c["Ny"], c["pix"], negative_order=neg != late)
    if late:
        dmd.negative_order = neg
    return dmd


def mk_lcos(env, c):
    return env.p.LCOS_SLM(c["wl"], c["f"], c["Nx"], c["Ny"], c["pix"])


# ---- complex fields and masks on an (Ny, Nx) array --------------------------------------------------------------

def field(nonzero=False, real=False):
    """A beam or target on the pixel array.  nonzero keeps the modulus above 0.2."""
    amp = fl(0.25, 4.0)
    ph = st.just(0.0) if real else fl(-3.0, 3.0)
    kinds = [
        st.fixed_dictionaries({"k": st.just("const"), "a": amp, "ph": ph}),
        st.fixed_dictionaries({"k": st.just("wave"), "a": amp, "ph": ph, "m": st.integers(-3, 3), "n": st.integers(-3, 3),
                               "mod": fl(0.0, 0.7)}),
        st.fixed_dictionaries({"k": st.just("rng"), "a": amp, "seed": seeds,
                               "spread": st.just(0.0) if real else st.sampled_from([0.0, 1.0, math.pi])}),
        st.fixed_dictionaries({"k": st.just("beam"), "a": amp, "ph": ph, "cx": fl(-0.3, 0.3), "cy": fl(-0.3, 0.3),
                               "w": fl(0.3, 1.5), "defocus": st.just(0.0) if real else fl(-4.0, 4.0),
                               "coma": st.just(0.0) if real else fl(-3.0, 3.0)}),
    ]
    if not nonzero:
        kinds.append(st.fixed_dictionaries({"k": st.just("delta"), "a": amp, "ph": ph, "i": seeds, "j": seeds}))
        kinds.append(st.fixed_dictionaries({"k": st.just("modes"), "seed": seeds, "n": st.integers(1, 5)}))
    return st.one_of(kinds)


def build_field(s, Ny, Nx):
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    u = (jj - Nx / 2) / Nx
    v = (Ny / 2 - ii) / Ny
    k = s["k"]
    if k == "const":
        return np.full((Ny, Nx), s["a"] * np.exp(1j * s["ph"]))
    if k == "wave":
        t = 2 * np.pi * (s["m"] * u + s["n"] * v)
        a = s["a"] * (1 + s["mod"] * np.cos(t + 0.3))
        return a * np.exp(1j * s["ph"] * np.sin(t + 1.0))
    if k == "rng":
        g = np.random.default_rng(s["seed"])
        a = s["a"] * g.uniform(0.3, 1.0, (Ny, Nx))
        return a * np.exp(1j * s["spread"] * g.uniform(-1, 1, (Ny, Nx)))
    if k == "beam":
        r2 = (u - s["cx"]) ** 2 + (v - s["cy"]) ** 2
        a = s["a"] * (0.1 + np.exp(-r2 / s["w"] ** 2))
        return a * np.exp(1j * (s["ph"] + s["defocus"] * r2 * 4 + s["coma"] * 8 * r2 * u))
    if k == "delta":
        a = np.zeros((Ny, Nx), complex)
        a[s["i"] % Ny, s["j"] % Nx] = s["a"] * np.exp(1j * s["ph"])
        return a
    if k == "modes":
        g = np.random.default_rng(s["seed"])
        a = np.zeros((Ny, Nx), complex)
        for _ in range(s["n"]):
            cx, cy, w = g.uniform(-0.3, 0.3), g.uniform(-0.3, 0.3), g.uniform(0.08, 0.3)
            a += g.normal() * np.exp(-((u - cx) ** 2 + (v - cy) ** 2) / w ** 2) * np.exp(1j * g.uniform(-3, 3))
        return a
    raise KeyError(k)


def mask():
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("all"), "on": st.booleans()}),
        st.fixed_dictionaries({"k": st.just("rng"), "seed": seeds, "fill": fl(0.1, 0.9)}),
        st.fixed_dictionaries({"k": st.just("half"), "axis": st.integers(0, 1), "at": fl(0.2, 0.8),
                               "flip": st.booleans()}),
        st.fixed_dictionaries({"k": st.just("grating"), "m": st.integers(1, 5), "n": st.integers(0, 5)}),
    )


def build_mask(s, Ny, Nx):
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    if s["k"] == "all":
        return np.full((Ny, Nx), s["on"])
    if s["k"] == "rng":
        return np.random.default_rng(s["seed"]).random((Ny, Nx)) < s["fill"]
    if s["k"] == "half":
        t = (ii / Ny if s["axis"] == 0 else jj / Nx) < s["at"]
        return ~t if s["flip"] else t
    return ((s["m"] * jj + s["n"] * ii) // 2) % 2 == 0


def offer(env, arr, how):
    """Hand an array to the code in one of the documented forms."""
    if how == "tensor":
        return env.tf.constant(arr)
    if how == "list":
        return arr.tolist()
    return arr


HOW = st.sampled_from(["array", "tensor"])
