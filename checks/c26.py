"""C26 Removing piston, tilt and defocus from a phase map."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut
from checks.c25 import OUT, basis, phase_map, pixel_grid

TERMS = [(0, 0), (1, -1), (1, 1), (2, 0)]


def case():
    return st.fixed_dictionaries({"Nx": G.size(3, 40), "Ny": G.size(3, 40), "R": st.one_of(st.integers(2, 20), G.fl(1.5, 20.0)),
                                  "K": st.integers(1, 15), "seed": G.seeds, "kind": st.sampled_from(["combo", "noise", "one",
                                                                                                     "smooth"]),
                                  "defocus": st.booleans(), "verbose": st.booleans(),
                                  "dt": st.sampled_from(["float64", "float32", "int", "fortran"]), "out": OUT})


def remove(env, p, R, **kw):
    with sut("remove_trivial_phase"):
        with contextlib.redirect_stdout(io.StringIO()):
            return np.asarray(env.p.remove_trivial_phase(p, R, **kw))


def check(c, env, rec):
    x, y = pixel_grid(c["Ny"], c["Nx"])
    rad, R = c["R"], float(c["R"])
    p = phase_map(c, x, y, R)
    keep = p.copy()
    inside = x * x + y * y < rad ** 2
    rim = np.abs(np.hypot(x, y) - R) < 8 * env.eps * R
    if inside.sum() < 4 or np.any(inside & rim):
        return
    kw = {"verbose": c["verbose"]}
    if c["defocus"]:
        kw["remove_defocus"] = True
    got = remove(env, p, rad, **kw)
    outside = np.hypot(x, y) > R * (1 + 1e-5)
    need(np.array_equal(p, keep, equal_nan=c["dt"] != "int"), "the phase map handed in was changed")
    out = keep.astype(float)
    need(got.shape == out.shape, "a map of shape %s became one of shape %s", out.shape, got.shape)
    need(np.array_equal(got[outside].astype(float), out[outside], equal_nan=True), "the phase outside the aperture was changed")
    # from here on only what can be compared as numbers
    out, got = np.where(outside, 0, out), np.where(outside, 0, got)
    big = np.abs(out).max()
    for n, m in TERMS[:4 if c["defocus"] else 3]:
        z = O.zernike(x, y, 1.0, R, n, m, True, False)
        out = out - np.mean(out[inside] * z[inside]) * z
    tol = 400 * env.eps * (1 + big) * (1 + np.hypot(x, y) / R) ** 2 + 1e-11 * (1 + big)
    if c["dt"] == "float32":
        tol = np.maximum(tol, 1e-4 * (1 + big))
    close(got, out, np.where(rim, np.inf, tol), "the remaining phase")
    rec.nt(R <= (min(c["Nx"], c["Ny"]) - 1) / 2 and c["Nx"] != c["Ny"])
    rec.label(c["kind"], "defocus" if c["defocus"] else "no defocus", c["dt"], "outside " + c["out"])


def rel_case():
    return st.fixed_dictionaries({"R": st.integers(12, 30), "off": st.integers(0, 3), "wide": st.integers(0, 5), "seed": G.seeds,
                                  "t": st.lists(G.fl(-10, 10), min_size=4, max_size=4), "defocus": st.booleans(),
                                  "K": st.integers(6, 15)})


def check_rel(c, env, rec):
    """The shape that matters survives, what was to be removed is gone, and doing it twice changes nothing more."""
    R = c["R"]
    x, y = pixel_grid(2 * R + 2 + c["off"], 2 * R + 2 + c["off"] + c["wide"])
    g = np.random.default_rng(c["seed"])
    idx = [j for j in range(c["K"]) if O.ansi(j) not in TERMS]
    Z = basis(c["K"], x, y, R, False)
    shape = sum(g.normal() * Z[j] for j in idx)
    triv = sum(t * O.zernike(x, y, 1.0, R, n, m, True, False) for t, (n, m) in zip(c["t"], TERMS))
    kept = 0 if c["defocus"] else c["t"][3] * O.zernike(x, y, 1.0, R, 2, 0, True, False)
    kw = {"remove_defocus": True} if c["defocus"] else {}
    got = remove(env, shape + triv, R, **kw)
    inside = np.hypot(x, y) < R - 0.5
    total = sum(abs(t) for t in c["t"]) + 5.0
    bound = 18.0 * total / R ** 1.3 + 0.05
    close(np.where(inside, got, 0), np.where(inside, shape + kept, 0), bound, "shape left after the removal")
    scale = np.abs(np.mean(got[inside])) + np.abs(np.mean((got * x / R)[inside])) + np.abs(np.mean((got * y / R)[inside]))
    need(scale < bound, "piston and tilt left over: %.4f", scale)
    again = remove(env, got, R, **kw)
    first, second = np.abs(got - shape - triv).max(), np.abs(again - got).max()
    need(second <= 0.2 * max(first, 1e-6) + 0.2 * total / R, "removing again changes the map by %.3g, the first time by %.3g",
         second, first)
    rec.nt(max(abs(t) for t in c["t"][:3]) > 1)


SUBS = [
    Sub("projection", case, check, 260, "random maps and apertures against a double precision projection; non-trivial = aperture "
        "inside a non-square map"),
    Sub("relations", rel_case, check_rel, 80, "known shape plus known trivial terms; non-trivial = trivial terms above 1"),
]
