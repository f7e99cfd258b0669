"""C01 Fourier-plane coordinates of SLMs and padded simulation planes."""
import gc

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut


def tol(env, e, pix):
    return 6 * env.eps * (np.abs(e).max() + pix)


def grids(env, c, slm, what):
    with sut(what + " fourier_plane_grid"):
        x, y = slm.fourier_plane_grid
    ex, ey = O.fourier_grid(c["Nx"], c["Ny"], c["pix"])
    close(x, ex, tol(env, ex, c["pix"]), what + " x")
    close(y, ey, tol(env, ey, c["pix"]), what + " y")
    need(x.dtype == env.real and y.dtype == env.real, "%s grid dtype %s, backend is %s", what, x.dtype, env.real)
    return x, y


def conversions(env, c, slm, x, y):
    """Index and coordinate conversions, for as long as the modulator offers them under these names."""
    ii, jj = np.meshgrid(np.arange(c["Ny"]), np.arange(c["Nx"]), indexing="ij")
    to, back = (getattr(slm, n, None) for n in ("_convert_pixel_index_to_dmd_coordinate", "_convert_slm_coordinate_to_pixel_index"))
    k = lambda a: env.tf.constant(np.asarray(a), env.real)
    for f, a, b, t, what in ((to, (ii, jj), (x, y), tol(env, np.maximum(np.abs(x).max(), np.abs(y).max()), c["pix"]), "coordinates of"),
                             (to, (ii + 0.25, jj - 0.5), (x - 0.5 * c["pix"], y - 0.25 * c["pix"]), tol(env, np.maximum(
                                 np.abs(x).max(), np.abs(y).max()), c["pix"]), "coordinates between"),
                             (back, (x, y), (ii, jj), 8 * env.eps * (c["Nx"] + c["Ny"]), "indices of")):
        if f is None:
            continue
        try:
            u, v = f(*(k(q) for q in a))
        except TypeError:
            continue
        close(u, b[0], t, what + " the pixels, first")
        close(v, b[1], t, what + " the pixels, second")


def attrs(env, c, slm, what):
    with sut(what + " attributes"):
        need(slm.Nx == c["Nx"] and slm.Ny == c["Ny"], "%s reports %sx%s pixels", what, slm.Nx, slm.Ny)
        need(slm.wavelength == c["wl"] and slm.focal_length == c["f"] and slm.pixel_size == c["pix"],
             "%s does not report the parameters it was built with", what)
        close(slm.scaling_factor, c["wl"] * c["f"], 1e-12 * c["wl"] * c["f"], what + " scaling_factor")


def make(env, c):
    with sut("construct " + c["cls"]):
        if c["cls"] == "SLM":
            return env.p.SLM(c["wl"], c["f"], c["Nx"], c["Ny"], c["pix"])
        if c["cls"] == "DMD":
            return env.p.DMD(c["wl"], c["f"], 4, 0.5, c["Nx"], c["Ny"], c["pix"])
        return env.p.LCOS_SLM(c["wl"], c["f"], c["Nx"], c["Ny"], c["pix"])


def slm_case():
    return st.tuples(G.optics(G.size(1, 40)), st.sampled_from(["SLM", "DMD", "LCOS_SLM"])).map(
        lambda t: {**t[0], "cls": t[1]})


def check_slm(c, env, rec):
    slm = make(env, c)
    attrs(env, c, slm, c["cls"])
    grids(env, c, slm, c["cls"])
    x, y = grids(env, c, slm, c["cls"] + " (second read)")
    conversions(env, c, slm, x, y)
    rec.nt(c["Nx"] != c["Ny"] and c["Nx"] > 1 and c["Ny"] > 1)
    rec.label("odd" if c["Nx"] % 2 or c["Ny"] % 2 else "even", c["cls"])


def check_padded(c, env, rec):
    slm = make(env, c)
    px, py = c["px"], c["py"]
    cls = env.p.DMDSimulation if c["cls"] == "DMD" and c["dmdsim"] else env.p.SLMSimulation
    with sut("simulation"):
        sim = cls(slm, padding_x=px, padding_y=py)
        need(sim.Nx == c["Nx"] + 2 * px and sim.Ny == c["Ny"] + 2 * py, "padded size %sx%s for padding %s,%s of %sx%s",
             sim.Nx, sim.Ny, px, py, c["Nx"], c["Ny"])
        need(sim.padding_x == px and sim.padding_y == py, "padding reported as %s,%s", sim.padding_x, sim.padding_y)
        X, Y = sim.fourier_plane_padded_grid
        close(sim.fourier_plane_pixel_area, c["pix"] ** 2, 1e-12 * c["pix"] ** 2, "fourier_plane_pixel_area")
    ex, ey = O.fourier_grid(c["Nx"], c["Ny"], c["pix"], px, py)
    close(X, ex, tol(env, ex, c["pix"]), "padded x")
    close(Y, ey, tol(env, ey, c["pix"]), "padded y")
    x, y = grids(env, c, slm, c["cls"])
    close(X[py:py + c["Ny"], px:px + c["Nx"]], x, tol(env, ex, c["pix"]), "x grid inside the padding")
    close(Y[py:py + c["Ny"], px:px + c["Nx"]], y, tol(env, ey, c["pix"]), "y grid inside the padding")
    rec.nt(px != py and px + py > 0)
    rec.label("one-sided padding" if (px == 0) != (py == 0) else "", "asymmetric" if px != py else "")


def check_many(c, env, rec):
    """Several SLMs and simulations alive at once, read in an arbitrary order."""
    objs = []
    for s in c["slms"]:
        slm = make(env, s)
        with sut("simulation"):
            objs.append((s, slm, env.p.SLMSimulation(slm, padding_x=s["px"], padding_y=s["py"])))
    for k in c["order"]:
        s, slm, sim = objs[k % len(objs)]
        grids(env, s, slm, "SLM %d of %d" % (k % len(objs), len(objs)))
        with sut("padded grid"):
            X, Y = sim.fourier_plane_padded_grid
        ex, ey = O.fourier_grid(s["Nx"], s["Ny"], s["pix"], s["px"], s["py"])
        close(X, ex, tol(env, ex, s["pix"]), "padded x of one of several")
        close(Y, ey, tol(env, ey, s["pix"]), "padded y of one of several")
    shapes = [(s["Nx"], s["Ny"]) for s in c["slms"]]
    rec.nt(len(set(shapes)) < len(shapes))
    rec.label("same shape twice" if len(set(shapes)) < len(shapes) else "")


def many_case():
    one = st.tuples(G.optics(st.integers(2, 6)), st.sampled_from(["SLM", "DMD", "LCOS_SLM"]), st.integers(0, 2),
                    st.integers(0, 2)).map(lambda t: {**t[0], "cls": t[1], "px": t[2], "py": t[3]})
    # an SLM of the same dimensions as its predecessor is the interesting case
    def twin(l):
        for a, b in zip(l[0::2], l[1::2]):
            b["Nx"], b["Ny"] = a["Nx"], a["Ny"]
        return l
    return st.fixed_dictionaries({"slms": st.lists(one, min_size=2, max_size=6).map(twin),
                                  "order": st.lists(st.integers(0, 5), min_size=2, max_size=10)})


def turn_case():
    one = st.tuples(G.optics(st.integers(2, 6)), st.sampled_from(["SLM", "DMD", "LCOS_SLM"]), st.integers(0, 2),
                    st.integers(0, 2)).map(lambda t: {**t[0], "cls": t[1], "px": t[2], "py": t[3]})
    return st.fixed_dictionaries({"slms": st.lists(one, min_size=3, max_size=8), "keep": st.integers(0, 255)})


def check_turnover(c, env, rec):
    """Modulators come and go: a new one never inherits the grid of one that is gone."""
    kept = []
    for k, s in enumerate(c["slms"]):
        slm = make(env, s)
        with sut("simulation"):
            sim = env.p.SLMSimulation(slm, padding_x=s["px"], padding_y=s["py"])
        kept.append((s, slm, sim))
        for q, m, n in kept:
            grids(env, q, m, "SLM after %d others" % k)
            with sut("padded grid"):
                X, Y = n.fourier_plane_padded_grid
            ex, ey = O.fourier_grid(q["Nx"], q["Ny"], q["pix"], q["px"], q["py"])
            close(X, ex, tol(env, ex, q["pix"]), "padded x after %d others" % k)
            close(Y, ey, tol(env, ey, q["pix"]), "padded y after %d others" % k)
        if not c["keep"] >> k & 1:
            kept.pop()
        slm = sim = m = n = None
        gc.collect()
    rec.nt(len(kept) + 2 <= len(c["slms"]))


def dev_case():
    return st.fixed_dictionaries({"dev": st.sampled_from(sorted(G.DEVICES)), "wl": G.logf(2e-7, 2e-6),
                                  "f": G.logf(1e-2, 1.0), "period": G.fl(2, 10), "theta": G.angle,
                                  "neg": st.booleans()})


def check_dev(c, env, rec):
    Nx, Ny, pix = G.DEVICES[c["dev"]]
    with sut("construct " + c["dev"]):
        if c["dev"] == "PLUTO_2":
            slm = env.p.PLUTO_2(c["wl"], c["f"])
            need(isinstance(slm, env.p.LCOS_SLM), "PLUTO_2 is not an LCOS SLM")
        else:
            slm = getattr(env.p, c["dev"])(c["wl"], c["f"], c["period"], c["theta"], c["neg"])
            need(isinstance(slm, env.p.DMD), "%s is not a DMD", c["dev"])
            need(bool(slm.negative_order) == c["neg"], "%s ignores negative_order", c["dev"])
            close(float(slm.theta), c["theta"], 4 * env.eps * 4, c["dev"] + " theta")
            ox, oy = slm.first_order_origin
            d = c["wl"] * c["f"] / (c["period"] * pix)
            close([float(ox), float(oy)], [d * np.cos(c["theta"]), d * np.sin(c["theta"])], 16 * env.eps * d,
                  c["dev"] + " first_order_origin")
    full = {**c, "Nx": Nx, "Ny": Ny, "pix": pix}
    need(abs(slm.pixel_size - pix) < 1e-9 * pix, "%s pixel size %s", c["dev"], slm.pixel_size)
    full["pix"] = slm.pixel_size
    attrs(env, full, slm, c["dev"])
    x, y = grids(env, full, slm, c["dev"])
    rec.nt()
    rec.label(c["dev"])


SUBS = [
    Sub("slm", slm_case, check_slm, 1200, "random SLM geometry; non-trivial = both axes longer than 1 and different"),
    Sub("padded", lambda: st.tuples(slm_case(), G.pad(9), G.pad(9), st.booleans()).map(
        lambda t: {**t[0], "px": t[1], "py": t[2], "dmdsim": t[3]}), check_padded, 1000,
        "random padding per axis; non-trivial = different padding in x and y"),
    Sub("many", many_case, check_many, 240, "2-6 SLMs read in a random order; non-trivial = two share their shape"),
    Sub("turnover", turn_case, check_turnover, 96, "3-8 SLMs made one after another, some discarded; non-trivial = at least "
        "two discarded"),
    Sub("device", dev_case, check_dev, 32, "device models at full size; all count", thorough=4),
]
