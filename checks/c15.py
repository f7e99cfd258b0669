"""C15 MRAF phase holograms."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, must_raise, need, same, sut
from checks.c14 import against, build_scene, good_state, scene


def case():
    return st.tuples(scene(), st.fixed_dictionaries({
        "mix": st.one_of(st.none(), st.sampled_from([0.4, 1.0, 0.2]), G.fl(0.2, 1.0)), "cut": G.fl(0.03, 0.3), "fade": G.fl(0.3, 3.0),
        "wform": st.sampled_from(["bool", "float", "complex", "tensor", "rect", "soft", "soft"])})).map(lambda t: {**t[0], **t[1]})


def window(c, env, T):
    d = c["d"]
    if c["wform"] == "rect":
        # a rectangle in image plane coordinates holding the brightest spot
        sf = d["wl"] * d["f"]
        X, Y = O.image_grid(d["Nx"], d["Ny"], d["pix"], sf)
        ux, uy = sf / (d["Nx"] * d["pix"]), sf / (d["Ny"] * d["pix"])
        k = np.unravel_index(np.argmax(T), T.shape)
        args = (X[k], Y[k], (2 * int(d["Nx"] * 0.2) + 1) * ux, (2 * int(d["Ny"] * 0.2) + 1) * uy)
        return env.p.RectangularWindowRectangle(*map(float, args)), O.rect(X, Y, *args)
    W = T > c["cut"] * T.max()
    if c["wform"] == "soft":
        # a window that fades out: inside its rim the target is mixed with what is there
        W = env.r(np.where(W, np.clip(T / (T.max() * max(c["fade"], 0.05)), 0, 1), 0))
        return W.astype(env.real), W
    if c["wform"] == "bool":
        return W, W.astype(float)
    if c["wform"] == "complex":
        return W.astype(env.cplx), W.astype(float)
    if c["wform"] == "tensor":
        return env.tf.constant(W.astype(env.real)), W.astype(float)
    return W.astype(float), W.astype(float)


def check(c, env, rec):
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    env.fft(c["tf"])
    E, T = build_scene(c, env)
    # MRAF weighs the target against the light that is there: the target carries the power of the beam
    T = env.r(T * np.sqrt((np.abs(E) ** 2).sum() / (Nx * Ny) / (T ** 2).sum()))
    w, W = window(c, env, T)
    N = c["N"]
    kw = {"signal_window": w, "N": N}
    mix = 0.4
    if c["mix"] is not None:
        kw["mixing_factor"] = mix = c["mix"]
    errs, effs = [], []
    inside = W > 0
    with sut("calculate_hologram(method='mraf')"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        for k in range(5):
            slm.calculate_hologram(E.astype(env.cplx), T.astype(env.real), method="mraf", **kw)
            good_state(env, slm.slm_state, d)
            sim.propagate_to_image(E.astype(env.cplx))
            f = np.abs(sim.image_plane_field.astype(complex))
            errs.append(O.amplitude_error(T, f, inside))
            effs.append((f[inside] ** 2).sum() / (f ** 2).sum())
    re, rf = [], []
    for k in range(20):
        f = np.abs(O.mraf_reference(E, T, N, W, mix, 1000 * c["seed"] + k))
        re.append(O.amplitude_error(T, f, inside))
        rf.append((f[inside] ** 2).sum() / (f ** 2).sum())
    against(errs, re, 0.01, "amplitude error in the signal window (N=%d, mixing %s)" % (N, c["mix"]))
    against(effs, rf, 0.015, "share of the light in the signal window (N=%d, mixing %s)" % (N, c["mix"]), two_sided=True)
    rec.nt(np.mean(rf) < 0.98 and inside.sum() > 4 and N > 1)
    rec.label("N %d" % N, "mix default" if c["mix"] is None else "mix 1" if mix == 1 else "mix", c["wform"])


def check_freedom(c, env, rec):
    """Giving up the region outside the window buys accuracy inside it."""
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    env.fft(c["tf"])
    E, T = build_scene(c, env)
    T = env.r(T * np.sqrt((np.abs(E) ** 2).sum() / (Nx * Ny) / (T ** 2).sum()))
    w, W = window({**c, "wform": "float"}, env, T)
    inside = W > 0
    if inside.sum() < 9 or inside.mean() > 0.4:
        return
    err = {}
    with sut("calculate_hologram"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        for m in ("gs", "mraf"):
            v = []
            for k in range(4):
                # the default number of iterations and mixing factor
                kw = {"signal_window": w} if m == "mraf" else {}
                slm.calculate_hologram(E.astype(env.cplx), T.astype(env.real), method=m, **kw)
                sim.propagate_to_image(E.astype(env.cplx))
                v.append(O.amplitude_error(T, sim.image_plane_field.astype(complex), inside))
            err[m] = float(np.mean(v))
    need(err["mraf"] <= err["gs"] + 0.03, "error inside the signal window %.4f with mraf, %.4f with gs", err["mraf"],
         err["gs"])
    rec.nt(err["mraf"] < 0.5 * err["gs"])
    rec.label("halves the error" if err["mraf"] < 0.5 * err["gs"] else "")


SUBS = [
    Sub("quality", case, check, 320, "error inside the window and share of light there, 5 runs against 20 reference runs; "
        "non-trivial = window of more than 4 pixels that does not hold all light, N > 1"),
    Sub("freedom", case, check_freedom, 56, "mraf with default settings against gs inside the window; non-trivial = error "
        "halved"),
]
