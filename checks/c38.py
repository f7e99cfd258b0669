"""C38 The first order appears at first_order_origin, and parts of the chip interfere there with the phases asked for."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut
from checks.c07 import ALPHA


def patch():
    return st.fixed_dictionaries({"i": G.fl(0, 1), "j": G.fl(0, 1), "d": G.fl(0.1, 0.9), "amp": G.fl(0.1, 1.0), "out": G.fl(-4, 4),
                                  "in": st.sampled_from(["flat", "number", "beam", "map"])})


def case():
    return st.fixed_dictionaries({
        "d": G.optics(G.seldom(st.integers(4, 20), st.integers(20, 90), 14)), "neg": st.booleans(), "late": st.booleans(), "px": G.pad(6), "py": G.pad(6),
        "kx": st.integers(-6, 6), "ky": st.integers(-6, 6), "beam": G.field(nonzero=True), "ab": G.field(nonzero=True), "tf": st.booleans(),
        "whole": st.booleans(), "patches": st.lists(patch(), min_size=1, max_size=4), "order": G.seeds})


def check(c, env, rec):
    d = c["d"]
    Nx, Ny, pix, sf, px, py = d["Nx"], d["Ny"], d["pix"], d["wl"] * d["f"], c["px"], c["py"]
    env.fft(c["tf"])
    # a grating whose first order falls on a point of the padded image plane
    kx, ky = c["kx"], c["ky"]
    if kx == 0 and ky == 0:
        ky = 2
    fx, fy = kx / (Nx + 2 * px), ky / (Ny + 2 * py)
    period, theta = 1 / np.hypot(fx, fy), float(np.arctan2(fy, fx))
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    amap = env.r(np.angle(G.build_field(c["ab"], Ny, Nx)))
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    forms = {"flat": lambda p: (0.0, 0.0), "number": lambda p: (0.7, 0.7), "beam": lambda p: (env.r(np.angle(E)).astype(env.real), env.r(np.angle(E))),
             "map": lambda p: (amap.astype(env.real), amap)}
    fields = []
    near = False
    with sut("construct"):
        dmd = G.mk_dmd(env, d, period=period, theta=theta, neg=c["neg"], late=c["late"])
        sim = env.p.DMDSimulation(dmd, px, py)
        origin = [float(v) for v in sim.first_order_origin]
        need(origin == [float(v) for v in dmd.first_order_origin], "the simulation's first_order_origin is not the modulator's")
    for a in ALPHA:
        first = np.zeros((Ny, Nx), complex)  # beam behind the first order of the grating, carrier taken out
        with sut("draw"):
            dmd.set_dmd_state_off()
            parts = c["patches"]
            if c["whole"]:
                p = parts[0]
                given, ph = forms[p["in"]](p)
                dmd.set_dmd_grating_state(p["amp"], given, p["out"] + a, "ideal")
                first[...] = env.r(p["amp"]) / 4 * E * np.exp(1j * (p["out"] + a - ph))
            else:
                for p in parts:
                    given, ph = forms[p["in"]](p)
                    i, j, dia = p["i"] * Ny, p["j"] * Nx, p["d"] * max(Nx, Ny)
                    dmd.circular_patch(i, j, p["amp"], given, p["out"] + a, dia, method="ideal")
                    rr = np.hypot(ii - i, jj - j)
                    near = near or np.abs(rr - dia / 2).min() < 1e-4
                    first = np.where(rr < dia / 2, env.r(p["amp"]) / 4 * E * np.exp(1j * (p["out"] + a - ph)), first)
            sim.propagate_to_image(E.astype(env.cplx))
            fields.append(sim.image_plane_field.astype(complex))
    if near:
        return  # a mirror within rounding of a rim
    first = first * np.exp(-1j * ALPHA[-1])
    got = sum(np.exp(-1j * a) * v for a, v in zip(ALPHA, fields)) / 3
    X, Y = (np.asarray(v, float) for v in sim.image_plane_padded_grid)
    sign = -1 if c["neg"] else 1
    dx, dy = sf / ((Nx + 2 * px) * pix), sf / ((Ny + 2 * py) * pix)
    u, v = (X - sign * origin[0]) / dx, (Y - sign * origin[1]) / dy
    size = abs(kx) + abs(ky) + Nx + Ny + 2 * px + 2 * py
    inside = abs(kx) < (Nx + 2 * px) / 2 - 1 and abs(ky) < (Ny + 2 * py) / 2 - 1
    if not inside:
        return  # beyond the image plane of the simulation
    at = np.unravel_index(np.argmin(u * u + v * v), X.shape)
    need(np.hypot(u[at], v[at]) < 0.02 + 64 * env.eps * size, "no point of the image plane is at first_order_origin (%.3g pixels away)",
         np.hypot(u[at], v[at]))
    phase = 2 * np.pi * np.hypot(fx, fy) * np.hypot(Nx, Ny)
    tol = env.eps * (60 + 16 * phase + 8 * np.sqrt(size)) * np.abs(E).sum() * pix ** 2 / sf
    want = first.sum() * pix ** 2 / sf
    if Nx % 2 or Ny % 2:
        close(abs(got[at]), abs(want), tol, "modulus of the field at first_order_origin")
    else:
        close(got[at], want, tol, "field at first_order_origin")
    if c["whole"] and c["patches"][0]["in"] == "beam":
        # the aberration taken out, everything is in phase there and nowhere more so
        close(abs(got[at]), np.abs(first).sum() * pix ** 2 / sf, tol, "all mirrors in phase")
        need(np.abs(got).max() <= abs(got[at]) + 2 * tol, "the brightest point is not at first_order_origin")
    rec.nt(np.abs(want) > 20 * tol and (c["whole"] or len(np.unique(np.round(first[first != 0], 9))) > 1))
    rec.label("negative" if c["neg"] else "positive", "whole" if c["whole"] else "patches", "padded" if px or py else "not padded",
              "odd" if Nx % 2 or Ny % 2 else "even", "fills the chip" if (first != 0).all() else "")


def origin_case():
    return st.fixed_dictionaries({"dmd": G.dmd_case(G.size(2, 30)), "px": G.pad(5), "py": G.pad(5), "dev": st.sampled_from([None, None, None, "DLP7000", "DLP9500", "DLP9000"]),
                                  "do": st.sampled_from(["nothing", "grating", "order", "propagate"])})


def check_origin(c, env, rec):
    d = dict(c["dmd"])
    with sut("construct"):
        if c["dev"]:
            d["Nx"], d["Ny"], d["pix"] = G.DEVICES[c["dev"]]
            dmd = getattr(env.p, c["dev"])(d["wl"], d["f"], d["period"], d["theta"], d["neg"])
        else:
            dmd = G.mk_dmd(env, d)
        sim = env.p.DMDSimulation(dmd, padding_x=c["px"], padding_y=c["py"])
    far = d["wl"] * d["f"] / (d["period"] * d["pix"])
    th = env.r(d["theta"])
    want = [far * np.cos(th), far * np.sin(th)]

    def look(o, what):
        with sut(what):
            x, y = o.first_order_origin
            got = [float(x), float(y)]
        close(got, want, 16 * env.eps * (1 + abs(th)) * far, what)
        return got

    a, b = look(dmd, "first_order_origin of the modulator"), look(sim, "first_order_origin of the simulation")
    with sut("use"):
        if c["do"] == "grating":
            dmd.set_dmd_grating_state(method="simple")
        elif c["do"] == "order":
            dmd.negative_order = not dmd.negative_order
            dmd.set_dmd_grating_state(0.5, method="ideal")
        elif c["do"] == "propagate":
            sim.propagate_to_image(1.0)
            sim.block_zeroth_order()
            sim.clear()
    if c["do"] != "order":  # whether it follows a later change of the order is not claimed
        need(look(dmd, "first_order_origin of the modulator after use") == a and look(sim, "first_order_origin of the simulation after use") == b,
             "first_order_origin moved")
    need(float(dmd.theta) == float(np.asarray(d["theta"], env.real)), "theta reads %s, was given as %s", float(dmd.theta), d["theta"])
    rec.nt(True)
    rec.label(c["do"], c["dev"] or "generic")


SUBS = [
    Sub("interference", case, check, 480, "grey gratings or patches with phases and amplitudes in an aberrated beam, padded simulations, first order "
        "isolated by three phase steps and read at first_order_origin; non-trivial = light there, from parts of different phase"),
    Sub("origin", origin_case, check_origin, 400, "closed form for every grating and device, before and after use; every case is non-trivial"),
]
