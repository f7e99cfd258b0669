"""C07 The greyscale hologram produces exactly the target in the first diffraction order."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut

ALPHA = (0.0, 2 * np.pi / 3, 4 * np.pi / 3)


def window():
    return st.one_of(st.none(), st.none(),
                     st.fixed_dictionaries({"k": st.just("circle"), "x": G.fl(-0.3, 0.3), "y": G.fl(-0.3, 0.3),
                                            "r": G.fl(0.2, 0.8)}),
                     st.fixed_dictionaries({"k": st.just("rect"), "x": G.fl(-0.2, 0.2), "y": G.fl(-0.2, 0.2),
                                            "wx": G.fl(0.3, 1.0), "wy": G.fl(0.3, 1.0)}),
                     st.fixed_dictionaries({"k": st.just("bool"), "mask": G.mask()}),
                     st.fixed_dictionaries({"k": st.just("grey"), "seed": G.seeds}),
                     st.fixed_dictionaries({"k": st.just("phase"), "seed": G.seeds}),
                     st.fixed_dictionaries({"k": st.just("scalar"), "v": st.sampled_from([1, 1.0, 0.5])}))


def build_window(w, env, d):
    """(object for the code, double precision array or 1)."""
    Ny, Nx = d["Ny"], d["Nx"]
    if w is None:
        return None, np.ones((Ny, Nx))
    L = min(Nx, Ny) * d["pix"]
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    if w["k"] == "circle":
        # nudged off the pixel centres, so rounding cannot move a pixel across the rim
        r = w["r"] * L
        rr = np.sort(np.hypot(x - w["x"] * L, y - w["y"] * L).ravel())
        k = int(np.searchsorted(rr, r))
        if k + 1 < rr.size and k > 0:
            gaps = rr[k - 1:k + 2]
            r = (gaps[0] + gaps[1]) / 2 if gaps[1] - gaps[0] > gaps[2] - gaps[1] else (gaps[1] + gaps[2]) / 2
        o = env.p.RectangularWindowCircular(w["x"] * L, w["y"] * L, r)
        a = O.circ(x, y, w["x"] * L, w["y"] * L, r)
        s = np.hypot(x - w["x"] * L, y - w["y"] * L)
        if np.abs(s - r).min() < 1e-4 * L:
            a = None
        return o, a
    if w["k"] == "rect":
        o = env.p.RectangularWindowRectangle(w["x"] * L, w["y"] * L, w["wx"] * L, w["wy"] * L)
        a = O.rect(x, y, w["x"] * L, w["y"] * L, w["wx"] * L, w["wy"] * L)
        near = min(np.abs(np.abs(x - w["x"] * L) - w["wx"] * L / 2).min(),
                   np.abs(np.abs(y - w["y"] * L) - w["wy"] * L / 2).min())
        return o, (None if near < 1e-4 * L else a)
    if w["k"] == "bool":
        a = G.build_mask(w["mask"], Ny, Nx)
        return a, a.astype(float)
    if w["k"] == "grey":
        a = env.r(np.random.default_rng(w["seed"]).random((Ny, Nx)))
        return a, a
    if w["k"] == "phase":
        # a window that also delays: its phase adds to that of the hologram
        g = np.random.default_rng(w["seed"])
        a = env.c(g.uniform(0.2, 1, (Ny, Nx)) * np.exp(2j * np.pi * g.random((Ny, Nx))))
        return a.astype(env.cplx), a
    return w["v"], np.full((Ny, Nx), float(w["v"]))


def case():
    return st.fixed_dictionaries({
        "d": G.optics(G.size(3, 22)), "neg": st.booleans(), "late": st.booleans(), "kx": st.integers(-5, 5), "ky": st.integers(-5, 5),
        "beam": G.field(nonzero=True), "target": G.field(), "window": window(), "dark": st.sampled_from([0, 0, 0, 1, 4]),
        "mag": G.mag(), "tmag": G.mag(),
        "seed": G.seeds, "tf": st.booleans(), "how": G.HOW, "px": st.integers(0, 5), "py": st.integers(0, 5)})


def grating_on_grid(c):
    """Period and angle that put the first order on an image pixel."""
    d = c["d"]
    kx, ky = c["kx"], c["ky"]
    if kx == 0 and ky == 0:
        kx = 1
    fx, fy = kx / d["Nx"], ky / d["Ny"]
    return kx, ky, 1 / np.hypot(fx, fy), float(np.arctan2(fy, fx))


def beam_of(c, env):
    d = c["d"]
    E = env.c(c.get("mag", 1) * G.build_field(c["beam"], d["Ny"], d["Nx"]))
    g = np.random.default_rng(c["seed"])
    for _ in range(c["dark"]):
        E[g.integers(d["Ny"]), g.integers(d["Nx"])] = 0
    return E


def matched(E, T, W, d):
    """Back-propagated target behind the window and the mode matching efficiency."""
    E0 = O.back_propagate(T, d["pix"], d["wl"] * d["f"]) * W
    ratio = np.where(E == 0, 0.0, np.abs(E0) / np.where(E == 0, 1, np.abs(E)))
    return E0, ratio.max()


def check(c, env, rec):
    d = c["d"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    kx, ky, period, theta = grating_on_grid(c)
    E = beam_of(c, env)
    T = env.c(c["tmag"] * G.build_field(c["target"], Ny, Nx))
    w, W = build_window(c["window"], env, d)
    if W is None:
        return
    E0full = O.back_propagate(T, d["pix"], sf)
    E0, m = matched(E, T, W, d)
    lit = np.abs(np.where(E == 0, 0, E0)).max()
    if lit < 1e-2 * np.abs(E0full).max():
        return  # the window keeps only rounding noise
    sign = -1 if c["neg"] else 1
    with sut("construct"):
        dmd = G.mk_dmd(env, d, period=period, theta=theta, neg=c["neg"], late=c["late"])
        sim = env.p.DMDSimulation(dmd)
        padded = env.p.DMDSimulation(dmd, padding_x=c["px"], padding_y=c["py"])
        ox, oy = (float(v) for v in dmd.first_order_origin)
    unit = sf / (Nx * d["pix"]), sf / (Ny * d["pix"])
    reach = np.hypot(kx * unit[0], ky * unit[1])
    close([ox, oy], [kx * unit[0], ky * unit[1]], 32 * env.eps * reach, "first_order_origin")
    beam = G.offer(env, E.astype(env.cplx), c["how"])
    fields, outs, etas, pads = [], [], [], []
    for a in ALPHA:
        with sut("calculate_dmd_state(method='ideal')"):
            target = (T * np.exp(1j * a)).astype(env.cplx)
            etas.append(float(dmd.calculate_dmd_state(beam, G.offer(env, target, c["how"]), method="ideal", window=w)
                              if w is not None else dmd.calculate_dmd_state(beam, target, method="ideal")))
            s = np.asarray(dmd.dmd_state)
            need(s.shape == (Ny, Nx) and np.isfinite(s).all(), "the greyscale state has shape %s or is not finite", s.shape)
            need(s.min() >= -8 * env.eps and s.max() <= 1 + 8 * env.eps, "greyscale state outside [0, 1]: %g..%g",
                 s.min(), s.max())
            sim.propagate_to_image(beam)
            outs.append(sim.output_field.astype(complex))
            fields.append(sim.image_plane_field.astype(complex))
            padded.propagate_to_image(beam)
            pads.append(padded.image_plane_field.astype(complex))
    eta = 1 / m
    close(etas, [eta] * 3, 100 * env.eps * eta * np.log2(Nx * Ny + 2), "mode matching efficiency")

    def first(f):
        # stepping the phase of the target separates the first order from the zeroth and the conjugate order
        return sum(np.exp(-1j * a) * v for a, v in zip(ALPHA, f)) / 3

    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, period * d["pix"], theta)
    top = np.abs(E).max()
    phase_err = 40 + 8 * np.abs(g).max()
    tol = env.eps * phase_err * top
    exp = eta / 4 * np.where(E == 0, 0, E0) * np.exp(-1j * sign * g)
    close(first(outs), exp, tol, "first order at the modulator")
    scale = env.eps * phase_err * np.abs(E).sum() * d["pix"] ** 2 / sf
    got = first(fields)
    odd = Nx % 2 or Ny % 2
    goal = T if (c["window"] is None and not c["dark"]) else O.propagate(np.where(E == 0, 0, E0), d["pix"], sf)
    want = eta / 4 * np.roll(goal, (-sign * ky, sign * kx), axis=(0, 1))
    if odd:
        # the optical axis lies between two pixels: the image is defined up to one global phase
        z = np.vdot(want, got)
        want = want * (z / abs(z) if abs(z) > 0 else 1)
    close(got, want, scale, "first order in the image plane against the target moved to the %s"
          % ("conjugate of the first order origin" if c["neg"] else "first order origin"))
    wantp = O.propagate(O.pad(exp, c["px"], c["py"]), d["pix"], sf)
    gotp = first(pads)
    if odd:
        close(np.abs(gotp), np.abs(wantp), scale, "first order on the padded image plane (modulus)")
    else:
        close(gotp, wantp, scale, "first order on the padded image plane")
    rec.nt(np.abs(E0).std() > 1e-3 * np.abs(E0).max() and c["target"]["k"] not in ("const",))
    rec.label("negative order" if c["neg"] else "positive order", "odd" if odd else "even", "dark pixels" if c["dark"] else "",
              "window " + c["window"]["k"] if c["window"] else "no window", "ky" if ky else "kx only",
              "target " + c["target"]["k"], "complex beam" if np.abs(E.imag).max() > 0 else "real beam")


def direct_case():
    return st.fixed_dictionaries({"dmd": G.dmd_case(G.size(3, 20)), "amp": G.fl(0.05, 1.0), "phi": G.field(nonzero=True),
                                  "beam": G.field(nonzero=True), "px": st.integers(0, 4), "tf": st.booleans()})


def check_direct(c, env, rec):
    """A grating drawn with set_dmd_grating_state imprints amp/4 and the requested phase on the first order, for any
    period and angle."""
    d = c["dmd"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    phi = env.r(np.angle(G.build_field(c["phi"], Ny, Nx)))
    pin = env.r(np.angle(E))
    outs = []
    with sut("set_dmd_grating_state"):
        dmd = G.mk_dmd(env, d)
        sim = env.p.DMDSimulation(dmd, padding_x=c["px"])
        for a in ALPHA:
            dmd.set_dmd_grating_state(amp=c["amp"], phase_in=pin.astype(env.real), phase_out=(phi + a).astype(env.real),
                                      method="ideal")
            sim.propagate_to_image(E.astype(env.cplx))
            outs.append(sim.output_field.astype(complex)[:, c["px"]:c["px"] + Nx])
    got = sum(np.exp(-1j * a) * v for a, v in zip(ALPHA, outs)) / 3
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    sign = -1 if d["neg"] else 1
    exp = c["amp"] / 4 * np.abs(E) * np.exp(1j * (phi - sign * g))
    close(got, exp, env.eps * (60 + 8 * np.abs(g).max()) * np.abs(E), "first order behind the grating")
    rec.nt(np.ptp(phi) > 0.1)
    rec.label("negative order" if d["neg"] else "positive order")


SUBS = [
    Sub("target", case, check, 640, "random complex beam, target, window, order and geometry, first order isolated by "
        "three target phases; non-trivial = structured target and spectrum"),
    Sub("phase", direct_case, check_direct, 200, "random phase maps through set_dmd_grating_state; non-trivial = phase "
        "varies"),
]
