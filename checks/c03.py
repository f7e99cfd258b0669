"""C03 Propagation equals the discretised Fourier integral."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut


def state():
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("mask"), "mask": G.mask()}),
        st.fixed_dictionaries({"k": st.just("grey"), "seed": G.seeds}),
        st.fixed_dictionaries({"k": st.just("phase"), "f": G.field(nonzero=True)}),
    )


def build_state(s, Ny, Nx):
    if s["k"] == "mask":
        return G.build_mask(s["mask"], Ny, Nx)
    if s["k"] == "grey":
        return np.random.default_rng(s["seed"]).random((Ny, Nx))
    return 2 * np.angle(G.build_field(s["f"], Ny, Nx))  # radians, beyond one wave


def case(n=None):
    return st.fixed_dictionaries({
        "dmd": G.dmd_case(n), "lcos": st.booleans(), "state": state(), "beam": G.field(), "beam2": G.field(), "mag": G.mag(),
        "px": G.pad(7), "py": G.pad(7), "tf": st.booleans(), "how": G.HOW, "base": st.booleans(),
        "as": st.sampled_from(["same", "same", "float32", "float64", "wide", "fortran"])})


def retype(s, how, lcos):
    """The state as users store it: the type and layout do not matter."""
    if how == "wide":
        return s.astype(complex if lcos else np.int64 if s.dtype == bool else float)
    if how == "fortran":
        return np.asfortranarray(s)
    return s if how == "same" else s.astype(how)


def modulation(lcos, s):
    return np.exp(1j * s) if lcos else s.astype(complex)


def setup(c, env):
    d = c["dmd"]
    s = build_state(c["state"], d["Ny"], d["Nx"])
    env.fft(c["tf"])
    with sut("construct"):
        if c["lcos"]:
            slm = G.mk_lcos(env, d)
            s = retype(s.astype(float), c["as"], True)
            slm.slm_state = s
            s = env.r(s.real)
        else:
            slm = G.mk_dmd(env, d)
            s = retype(s, c["as"], False)
            slm.dmd_state = s
            s = env.r(s)
        cls = env.p.SLMSimulation if (c["lcos"] or c["base"]) else env.p.DMDSimulation
        sim = cls(slm, padding_x=c["px"], padding_y=c["py"])
    return d, slm, sim, modulation(c["lcos"], s)


def fields(env, c, d, sim, E, m, what):
    px, py, sf = c["px"], c["py"], d["wl"] * d["f"]
    ein = O.pad(E, px, py)
    eout = O.pad(E * m, px, py)
    tot = max(np.abs(E).sum(), np.abs(E * m).sum(), 1e-30)
    e = np.abs(E).max() * max(1.0, np.abs(m).max())
    with sut(what):
        i, o, f = sim.input_field, sim.output_field, sim.image_plane_field
        ii, oi, fi = sim.input_intensity, sim.output_intensity, sim.image_plane_intensity
    close(i, ein, 4 * env.eps * e, what + ": input field")
    close(o, eout, 64 * env.eps * e, what + ": output field")
    exp = O.propagate(eout, d["pix"], sf)
    tol = 40 * env.eps * tot * d["pix"] ** 2 / sf
    close(f, exp, tol, what + ": image plane field")
    peak = max(np.abs(exp).max(), tol)
    close(fi, np.abs(exp) ** 2, 4 * tol * peak, what + ": image plane intensity")
    close(ii, np.abs(ein) ** 2, 16 * env.eps * e * e, what + ": input intensity")
    close(oi, np.abs(eout) ** 2, 128 * env.eps * e * e, what + ": output intensity")
    need(f.dtype == env.cplx and i.dtype == env.cplx and o.dtype == env.cplx and fi.dtype == env.real,
         "%s: field dtypes %s %s %s %s do not follow the backend", what, i.dtype, o.dtype, f.dtype, fi.dtype)
    return f


def check(c, env, rec):
    d, slm, sim, m = setup(c, env)
    E = env.c(G.build_field(c["beam"], d["Ny"], d["Nx"]))
    with sut("propagate_to_image"):
        sim.propagate_to_image(G.offer(env, E.astype(env.cplx), c["how"]))
    fields(env, c, d, sim, E, m, "first beam")
    # a second beam through the same simulation replaces the result completely
    E2 = env.c(c["mag"] * G.build_field(c["beam2"], d["Ny"], d["Nx"]))
    with sut("second propagate_to_image"):
        sim.propagate_to_image(E2.astype(env.cplx))
    fields(env, c, d, sim, E2, m, "second beam")
    rec.nt(d["Nx"] != d["Ny"] and (np.abs(m).sum() > 0) and np.iscomplexobj(E))
    rec.label("lcos" if c["lcos"] else "dmd", "padded" if c["px"] + c["py"] else "unpadded",
              "tf fft" if c["tf"] else "numpy fft", "odd" if d["Nx"] % 2 or d["Ny"] % 2 else "even", c["state"]["k"],
              "beam " + c["beam"]["k"])


def check_linear(c, env, rec):
    """Superposition, through beams given as function profiles and numbers."""
    d, slm, sim, m = setup(c, env)
    a, b = c["a"], c["b"]
    w = d["pix"] * min(d["Nx"], d["Ny"])
    with sut("profiles"):
        p1 = env.p.HermiteGaussian(c["x0"] * w, 0.1 * w, 1.3, w, n=c["n"], m=c["m"])
        p2 = env.p.LaguerreGaussian(0.0, c["x0"] * w, 0.7, w, l=c["l"], p=1)
        both = p1 * a + p2 * b
        got = []
        for prof in (p1, p2, both, a):
            sim.propagate_to_image(prof)
            got.append(np.asarray(sim.image_plane_field).astype(complex))
            inp = np.asarray(sim.input_field).astype(complex)
    x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
    e1 = O.hg(x, y, c["x0"] * w, 0.1 * w, 1.3, w, c["n"], c["m"]).astype(complex)
    e2 = O.lg(x, y, 0.0, c["x0"] * w, 0.7, w, c["l"], 1)
    sf = d["wl"] * d["f"]
    for f, e, what in ((got[0], e1, "HG beam"), (got[1], e2, "LG beam"), (got[2], a * e1 + b * e2, "superposition"),
                       (got[3], np.full(x.shape, a, complex), "uniform beam")):
        exp = O.propagate(O.pad(e * m, c["px"], c["py"]), d["pix"], sf)
        tol = (400 * env.eps) * (np.abs(e).sum() + x.size) * 8 * max(1.0, np.abs(m).max()) * d["pix"] ** 2 / sf
        close(f, exp, tol, what)
    rec.nt(c["l"] != 0 or c["n"] + c["m"] > 0)
    rec.label("lcos" if c["lcos"] else "dmd")


def lin_case():
    return st.tuples(case(G.size(4, 20)), st.fixed_dictionaries({
        "a": G.fl(-2, 2), "b": G.fl(-2, 2), "x0": G.fl(-0.3, 0.3), "n": st.integers(0, 3), "m": st.integers(0, 3),
        "l": st.integers(-2, 2)})).map(lambda t: {**t[0], **t[1]})


def dev_case():
    return st.fixed_dictionaries({"dev": st.sampled_from(["DLP7000", "DLP9500", "PLUTO_2"]), "wl": G.logf(3e-7, 1.5e-6),
                                  "f": G.logf(2e-2, 0.5), "period": G.fl(2, 10), "theta": G.angle, "neg": st.booleans(),
                                  "px": st.integers(0, 40), "py": st.integers(0, 40), "beam": G.field(nonzero=True),
                                  "state": state(), "tf": st.booleans(), "probe": G.seeds})


def check_dev(c, env, rec):
    """Full-size devices: the image field at probe points by direct summation."""
    Nx, Ny, pix = G.DEVICES[c["dev"]]
    lcos = c["dev"] == "PLUTO_2"
    env.fft(c["tf"])
    s = build_state(c["state"], Ny, Nx)
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    with sut("device simulation"):
        if lcos:
            slm = env.p.PLUTO_2(c["wl"], c["f"])
            slm.slm_state = s.astype(float)
        else:
            slm = getattr(env.p, c["dev"])(c["wl"], c["f"], c["period"], c["theta"], c["neg"])
            slm.dmd_state = s
        sim = env.p.SLMSimulation(slm, padding_x=c["px"], padding_y=c["py"])
        sim.propagate_to_image(E.astype(env.cplx))
        F = sim.image_plane_field
        X, Y = sim.image_plane_padded_grid
    m = modulation(lcos, env.r(s))
    out = E * m
    sf = c["wl"] * c["f"]
    x, y = O.fourier_grid(Nx, Ny, pix)
    x, y = x[0], y[:, 0]
    N, M = Nx + 2 * c["px"], Ny + 2 * c["py"]
    ix, iy = O.image_axes(N, M, pix, sf)
    g = np.random.default_rng(c["probe"])
    tot = max(np.abs(E).sum(), np.abs(E * m).sum())
    for k in range(6):
        # near the axis, where the light is, and anywhere
        i = M // 2 + int(g.integers(-4, 5)) if k % 2 else int(g.integers(0, M))
        j = N // 2 + int(g.integers(-4, 5)) if k % 2 else int(g.integers(0, N))
        exp = (np.exp(2j * np.pi * y * iy[i] / sf) @ out @ np.exp(2j * np.pi * x * ix[j] / sf)) * pix ** 2 / sf
        close(F[i, j], exp, 40 * env.eps * tot * pix ** 2 / sf, "%s image field at pixel (%d, %d)" % (c["dev"], i, j))
        close([X[i, j], Y[i, j]], [ix[j], iy[i]], 1e-5 * abs(ix[0]), "image coordinates of that pixel")
    rec.nt()
    rec.label(c["dev"])


SUBS = [
    Sub("integral", case, check, 1600, "random beam, modulator state, geometry, padding and FFT backend against a direct "
        "summation; non-trivial = not square and some light passes"),
    Sub("profiles", lin_case, check_linear, 160, "superpositions given as profile objects; non-trivial = a higher mode"),
    Sub("device", dev_case, check_dev, 16, "full-size devices at probe points; all count", thorough=6),
]
