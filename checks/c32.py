"""C32 Units, exchange of the axes, and reversal of the beams: what the physics does not distinguish, the results do not either."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut
from checks.c31 import PROBES, SHAPES, World, compare, prof
from checks.c11 import generic

ROUGH = [k for k in PROBES if k not in ("block", "window")]


# ---- units -------------------------------------------------------------------------------------------------------

def scale_case():
    k = st.integers(-12, 12)
    two = st.fixed_dictionaries({"kw": k, "kf": k, "kp": k})
    trade = k.map(lambda v: {"kw": v, "kf": -v, "kp": 0})
    any_ = st.fixed_dictionaries({"w": G.logf(1e-3, 1e3), "f": G.logf(1e-3, 1e3), "p": G.logf(1e-3, 1e3)})
    unit = st.sampled_from([1e3, 1e6, 1e9, 1e-3]).map(lambda u: {"w": u, "f": u, "p": u})
    return st.fixed_dictionaries({
        "shape": st.sampled_from(SHAPES), "d": G.dmd_case(st.just(6)), "pad": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
        "prof": prof(), "zj": st.integers(0, 14), "tf": st.booleans(), "beam": G.field(True), "mask": G.mask(), "seed": G.seeds,
        "r": st.one_of(st.none(), G.fl(0.0, 0.5)), "by": st.one_of(two, trade, any_, unit),
        "probes": st.lists(st.sampled_from(PROBES), min_size=3, max_size=7, unique=True)})


def factor(key, w, f, p):
    """How a result changes with the unit of wavelength, focal length and mirrors."""
    k, q = key.split(": ")
    image = w * f / p
    fld = p * p / (w * f)
    if q == "efficiency":
        return fld
    if k in ("prop", "propprof", "block", "lprop"):
        if "image_plane_intensity" in q:
            return fld ** 2
        if "image" in q or q == "blocked field":
            return fld
        return p * p if q == "power" else 1.0
    if k == "powers":
        return p * p
    if k in ("grids", "lgrids"):
        if q == "areas":
            return np.array([image ** 2 / p ** 2, 1, 1])
        n = int(q.split()[1])
        # dmd: Fourier, image, padded Fourier, padded image; lcos: image, Fourier, padded image, padded Fourier
        return (p if n // 2 % 2 == 0 else image) if k == "grids" else (image if n // 2 % 2 == 0 else p)
    if k == "origin":
        return 1.0 if q == "theta" else image
    return 1.0


def check_scale(c, env, rec):
    c = {**c, "shape": tuple(c["shape"])}
    env.fft(c["tf"])
    b = c["by"]
    exact = "kw" in b
    w, f, p = (2.0 ** b["kw"], 2.0 ** b["kf"], 2.0 ** b["kp"]) if exact else (b["w"], b["f"], b["p"])
    d = {**c["d"], "late": False}
    if not exact:
        d = generic(d)
    c1 = {**c, "d": d}
    c2 = {**c, "d": {**d, "wl": d["wl"] * w, "f": d["f"] * f, "pix": d["pix"] * p}}
    probes = [k for k in c["probes"] if exact or k in ROUGH]
    if not exact:
        # the iteration amplifies rounding
        probes = [k for k in probes if k != "ifta" or env.is64]
    with sut("both scenes"):
        a = World(env, c1, c["prof"], d["neg"])
        z = World(env, c2, c["prof"], d["neg"])
    for k in probes:
        with sut(k):
            x, y = a.probe(k), z.probe(k)
        want = {}
        for q, v in x.items():
            s = factor(q, w, f, p)
            want[q] = v if v.dtype == bool or np.all(s == 1) else (v * s).astype(v.dtype)
        compare(y, want, "wavelength x %g, focal length x %g, mirrors x %g" % (w, f, p), env, sum(c["shape"]) + (0 if exact else 60),
                lambda nudge: World(env, c1, c["prof"], d["neg"], nudge).probe(k))
    rec.nt(bool(probes) and (w, f, p) != (1, 1, 1))
    rec.label("powers of two" if exact else "any unit", "same product" if w * f == 1 and p == 1 and w != 1 else "")


# ---- exchange of rows and columns, and reversal ------------------------------------------------------------------

def beamspec():
    ln = G.fl(-0.3, 0.3)
    return st.one_of(
        G.field(True), G.field(True),
        st.fixed_dictionaries({"k": st.just("hg"), "n": st.integers(0, 3), "m": st.integers(0, 3), "x0": ln, "y0": ln, "w": G.fl(0.4, 1.0),
                               "a": G.fl(0.5, 2.0), "off": st.just(9.0)}))


def targetspec():
    ln = G.fl(-0.3, 0.3)
    return st.one_of(
        G.field(), G.field(),
        st.fixed_dictionaries({"k": st.just("hg"), "n": st.integers(0, 3), "m": st.integers(0, 3), "x0": ln, "y0": ln, "w": G.fl(0.1, 0.4),
                               "a": G.fl(0.5, 2.0), "off": st.just(0.0)}),
        st.fixed_dictionaries({"k": st.just("lg"), "l": st.integers(-2, 2), "p": st.integers(0, 1), "x0": ln, "y0": ln, "w": G.fl(0.1, 0.4),
                               "a": G.fl(0.5, 2.0)}),
        st.fixed_dictionaries({"k": st.just("sg"), "x0": ln, "y0": ln, "w": G.fl(0.1, 0.4), "a": G.fl(0.5, 2.0), "p": G.fl(0.6, 3.0)}))


def swap_case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(st.integers(3, 12)).map(generic), "pad": st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list),
        "beam": beamspec(), "target": targetspec(), "mask": G.mask(), "tf": st.booleans(), "method": st.sampled_from(
            ["ideal", "ideal", "simple", "ifta"]), "patch": st.tuples(G.fl(0, 12), G.fl(0, 12), G.fl(1, 9)).map(list),
        "window": st.booleans(), "r": st.one_of(st.none(), G.fl(0.0, 0.5)), "phase": G.field(True), "N": st.integers(1, 3)})


def as_array(s, Ny, Nx, env):
    return G.build_field(s, Ny, Nx).astype(env.cplx)


def build(s, d, at, env, swapped):
    """Array or profile; with `swapped`, its image under the exchange x' = -y, y' = -x."""
    Ny, Nx = (d["Nx"], d["Ny"]) if swapped else (d["Ny"], d["Nx"])  # unswapped numbers
    if s["k"] not in ("hg", "lg", "sg"):
        a = as_array(s, Ny, Nx, env)
        return np.ascontiguousarray(a.T) if swapped else a
    p, u = env.p, (max(Nx, Ny) * d["pix"] if at == "fourier" else d["wl"] * d["f"] / d["pix"])
    x0, y0, w, a = s["x0"] * u, s["y0"] * u, s["w"] * u, s["a"]
    if swapped:
        x0, y0 = -y0, -x0
    if s["k"] == "hg":
        n, m = s["n"], s["m"]
        if swapped:
            n, m, a = m, n, a * (-1) ** (n + m)
        h = p.HermiteGaussian(x0, y0, a, w, n=n, m=m)
        return h + s["off"] * 5 if s["off"] else h
    if s["k"] == "lg":
        if swapped:
            return p.LaguerreGaussian(x0, y0, a, w, l=-s["l"], p=s["p"]) * complex((1j) ** s["l"])
        return p.LaguerreGaussian(x0, y0, a, w, l=s["l"], p=s["p"])
    return p.SuperGaussian(x0, y0, a, w, p=s["p"])


def measure(c, d, env, swapped, nudge=0.0):
    """All results of one scene, in the layout of the unswapped one."""
    back = (lambda a: np.array(a).T) if swapped else np.array
    Nx, Ny = d["Nx"], d["Ny"]
    oNy, oNx = (Nx, Ny) if swapped else (Ny, Nx)
    give = (lambda a: np.ascontiguousarray(np.asarray(a).T)) if swapped else np.asarray
    px, py = c["pad"][::-1] if swapped else c["pad"]
    dmd = G.mk_dmd(env, {**d, "theta": d["theta"] + (-nudge if swapped else nudge)})
    E, T = build(c["beam"], d, "fourier", env, swapped), build(c["target"], d, "image", env, swapped)
    out = {}
    kw = {}
    i, j = np.indices((oNy, oNx))
    W = np.hypot((j - oNx // 2) / oNx, (i - oNy // 2) / oNy)
    if c["method"] == "ifta":
        kw = {"signal_window": give((W < 0.3217).astype(env.real)), "N": c["N"]}
    if c["window"]:
        kw["window"] = give(1 / (1 + W + 0.3 * i / oNy))
    out["efficiency"] = np.array(dmd.calculate_dmd_state(E, T, method=c["method"], **kw))
    out["hologram"] = back(dmd.dmd_state)
    a, b, dia = c["patch"]
    if swapped:
        a, b = b, a
    ph = give(np.angle(as_array(c["phase"], oNy, oNx, env)).astype(env.real))
    dmd.set_dmd_state_off()
    dmd.circular_patch(a, b, 0.8, 0.0, ph, dia, method="ideal")
    out["patch"] = back(dmd.dmd_state)
    dmd.dmd_state = give(G.build_mask(c["mask"], oNy, oNx))
    for n, sim in enumerate((env.p.DMDSimulation(dmd, padding_x=px, padding_y=py), env.p.SLMSimulation(dmd))):
        sim.propagate_to_image(E)
        out["image %d" % n] = back(sim.image_plane_field)
        out["intensity %d" % n] = back(sim.image_plane_intensity)
        out["power %d" % n] = np.array(sim.get_image_plane_power())
        if n == 0:
            out["area"] = np.array(sim.image_plane_pixel_area)
            if c["r"] is not None:
                # between the grid points
                X, Y = O.image_grid(Nx + 2 * px, Ny + 2 * py, d["pix"], d["wl"] * d["f"])
                R = np.unique(np.hypot(X, Y))
                k = int(c["r"] * (len(R) - 2))
                if R[k + 1] - R[k] > 1e-4 * R[-1]:
                    sim.block_zeroth_order((R[k] + R[k + 1]) / 2)
                    out["blocked"] = back(sim.image_plane_field)
    x, y = dmd.fourier_plane_grid
    u, v = dmd.image_plane_grid
    o = dmd.first_order_origin
    if swapped:
        x, y, u, v, o = -y.T, -x.T, -v.T, -u.T, (-o[1], -o[0])
    out.update({"x": x, "y": y, "u": u, "v": v, "origin": np.array(o)})
    lcos = G.mk_lcos(env, d)
    lcos.slm_state = ph
    sim = env.p.SLMSimulation(lcos, padding_x=px, padding_y=py)
    sim.propagate_to_image(E)
    out["phase modulated"] = back(sim.image_plane_field)
    return out


def similar(got, want, c, what, env, N, cond, again):
    need(got.keys() == want.keys(), "%s: results %s and %s", what, sorted(got), sorted(want))
    for q, b in want.items():
        a = got[q]
        need(a.shape == b.shape and (a.dtype == b.dtype or a.ndim == 0), "%s, %s: %s %s, expected %s %s", what, q, a.dtype, a.shape,
             b.dtype, b.shape)
        if b.dtype == bool:
            bad = a != b
            if bad.any():
                for nudge in (6e-6, -6e-6, 2e-6, -2e-6):
                    bad &= again(nudge)[q] == b
            # the iteration amplifies rounding
            slack = 0 if c["method"] == "simple" else (1 if env.is64 else 1 + b.size // 8)
            need(int(bad.sum()) <= slack, "%s, %s: %d of %d mirrors differ", what, q, int(bad.sum()), bad.size)
        else:
            m = float(np.abs(b).max()) if b.size else 0.0
            close(a, b, 200 * env.eps * (1 + N) * m * (cond if q in ("hologram", "efficiency") else 1) + 1e-300, "%s, %s" % (what, q))


def conditioning(c, d, env):
    """How much an error of the target's transform matters for amplitude and phase of the hologram."""
    with sut("sampling"):
        s = G.mk_lcos(env, d)
        E = np.asarray(s.profile_to_tensor(build(c["beam"], d, "fourier", env, False), complex=True), complex)
        T = np.asarray(s.profile_to_tensor(build(c["target"], d, "image", env, False), at_fourier_plane=False, complex=True), complex)
    t = np.abs(np.fft.fft2(T))
    if t.max() == 0 or np.abs(T).max() < 1e-3:
        return None
    return 4 * np.abs(T).sum() / t.max() * np.abs(E).max() / np.abs(E).min()


def check_swap(c, env, rec):
    env.fft(c["tf"])
    d = c["d"]
    cond = conditioning(c, d, env)
    if cond is None or cond > (1e3 if not env.is64 else 1e6):
        return
    e = {**d, "Nx": d["Ny"], "Ny": d["Nx"], "theta": -np.pi / 2 - d["theta"]}
    with sut("both scenes"):
        a, b = measure(c, d, env, False), measure(c, e, env, True)
    # the grating angle itself is rounded
    similar(b, a, c, "axes exchanged", env, (d["Nx"] + d["Ny"] + sum(c["pad"])) * (1 + abs(d["theta"])), cond,
            lambda nudge: measure(c, d, env, False, nudge))
    rec.nt(d["Nx"] != d["Ny"])
    rec.label(c["method"], "profile beam" if c["beam"]["k"] in ("hg", "lg") else "", "profile target" if c["target"]["k"] in (
        "hg", "lg", "sg") else "")


def flip(a):
    """a at the point reflected about the optical axis."""
    Ny, Nx = a.shape
    i = (2 * (Ny // 2) - np.arange(Ny)) % Ny
    j = (2 * (Nx // 2) - np.arange(Nx)) % Nx
    return a[np.ix_(i, j)]


def rev_case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(st.integers(3, 12)).map(generic), "pad": st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list),
        "beam": G.field(True), "target": G.field(), "mask": G.mask(), "tf": st.booleans(), "method": st.sampled_from(
            ["ideal", "ideal", "simple", "ifta"]), "phase": G.field(True), "N": st.integers(1, 3), "off": st.booleans()})


def check_rev(c, env, rec):
    """Conjugate beam and reflected conjugate target in the other order: the same mirrors; conjugate field: reflected image."""
    env.fft(c["tf"])
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    E, T = as_array(c["beam"], Ny, Nx, env), as_array(c["target"], Ny, Nx, env)
    t = np.abs(np.fft.fft2(T.astype(complex)))
    if t.max() == 0:
        return
    cond = 4 * np.abs(T).sum() / t.max() * np.abs(E).max() / np.abs(E).min()
    if cond > (1e3 if not env.is64 else 1e6):
        return
    i, j = np.indices((Ny, Nx))
    W = np.hypot((j - Nx // 2 - 1) / Nx, (i - Ny // 2) / Ny) < 0.3217
    ph = np.angle(as_array(c["phase"], Ny, Nx, env)).astype(env.real)
    mask = G.build_mask(c["mask"], Ny, Nx)

    def run(rev, nudge=0.0):
        q = (lambda a: np.conj(a)) if rev else (lambda a: a)
        # padding changes the centre of an odd chip by nothing, of an even one by nothing
        g = (lambda a: np.conj(flip(np.array(a)))) if rev else np.array
        dmd = G.mk_dmd(env, {**d, "neg": d["neg"] != rev, "theta": d["theta"] + nudge})
        kw = {"signal_window": (flip(W) if rev else W).astype(env.real), "N": c["N"]} if c["method"] == "ifta" else {}
        eta = dmd.calculate_dmd_state(q(E), g(T) if rev else T, method=c["method"], **kw)
        out = {"efficiency": np.array(eta), "hologram": np.array(dmd.dmd_state)}
        dmd.set_dmd_grating_state(amp=0.6, phase_in=-ph if rev else ph, phase_out=-ph[::-1] if rev else ph[::-1], method="ideal")
        out["grating"] = np.array(dmd.dmd_state)
        dmd.dmd_state = mask
        sim = env.p.DMDSimulation(dmd, padding_x=c["pad"][0], padding_y=c["pad"][1])
        sim.propagate_to_image(q(E))
        out["image"] = g(sim.image_plane_field)
        lcos = G.mk_lcos(env, d)
        lcos.slm_state = -ph if rev else ph
        sim = env.p.SLMSimulation(lcos, padding_x=c["pad"][0], padding_y=c["pad"][1])
        sim.propagate_to_image(q(E))
        out["phase modulated"] = g(sim.image_plane_field)
        return out

    with sut("both scenes"):
        a, b = run(False), run(True)
    similar(b, a, c, "everything reversed", env, Nx + Ny + sum(c["pad"]), cond, lambda nudge: run(False, nudge))
    rec.nt(np.abs(np.imag(T)).max() > 0 or np.abs(T - flip(T)).max() > 0)
    rec.label(c["method"], "odd" if Nx % 2 or Ny % 2 else "")


SUBS = [
    Sub("units", scale_case, check_scale, 200, "two scenes with wavelength, focal length and mirror size multiplied, 3-7 kinds of results; "
        "non-trivial = a factor other than 1"),
    Sub("axes", swap_case, check_swap, 200, "scenes with rows and columns exchanged, all results; non-trivial = chip not square"),
    Sub("reversal", rev_case, check_rev, 200, "conjugate beams, reflected targets, opposite order; non-trivial = complex or asymmetric "
        "target"),
]
