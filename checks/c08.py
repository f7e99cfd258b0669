"""C08 Mode matching efficiency: value, scaling laws, windows, invariances of the hologram."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, same, sut
from checks.c07 import beam_of, build_window, matched, window


def case():
    return st.fixed_dictionaries({
        "d": G.optics(G.size(2, 22)), "period": G.fl(2, 12), "theta": G.angle, "neg": st.booleans(),
        "beam": G.field(nonzero=True), "target": G.field(), "window": window(), "dark": st.sampled_from([0, 0, 2]),
        "seed": G.seeds, "tf": st.booleans(), "k": st.one_of(G.logf(1e-3, 1e3), G.logf(1e-12, 1e12)),
        "q": st.one_of(G.logf(1e-3, 1e3), G.logf(1e-12, 1e12)), "ph": G.fl(-3, 3),
        "method": st.sampled_from(["ideal", "simple", "random", "ifta"])})


def mk(env, c):
    d = c["d"]
    return env.p.DMD(d["wl"], d["f"], c["period"], c["theta"], d["Nx"], d["Ny"], d["pix"], negative_order=c["neg"])


def run(dmd, E, T, method, w, d):
    kw = {} if w is None else {"window": w}
    if method == "ifta":
        kw.update(signal_window=np.ones((d["Ny"], d["Nx"]), np.float32), N=3)
    return dmd.calculate_dmd_state(E, T, method=method, **kw)


def check(c, env, rec):
    d = c["d"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    E = beam_of(c, env)
    T = env.c(G.build_field(c["target"], Ny, Nx))
    w, W = build_window(c["window"], env, d)
    if W is None:
        return
    full = np.abs(O.back_propagate(T, d["pix"], sf)).max()
    E0, m = matched(E, T, W, d)
    if np.abs(np.where(E == 0, 0, E0)).max() < 1e-2 * full:
        return
    ref = 1 / m
    tol = 100 * env.eps * np.log2(Nx * Ny + 2)
    with sut("calculate_dmd_state"):
        dmd = mk(env, c)
        e = E.astype(env.cplx)
        eta = run(dmd, e, T.astype(env.cplx), "ideal", w, d)
        state = np.array(dmd.dmd_state, float)
        eta_m = run(dmd, e, T.astype(env.cplx), c["method"], w, d)
        need(isinstance(eta, float), "the efficiency is a %s, not a float", type(eta).__name__)
        close(eta, ref, tol * ref, "efficiency against max |target at modulator| / |beam|")
        close(eta_m, ref, tol * ref, "efficiency with method " + c["method"])
        # only ratios matter to the hologram; the efficiency scales with beam / target
        k, q = c["k"], c["q"]
        e2 = run(dmd, (q * E).astype(env.cplx), (k * T).astype(env.cplx), "ideal", w, d)
    close(e2, ref * q / k, 2 * tol * ref * q / k, "efficiency of a rescaled pair")
    g = O.carrier(*O.fourier_grid(Nx, Ny, d["pix"]), c["period"] * d["pix"], c["theta"])
    # angle errors: relative precision of the modulus times the accuracy of the phase
    rel = np.abs(E0) * ref / np.where(E == 0, 1, np.abs(E))
    noise = np.minimum(1.0, env.eps * 60 * np.abs(O.back_propagate(T, d["pix"], sf)).max() * ref
                       / np.where(E == 0, np.inf, np.abs(E)))
    stol = noise + env.eps * (40 + 8 * np.abs(g).max())
    close(dmd.dmd_state, state, 2 * stol, "hologram of a rescaled pair")
    # the reported efficiency is the largest one a mirror array can deliver: somewhere the mirror is fully used
    phi = np.angle(np.where(E0 == 0, 1, E0)) - np.angle(E)
    want = np.where(E == 0, 0, rel) * (np.cos(g - (-phi if c["neg"] else phi)) / 2 + 0.5)
    loose = np.where(np.abs(E0) < 1e-4 * full, rel + stol, stol)
    close(state, want, loose + 20 * env.eps, "greyscale hologram")
    # a common phase of target or beam changes no efficiency
    with sut("phase rotated pair"):
        e3 = run(dmd, (E * np.exp(1j * c["ph"])).astype(env.cplx), T.astype(env.cplx), "ideal", w, d)
        e4 = run(dmd, e, (T * np.exp(1j * c["ph"])).astype(env.cplx), "simple", w, d)
    close([e3, e4], [ref, ref], 2 * tol * ref, "efficiency of a phase rotated pair")
    if c["window"] is not None:
        with sut("without window"):
            e5 = run(dmd, e, T.astype(env.cplx), "simple", None, d)
        need(e5 <= eta * (1 + 2 * tol), "a window that only removes light lowered the efficiency from %g to %g", e5, eta)
    rec.nt(np.ptp(rel) > 0.05)
    rec.label(c["method"], "window " + c["window"]["k"] if c["window"] else "no window", "dark" if c["dark"] else "")


def dim_case():
    return st.fixed_dictionaries({
        "d": G.optics(G.size(3, 12)), "period": G.fl(2, 12), "theta": G.angle, "neg": st.booleans(),
        "beam": G.field(nonzero=True), "target": G.field(nonzero=True), "tf": st.booleans(), "seed": G.seeds,
        "dim": st.lists(G.fl(-6.0, -0.5), min_size=1, max_size=4), "bright": G.fl(0.0, 1.0),
        "method": st.sampled_from(["ideal", "simple", "random", "ifta"])})


def check_dim(c, env, rec):
    """Beams with very dim pixels: the dimmest one limits the efficiency, and every mirror follows the same ratio."""
    d = c["d"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    E = G.build_field(c["beam"], Ny, Nx)
    T = env.c(G.build_field(c["target"], Ny, Nx))
    full = O.back_propagate(T, d["pix"], sf)
    # dim pixels where the back-propagated target is bright, so that the ratio is well conditioned
    order = np.argsort(-np.abs(full).ravel())
    g = np.random.default_rng(c["seed"])
    for k in c["dim"]:
        q = order[int(g.integers(0, 1 + c["bright"] * (order.size - 1)))]
        E.ravel()[q] = E.ravel()[q] / np.abs(E.ravel()[q]) * np.abs(E).max() * 10.0 ** k
    E = env.c(E)
    E0, m = matched(E, T, np.ones((Ny, Nx)), d)
    noise = 12 * env.eps * np.log2(Nx * Ny + 2) * (np.sqrt((np.abs(full) ** 2).mean()) + np.abs(full)) / np.abs(E)
    # the largest ratio, known within the noise of the transform at any pixel that could be the largest
    r = np.abs(full) / np.abs(E)
    t = np.where(r + noise >= r.max() - noise.max(), noise, 0).max() + 8 * env.eps * m
    if t > 0.2 * m:
        return
    with sut("calculate_dmd_state"):
        dmd = mk(env, c)
        eta = run(dmd, E.astype(env.cplx), T.astype(env.cplx), c["method"], None, d)
    close(1 / eta, m, t, "reciprocal efficiency with dim pixels, method " + c["method"])
    if c["method"] == "ideal":
        x, y = O.fourier_grid(Nx, Ny, d["pix"])
        car = O.carrier(x, y, c["period"] * d["pix"], c["theta"])
        phi = np.angle(E0) - np.angle(E)
        want = r / m * (np.cos(car - (-phi if c["neg"] else phi)) / 2 + 0.5)
        terr = (noise + r * t / m) / m * 2 + r / m * env.eps * (60 + 8 * np.abs(car).max())
        close(dmd.dmd_state, want, terr, "greyscale hologram of a beam with dim pixels")
    rec.nt(np.argmax(r) in [int(v) for v in np.argsort(np.abs(E).ravel())[:len(c["dim"])]])
    rec.label(c["method"], "1e-3 or dimmer limits" if np.abs(E).ravel()[np.argmax(r)] < 1e-3 * np.abs(E).max() else "")


def perfect_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(2, 22)), "period": G.fl(2, 12), "theta": G.angle,
                                  "neg": st.booleans(), "beam": G.field(nonzero=True), "k": G.logf(1e-2, 1e2),
                                  "ph": G.fl(-3, 3), "tf": st.booleans(), "shift": G.field(nonzero=True)})


def check_perfect(c, env, rec):
    """A beam whose modulus already is that of the back-propagated target needs a phase grating of full depth."""
    d = c["d"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    # same modulus at the modulator, any phase
    ph = np.exp(1j * (np.angle(G.build_field(c["shift"], Ny, Nx)) + c["ph"]))
    T = O.propagate(c["k"] * E * ph, d["pix"], sf).astype(env.cplx)
    with sut("calculate_dmd_state"):
        dmd = mk(env, c)
        eta = dmd.calculate_dmd_state(E.astype(env.cplx), T, method="ideal")
    t = 200 * env.eps * np.log2(Nx * Ny + 2) * (np.abs(E).max() / np.abs(E).min())
    close(eta * c["k"], 1.0, t, "efficiency of a matched beam times the target scale")
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, c["period"] * d["pix"], c["theta"])
    phi = np.angle(E * ph) - np.angle(E)
    want = np.cos(g + phi if c["neg"] else g - phi) / 2 + 0.5
    close(dmd.dmd_state, want, t + env.eps * (40 + 8 * np.abs(g).max()), "grating of a matched beam")
    rec.nt(np.ptp(np.abs(E)) > 0.1 * np.abs(E).max())


def bad_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(2, 8)), "period": G.fl(2, 12), "theta": G.angle,
                                  "neg": st.booleans(), "mask": G.mask(),
                                  "name": st.one_of(st.sampled_from(["Random", "gs", "mraf", "", "ideal ", "lee", "IFTA"]),
                                                    st.text("abcdeIRS _", max_size=8))})


def check_bad(c, env, rec):
    """An unknown method is refused and leaves the mirrors as they were."""
    if c["name"] in ("ideal", "simple", "random", "ifta"):
        return
    d = c["d"]
    m = G.build_mask(c["mask"], d["Ny"], d["Nx"])
    with sut("construct"):
        dmd = mk(env, c)
        dmd.dmd_state = m.copy()
    must_raise("method %r" % c["name"], lambda: dmd.calculate_dmd_state(1.0, np.ones((d["Ny"], d["Nx"])),
                                                                        method=c["name"]), ValueError)
    same(dmd.dmd_state, m, "mirrors after a refused method")
    must_raise("method %r" % c["name"], lambda: dmd.set_dmd_grating_state(method=c["name"]), ValueError)
    same(dmd.dmd_state, m, "mirrors after a refused method")
    must_raise("method %r" % c["name"], lambda: dmd.circular_patch(1, 1, 1.0, 0.0, 0.0, 2, method=c["name"]), ValueError)
    same(dmd.dmd_state, m, "mirrors after a refused method")
    rec.nt(m.any())


SUBS = [
    Sub("efficiency", case, check, 480, "random beam, target, window and method; non-trivial = grating depth varies"),
    Sub("dim", dim_case, check_dim, 320, "beams with up to four pixels 0.5 to 6 decades dimmer than the rest; non-trivial = a dim "
        "pixel limits the efficiency"),
    Sub("matched", perfect_case, check_perfect, 320, "beams matched to the target; non-trivial = modulus varies by 10 %"),
    Sub("refused", bad_case, check_bad, 64, "unknown method names; non-trivial = some mirrors were on"),
]
