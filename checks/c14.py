"""C14 Gerchberg-Saxton phase holograms."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, same, sut


def good_state(env, s, d):
    s = np.asarray(s)
    need(s.shape == (d["Ny"], d["Nx"]), "hologram of shape %s", s.shape)
    need(not np.iscomplexobj(s) or not s.imag.any(), "the hologram is not a real phase map")
    need(np.isfinite(s).all(), "%d pixels of the hologram are not finite", int((~np.isfinite(s)).sum()))
    return s.real.astype(float)


def spot_case():
    return st.fixed_dictionaries({
        "d": G.optics(G.size(2, 28)), "beam": G.field(nonzero=True), "mag": G.mag(), "i": G.seeds, "j": G.seeds,
        "a": st.one_of(G.logf(1e-3, 1e3), G.logf(1e-10, 1e10)),
        "N": st.sampled_from([1, 2, 7, 30]), "method": st.sampled_from(["gs", "mraf"]), "tf": st.booleans(),
        "how": G.HOW, "scalar": st.booleans(), "halo": st.integers(0, 2)})


def check_spot(c, env, rec):
    """One bright pixel: the hologram cancels the phase of the beam and steers all of it there - exactly, whatever the
    random start."""
    d = c["d"]
    Nx, Ny, sf = d["Nx"], d["Ny"], d["wl"] * d["f"]
    env.fft(c["tf"])
    E = env.c(c["mag"] * G.build_field(c["beam"], Ny, Nx))
    beam = G.offer(env, E.astype(env.cplx), c["how"])
    if c["scalar"]:
        beam = float(env.r(abs(E[0, 0])))
        E = np.full((Ny, Nx), complex(beam))
    i, j = c["i"] % Ny, c["j"] % Nx
    T = np.zeros((Ny, Nx))
    T[i, j] = c["a"]
    kw = {}
    if c["method"] == "mraf":
        W = np.zeros((Ny, Nx), np.float32)
        W[max(0, i - c["halo"]):i + c["halo"] + 1, max(0, j - c["halo"]):j + c["halo"] + 1] = 1
        kw = {"signal_window": W, "mixing_factor": 1.0}
    with sut("calculate_hologram(method=%r)" % c["method"]):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        slm.calculate_hologram(beam, G.offer(env, T.astype(env.real), c["how"]), method=c["method"], N=c["N"], **kw)
        s = good_state(env, slm.slm_state, d)
        sim.propagate_to_image(beam)
        f = sim.image_plane_field.astype(complex)
        power = float(sim.get_image_plane_power())
    top = np.abs(E).sum() * d["pix"] ** 2 / sf
    # a few random starts leave the bright pixel almost dark after the first transform: the steering is then less exact
    close(np.abs(f[i, j]), top, 2e-3 * top if not env.is64 else 1e-6 * top, "amplitude at the bright pixel (%d, %d)" % (i, j))
    # phases only: the light is conserved
    pin = (np.abs(E) ** 2).sum() * d["pix"] ** 2
    close(power, pin, 1e3 * env.eps * pin, "power in the image plane")
    # the light behind the SLM is a plane wave towards the spot
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    xi, yi = O.image_axes(Nx, Ny, d["pix"], sf)
    # integer pixel offsets, so that odd sizes only gain a global phase
    w = np.exp(1j * s) * E / np.abs(E) * np.exp(2j * np.pi * (x * xi[j] + y * yi[i]) / sf)
    z = w.mean()
    close(w / (z / abs(z)), np.ones_like(w), 5e-3 if not env.is64 else 1e-6, "wave behind the SLM, tilted back")
    rec.nt((i != Ny // 2 or j != Nx // 2) and np.ptp(np.angle(E)) > 0.1)
    rec.label(c["method"], "scalar beam" if c["scalar"] else "", "odd" if Nx % 2 or Ny % 2 else "even",
              "tf" if c["tf"] else "numpy")


def scene():
    spot = st.fixed_dictionaries({"x": G.fl(0.15, 0.85), "y": G.fl(0.15, 0.85), "w": G.fl(0.05, 0.2), "a": G.fl(0.4, 1.0)})
    return st.fixed_dictionaries({
        "d": G.optics(st.integers(12, 32)), "spots": st.lists(spot, min_size=1, max_size=3), "beamw": G.fl(0.3, 2.0),
        "phase": G.fl(0.0, 3.0), "a": G.logf(0.05, 20.0), "k": G.logf(0.01, 100.0), "N": st.sampled_from([1, 3, 10, 30, 60]),
        "tf": st.booleans(), "seed": G.seeds, "how": G.HOW, "dflt": st.booleans()})


def build_scene(c, env):
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    T = np.zeros((Ny, Nx))
    for s in c["spots"]:
        T = T + s["a"] * np.exp(-((jj / Nx - s["x"]) ** 2 + (ii / Ny - s["y"]) ** 2) / s["w"] ** 2)
    u, v = jj / Nx - 0.5, ii / Ny - 0.5
    E = c["a"] * (0.2 + np.exp(-(u ** 2 + v ** 2) / c["beamw"] ** 2)) * np.exp(1j * c["phase"] * np.sin(5 * u + 3 * v))
    return env.c(E), env.r(T)


def against(sut_vals, ref_vals, slack, what, two_sided=False):
    """Means of independent runs: the code must not be worse than the reference beyond chance."""
    K, R = len(sut_vals), len(ref_vals)
    m, r = np.mean(sut_vals), np.mean(ref_vals)
    sd = max(np.std(ref_vals, ddof=1), 0.7 * np.std(sut_vals, ddof=1) if K > 2 else 0)
    bound = 8 * sd * np.sqrt(1 / K + 1 / R) + slack
    need(m - r <= bound, "%s: %.4f (mean of %d runs), reference %.4f +- %.4f, allowed up to %.4f", what, m, K, r, sd,
         r + bound)
    if two_sided:
        need(r - m <= bound, "%s: %.4f (mean of %d runs), reference %.4f +- %.4f, allowed down to %.4f", what, m, K, r, sd,
             r - bound)


def check_quality(c, env, rec):
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    env.fft(c["tf"])
    E, T = build_scene(c, env)
    errs, holos = [], []
    target = (c["k"] * T).astype(env.real)  # only the shape of the target matters
    with sut("calculate_hologram"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        for k in range(5):
            beam = G.offer(env, E.astype(env.cplx), c["how"])
            if c["dflt"]:
                slm.calculate_hologram(beam, target, N=c["N"])
            else:
                slm.calculate_hologram(beam, G.offer(env, target, c["how"]), method="gs", N=c["N"])
            holos.append(good_state(env, slm.slm_state, d))
            sim.propagate_to_image(beam)
            errs.append(O.amplitude_error(T, sim.image_plane_field.astype(complex)))
    ref = [O.amplitude_error(T, O.gs_reference(E, T, c["N"], 1000 * c["seed"] + k)) for k in range(16)]
    against(errs, ref, 0.01, "amplitude error after %d iterations" % c["N"])
    rec.nt(np.mean(ref) < 0.5 and np.ptp(np.angle(E)) > 0.2)
    rec.label("N %d" % c["N"], "tf" if c["tf"] else "numpy")


def check_progress(c, env, rec):
    """More iterations do not make the image worse; the default number is enough to beat a few."""
    d = c["d"]
    env.fft(c["tf"])
    E, T = build_scene(c, env)
    out = {}
    with sut("calculate_hologram"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        for N in (1, 40, None):
            kw = {} if N is None else {"N": N}
            v = []
            for k in range(4):
                slm.calculate_hologram(E.astype(env.cplx), T.astype(env.real), method="gs", **kw)
                good_state(env, slm.slm_state, d)
                sim.propagate_to_image(E.astype(env.cplx))
                v.append(O.amplitude_error(T, sim.image_plane_field.astype(complex)))
            out[N] = float(np.mean(v))
    ref = np.mean([O.amplitude_error(T, O.gs_reference(E, T, 200, 77 + k)) for k in range(6)])
    need(out[40] <= out[1] + 0.02, "error %.4f after 40 iterations, %.4f after one", out[40], out[1])
    need(out[None] <= out[40] + 0.06, "error %.4f with the default iterations, %.4f after 40", out[None], out[40])
    need(out[None] <= 1.5 * ref + 0.06, "error %.4f with the default iterations, the reference reaches %.4f", out[None], ref)
    rec.nt(out[40] < 0.8 * out[1])


def dyn_case():
    return st.fixed_dictionaries({
        "d": G.optics(st.integers(12, 28)), "seed": G.seeds, "n": st.integers(2, 4), "dyn": G.fl(0.2, 1.7), "N": st.sampled_from([15, 30, 60]),
        "tf": st.booleans(), "phase": G.fl(0.0, 3.0), "k": G.logf(1e-3, 1e3)})


def check_dyn(c, env, rec):
    """Bright spots next to a weak one: the weak one gets its share."""
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    env.fft(c["tf"])
    g = np.random.default_rng(c["seed"])
    T = np.zeros((Ny, Nx))
    at = g.permutation(Nx * Ny)[:c["n"]]
    T.ravel()[at] = g.uniform(0.7, 1.0, c["n"])
    T.ravel()[at[0]] = 10.0 ** -c["dyn"]
    T = env.r(T)
    jj, ii = np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny)
    E = env.c((0.4 + np.exp(-((ii - 0.5) ** 2 + (jj - 0.4) ** 2) / 0.2)) * np.exp(1j * c["phase"] * np.sin(4 * ii + 3 * jj)))

    def share(f):
        return float(np.abs(f.ravel()[at[0]]) / np.sqrt((np.abs(f) ** 2).sum()))

    v = []
    with sut("calculate_hologram"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
        for k in range(5):
            slm.calculate_hologram(E.astype(env.cplx), (c["k"] * T).astype(env.real), method="gs", N=c["N"])
            good_state(env, slm.slm_state, d)
            sim.propagate_to_image(E.astype(env.cplx))
            v.append(share(sim.image_plane_field.astype(complex)))
    ref = [share(O.gs_reference(E, T, c["N"], 1000 * c["seed"] + k)) for k in range(16)]
    against(v, ref, 0.1 * np.mean(ref) + 2e-3, "amplitude of the weak spot (1 : %.3f)" % 10.0 ** c["dyn"], two_sided=True)
    rec.nt(c["dyn"] > 0.7)
    rec.label("below a tenth" if c["dyn"] > 1 else "")


def bad_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(2, 8)), "seed": G.seeds,
                                  "name": st.one_of(st.sampled_from(["random", "ideal", "simple", "ifta", "GS", ""]),
                                                    st.text("gsmrafGS _", max_size=6))})


def check_bad(c, env, rec):
    if c["name"] in ("gs", "mraf"):
        return
    d = c["d"]
    with sut("construct"):
        slm = G.mk_lcos(env, d)
        same(slm.slm_state, np.zeros((d["Ny"], d["Nx"])), "initial hologram")
    s = np.random.default_rng(c["seed"]).random((d["Ny"], d["Nx"]))
    slm.slm_state = s.copy()
    must_raise("method %r" % c["name"],
               lambda: slm.calculate_hologram(1.0, np.ones((d["Ny"], d["Nx"])), method=c["name"]), ValueError)
    same(slm.slm_state, s, "hologram after a refused method")
    with sut("reset_slm_state"):
        slm.reset_slm_state()
    same(slm.slm_state, np.zeros((d["Ny"], d["Nx"])), "hologram after a reset")
    # a reset is independent of what the caller did with the previous state
    a = slm.slm_state
    a[...] = 3
    slm.reset_slm_state()
    same(slm.slm_state, np.zeros((d["Ny"], d["Nx"])), "hologram after a second reset")
    rec.nt(d["Nx"] != d["Ny"])


SUBS = [
    Sub("spot", spot_case, check_spot, 400, "single bright pixel through gs, and mraf with full mixing; non-trivial = off "
        "axis and a beam with phase"),
    Sub("quality", scene, check_quality, 240, "asymmetric targets, amplitude error of 5 runs against 16 reference runs; "
        "non-trivial = the reference converges and the beam has phase"),
    Sub("progress", scene, check_progress, 48, "1, 40 and default iterations; non-trivial = 20 % progress"),
    Sub("dynamic", dyn_case, check_dyn, 96, "two to four spots, one of them weak, its amplitude in 5 runs against 16 reference runs; "
        "non-trivial = weaker than a fifth"),
    Sub("refused", bad_case, check_bad, 48, "unknown methods and resets; non-trivial = not square"),
]
