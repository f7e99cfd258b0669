"""C24 The FFT implementation can be chosen and changed at any time without changing any result."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, same, sut
from checks import c11


def op():
    k = st.integers(0, 1)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("switch"), "tf": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("propagate"), "k": k, "beam": G.field()}),
        st.fixed_dictionaries({"op": st.just("propagate"), "k": k, "beam": G.field()}),
        st.fixed_dictionaries({"op": st.just("hologram"), "k": k, "beam": G.field(True), "w": G.fl(0.08, 0.4),
                               "x": G.fl(-0.2, 0.2), "dpy": st.just(0)}))


def case():
    return st.fixed_dictionaries({"slms": st.lists(G.dmd_case(G.size(3, 14)), min_size=2, max_size=2),
                                  "pad": st.lists(st.integers(0, 3), min_size=4, max_size=4), "start": st.booleans(),
                                  "same": st.booleans(), "ops": st.lists(op(), min_size=3, max_size=9)})


def check(c, env, rec):
    b = env.p.BACKEND
    env.fft(c["start"])
    cur, used = c["start"], set()
    ds = [c["slms"][0], c["slms"][0] if c["same"] else c["slms"][1]]
    with sut("construct"):
        dmds = [G.mk_dmd(env, d) for d in ds]
        sims = [env.p.DMDSimulation(m, padding_x=c["pad"][2 * k], padding_y=c["pad"][2 * k + 1]) for k, m in enumerate(dmds)]
        for m in dmds:
            m.set_dmd_state_on()
    flips = 0
    for n, o in enumerate(c["ops"]):
        what = "operation %d with the %s FFT" % (n, "TensorFlow" if cur else "numpy")
        if o["op"] == "switch":
            with sut("switching"):
                b.fft_backend = b.FFT_BACKEND_TENSORFLOW if o["tf"] else b.FFT_BACKEND_NUMPY
                got = int(b.fft_backend)
            need(got == (b.FFT_BACKEND_TENSORFLOW if o["tf"] else b.FFT_BACKEND_NUMPY), "the FFT choice reads back %s", got)
            flips += o["tf"] != cur and bool(used)
            cur = o["tf"]
            continue
        k = o["k"]
        d, dmd = ds[k], dmds[k]
        Nx, Ny, pix, sf = d["Nx"], d["Ny"], d["pix"], d["wl"] * d["f"]
        E = env.c(G.build_field(o["beam"], Ny, Nx))
        used.add(cur)
        if o["op"] == "propagate":
            s = np.array(dmd.dmd_state, float)
            with sut(what):
                sims[k].propagate_to_image(E.astype(env.cplx))
                img = sims[k].image_plane_field
            need(img.dtype == env.cplx, "%s: image field has type %s", what, img.dtype)
            F = O.pad(E * s, c["pad"][2 * k], c["pad"][2 * k + 1])
            close(img, O.propagate(F, pix, sf), 60 * env.eps * np.abs(E * s).sum() * pix ** 2 / sf + 1e-37,
                  what + ": image field")
        else:
            X, Y = O.image_grid(Nx, Ny, pix, sf)
            LI = sf / pix
            T = env.c(np.exp(-((X / LI - o["x"]) ** 2 + (Y / LI) ** 2) / o["w"] ** 2))
            with sut(what):
                eta = dmd.calculate_dmd_state(E.astype(env.cplx), T.astype(env.cplx), method="ideal")
                g = np.array(dmd.dmd_state, float)
            F = O.back_propagate(T, pix, sf)
            amp = np.abs(F) / np.abs(E)
            noise = 200 * env.eps * np.abs(T).sum() / (pix ** 2 * T.size) * sf
            tol = noise / np.abs(E).min() / amp.max() + 200 * env.eps * (1 + Nx + Ny)
            close(eta, 1 / amp.max(), tol / amp.max(), what + ": efficiency")
            if Nx % 2 == 0 and Ny % 2 == 0:
                x, y = O.fourier_grid(Nx, Ny, pix)
                exp = O.lee(amp / amp.max(), np.angle(E), np.angle(F), x, y, d["period"] * pix, d["theta"], d["neg"])
                close(g, exp, 20 * tol, what + ": hologram")
    rec.nt(flips > 0)
    rec.label("same device twice" if c["same"] else "two devices", "both FFTs used" if len(used) == 2 else "")


def ifta_case():
    return st.fixed_dictionaries({"s": c11.case(12, 24)})


def check_ifta(c, env, rec):
    """The iterative methods give the same mirrors either way (double precision)."""
    s = c["s"]
    d = s["d"]
    E, T, W, geo = c11.scene(s, env)
    N = min(s["N"] or 30, 30)
    out = []
    for use in (False, True, False):
        env.fft(use)
        with sut("ifta, %s FFT" % use):
            dmd = G.mk_dmd(env, d)
            eta = dmd.calculate_dmd_state(E.astype(env.cplx), T.astype(env.cplx), method="ifta",
                                          signal_window=W.astype(env.real), N=N)
            out.append((np.array(dmd.dmd_state), eta))
    same(out[0][0], out[2][0], "mirrors when going back to the numpy FFT")
    close(out[1][1], out[0][1], 1e3 * env.eps * out[0][1], "efficiency with the other FFT")
    off = int((out[0][0] != out[1][0]).sum())
    need(off <= 3 + 0.1 * out[0][0].sum(), "%d of %d mirrors differ between the two FFTs after %d iterations", off, out[0][0].size, N)
    rec.nt(0 < out[0][0].sum() < out[0][0].size)
    rec.label("identical" if not off else "a few mirrors differ")


def gs_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(4, 12)), "beam": G.field(True), "i": G.seeds, "j": G.seeds,
                                  "order": st.lists(st.booleans(), min_size=2, max_size=4), "N": st.integers(1, 5)})


def check_gs(c, env, rec):
    """A phase hologram for a single spot is exact, so it can be compared across implementations."""
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    T = np.zeros((Ny, Nx))
    T[c["i"] % Ny, c["j"] % Nx] = 1.0
    pw = []
    with sut("construct"):
        slm = G.mk_lcos(env, d)
        sim = env.p.SLMSimulation(slm)
    for use in c["order"]:
        env.fft(use)
        with sut("gs, %s FFT" % use):
            slm.calculate_hologram(E.astype(env.cplx), T.astype(env.real), method="gs", N=c["N"])
            sim.propagate_to_image(E.astype(env.cplx))
            img = np.abs(sim.image_plane_field.astype(complex))
        top = np.abs(E).sum() * d["pix"] ** 2 / (d["wl"] * d["f"])
        close(img[c["i"] % Ny, c["j"] % Nx], top, 300 * env.eps * top, "spot amplitude with the %s FFT" % use)
        pw.append(use)
    rec.nt(len(set(pw)) == 2)


SUBS = [
    Sub("history", case, check, 480, "histories of propagations and holograms with the FFT switched in between; non-trivial = "
        "switched after use"),
    Sub("ifta", ifta_case, check_ifta, 48, "IFTA with both FFTs; non-trivial = mirrors on and off", dtypes=("float64",)),
    Sub("gs", gs_case, check_gs, 80, "single spot phase holograms with both FFTs; non-trivial = both used"),
]
