"""C36 A named device is the generic modulator with the data sheet's mirrors."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib.core import Sub, close, need, same, sut

DMDS = ["DLP7000", "DLP9500", "DLP9000"]


def case():
    dev = st.fixed_dictionaries({"dev": st.sampled_from(DMDS), "period": G.fl(2.0, 20.0), "theta": G.angle, "neg": st.booleans(),
                                 "form": st.sampled_from(["positional", "keyword", "omitted", "late"]), "wl": G.logf(3e-7, 1.5e-6),
                                 "f": G.logf(0.02, 1.0)})
    return st.fixed_dictionaries({"a": dev, "b": st.one_of(st.none(), dev, dev),
                                  "share": st.one_of(st.just([]), st.lists(st.sampled_from(["dev", "wl", "f", "period", "theta", "neg"]), min_size=1, max_size=5, unique=True).map(lambda q: sorted(set(q) | {"dev"}))), "seed": G.seeds,
                                  "do": st.lists(st.sampled_from(["grids", "target", "grating", "patch", "pack", "propagate", "origin"]),
                                                 min_size=1, max_size=3, unique=True)})


def make(env, d):
    cls = getattr(env.p, d["dev"])
    a = (d["wl"], d["f"], d["period"], d["theta"])
    if d["form"] == "positional":
        o = cls(*a, d["neg"])
    elif d["form"] == "keyword":
        o = cls(negative_order=d["neg"], theta=a[3], periodicity=a[2], focal_length=a[1], wavelength=a[0])
    else:
        o = cls(*a)
        if d["form"] == "late":
            o.negative_order = d["neg"]
    neg = d["neg"] and d["form"] != "omitted"
    Nx, Ny, pix = G.DEVICES[d["dev"]]
    need(isinstance(o, env.p.DMD), "%s is not a DMD", d["dev"])
    need((o.Nx, o.Ny) == (Nx, Ny), "%s has %d x %d mirrors, expected %d x %d", d["dev"], o.Nx, o.Ny, Nx, Ny)
    need(abs(o.pixel_size / pix - 1) < 1e-12, "%s has mirrors of %s", d["dev"], o.pixel_size)
    g = env.p.DMD(*a, Nx, Ny, o.pixel_size, negative_order=neg)
    return o, g


def check(c, env, rec):
    with sut("making the devices"):
        b = None if c["b"] is None else {**c["b"], **{k: c["a"][k] for k in c["share"]}}  # often twins that differ in little
        pairs = [(d, *make(env, d)) for d in (c["a"], b) if d is not None]
    tol = 8 * env.eps
    for q in c["do"]:
        for d, o, g in pairs:
            what = "%s, %s" % (d["dev"], q)
            rng = np.random.default_rng(c["seed"])
            Ny, Nx = o.Ny, o.Nx
            with sut(what):
                if q == "grids":
                    for n in ("fourier_plane_grid", "image_plane_grid"):
                        for a, b in zip(getattr(o, n), getattr(g, n)):
                            close(a, b, tol * np.abs(b).max(), what + ": " + n)
                    need(o.scaling_factor == g.scaling_factor, "%s: scaling factor", what)
                    need((o.wavelength, o.focal_length) == (d["wl"], d["f"]), "%s: optics", what)
                elif q == "origin":
                    close(o.first_order_origin, g.first_order_origin, tol * (abs(g.first_order_origin[0]) + abs(g.first_order_origin[1])), what)
                    need(float(o.theta) == float(g.theta) == float(env.r(d["theta"])), "%s: theta", what)
                    need(o.negative_order == g.negative_order, "%s: the order", what)
                elif q in ("target", "propagate"):
                    X, Y = g.image_plane_grid
                    w = 6 * abs(X[0, 1] - X[0, 0])
                    cx, cy = rng.uniform(-2, 2, 2) * w
                    T = (np.exp(-((X - cx) ** 2 + (Y - cy) ** 2) / w ** 2)).astype(env.cplx)
                    x, y = g.fourier_plane_grid
                    E = (1 + 0.5 * np.cos(x / np.abs(x).max() * 3 + 1) + 1j * 0.3 * y / np.abs(y).max()).astype(env.cplx)
                    eta = [s.calculate_dmd_state(E, T, method="ideal") for s in (o, g)]
                    close(eta[0], eta[1], 64 * env.eps * eta[1], what + ": efficiency")
                    # the carrier has hundreds of periods over the chip
                    close(o.dmd_state, g.dmd_state, 1e-5 if env.is64 else 5e-2, what + ": hologram")
                    need(np.mean(np.abs(o.dmd_state - g.dmd_state) > (1e-7 if env.is64 else 1e-3)) < 1e-3, "%s: hologram", what)
                    if q == "propagate":
                        sims = [env.p.DMDSimulation(s) for s in (o, g)]
                        for s in sims:
                            s.propagate_to_image(E)
                        b = sims[1].image_plane_field
                        close(sims[0].image_plane_field, b, (1e-8 if env.is64 else 1e-3) * np.abs(b).max(), what + ": field")
                elif q == "grating":
                    for s in (o, g):
                        s.set_dmd_grating_state(amp=0.8, phase_in=0.3, phase_out=1.5, method="ideal")
                    close(o.dmd_state, g.dmd_state, 1e-5 if env.is64 else 5e-2, what)
                elif q == "patch":
                    i, j, dia = rng.uniform(0, Ny), rng.uniform(0, Nx), rng.uniform(20, 400)
                    for s in (o, g):
                        s.set_dmd_state_off()
                        s.circular_patch(i, j, 1.0, 0.2, 1.0, dia, method="ideal")
                    close(o.dmd_state, g.dmd_state, 1e-5 if env.is64 else 5e-2, what)
                else:
                    for s in (o, g):
                        s.dmd_state = np.random.default_rng(c["seed"]).random((Ny, Nx)) < 0.4
                    same(np.frombuffer(bytes(o.pack_dmd_state()), np.uint8), np.frombuffer(bytes(g.pack_dmd_state()), np.uint8), what)
    # nothing done to one reached the other
    for d, o, g in pairs:
        with sut("%s at last" % d["dev"]):
            need((o.Nx, o.Ny) == G.DEVICES[d["dev"]][:2], "%s changed its size", d["dev"])
            o.set_dmd_state_on()
            same(o.dmd_state, np.ones((o.Ny, o.Nx), bool), d["dev"])
    rec.nt(len(c["do"]) > 1 or c["do"][0] not in ("origin", "grids"))
    rec.label(*[d["dev"] for d, _, _ in pairs], *c["do"])


def twin_case():
    return st.fixed_dictionaries({"dev": st.sampled_from(DMDS + ["PLUTO_2"]), "wl": G.logf(3e-7, 1.5e-6), "f": G.logf(0.02, 1.0), "period": G.fl(2.0, 20.0),
                                  "theta": G.angle, "factor": st.sampled_from([0.5, 2.0, 1.25]), "other": st.sampled_from(["wl", "f", "period"]),
                                  "grid": st.sampled_from(["image", "image", "padded", "fourier"])})


def check_twin(c, env, rec):
    """Two devices of one model that differ in one parameter."""
    Nx, Ny, pix = G.DEVICES[c["dev"]]
    p = {k: c[k] for k in ("wl", "f", "period", "theta")}
    ps = [p, {**p, c["other"]: p[c["other"]] * c["factor"]}]
    with sut("twins"):
        lcos = c["dev"] == "PLUTO_2"
        o = [getattr(env.p, c["dev"])(*([q["wl"], q["f"]] if lcos else [q["wl"], q["f"], q["period"], q["theta"]])) for q in ps]
        grids = []
        for s in o:
            if c["grid"] == "padded":
                grids.append(env.p.SLMSimulation(s, 1, 2).image_plane_padded_grid)
            else:
                grids.append(getattr(s, c["grid"] + "_plane_grid"))
    for k, (q, (X, Y), s) in enumerate(zip(ps, grids, o)):
        sf, a, b = q["wl"] * q["f"], (1 if c["grid"] == "padded" else 0), (2 if c["grid"] == "padded" else 0)
        if c["grid"] == "fourier":
            want = ((0 - Nx / 2) * pix, Ny / 2 * pix)
        else:
            want = (-((Nx + 2 * a) // 2) * sf / ((Nx + 2 * a) * pix), ((Ny + 2 * b) // 2) * sf / ((Ny + 2 * b) * pix))
        need(X.shape == (Ny + 2 * b, Nx + 2 * a), "twin %d: grid of shape %s", k, X.shape)
        close([X[0, 0], Y[0, 0]], want, 16 * env.eps * max(np.abs(want)), "twin %d: first point of the %s grid" % (k, c["grid"]))
        if not lcos:
            r = sf / (q["period"] * pix)
            x, y = s.first_order_origin
            close([float(x), float(y)], [r * np.cos(env.r(q["theta"])), r * np.sin(env.r(q["theta"]))], 16 * env.eps * (1 + abs(q["theta"])) * r, "twin %d: first_order_origin" % k)
    rec.nt(True)
    rec.label(c["dev"], c["other"], c["grid"])


def lcos_case():
    return st.fixed_dictionaries({"wl": G.logf(3e-7, 1.5e-6), "f": G.logf(0.02, 1.0), "kw": st.booleans(), "seed": G.seeds, "lens": G.fl(-9, 9), "twin": st.sampled_from(["wl", "f"]),
                                  "hologram": st.booleans()})


def check_lcos(c, env, rec):
    with sut("PLUTO_2"):
        o = env.p.PLUTO_2(focal_length=c["f"], wavelength=c["wl"]) if c["kw"] else env.p.PLUTO_2(c["wl"], c["f"])
        need(isinstance(o, env.p.LCOS_SLM), "PLUTO_2 is not an LCOS SLM")
        need((o.Nx, o.Ny) == (1920, 1080) and abs(o.pixel_size / 8e-6 - 1) < 1e-12, "PLUTO_2: %s x %s of %s", o.Nx, o.Ny, o.pixel_size)
        g = env.p.LCOS_SLM(c["wl"], c["f"], 1920, 1080, o.pixel_size)
    with sut("another PLUTO_2"):
        k = {"wl": c["wl"], "f": c["f"]}
        k[c["twin"]] *= 1.7
        t = env.p.PLUTO_2(k["wl"], k["f"])
        for a in (t, o):
            X, _ = a.image_plane_grid
            want = a.wavelength * a.focal_length / (1920 * 8e-6)
            need(abs((X[0, 1] - X[0, 0]) / want - 1) < 1e-3, "PLUTO_2 side by side: image-plane spacing %g, expected %g", X[0, 1] - X[0, 0], want)
    with sut("using PLUTO_2"):
        for n in ("fourier_plane_grid", "image_plane_grid"):
            for a, b in zip(getattr(o, n), getattr(g, n)):
                close(a, b, 8 * env.eps * np.abs(b).max(), "PLUTO_2: " + n)
        x, y = g.fourier_plane_grid
        same(o.slm_state, np.zeros((1080, 1920)), "PLUTO_2: first state")
        state = c["lens"] * (x / np.abs(x).max()) ** 2 + np.random.default_rng(c["seed"]).random((1080, 1920))
        fields = []
        for s in (o, g):
            s.slm_state = state
            sim = env.p.SLMSimulation(s)
            sim.propagate_to_image(np.exp(-(x ** 2 + y ** 2) / (1e-3) ** 2))
            fields.append(sim.image_plane_field)
        close(fields[0], fields[1], 1e3 * env.eps * np.abs(fields[1]).max(), "PLUTO_2: image")
        if c["hologram"]:
            o.calculate_hologram(1.0, np.ones((1080, 1920)), N=1)
            need(o.slm_state.shape == (1080, 1920) and np.isfinite(o.slm_state).all(), "PLUTO_2: hologram")
        o.reset_slm_state()
        same(o.slm_state, np.zeros((1080, 1920)), "PLUTO_2 after reset")
        same(g.slm_state, state, "the other modulator")
    rec.nt()


SUBS = [
    Sub("dmd", case, check, 48, "one or two named devices beside generic ones, all full size; non-trivial = more than coordinates "
        "compared", thorough=6, shards=3),
    Sub("twins", twin_case, check_twin, 40, "two devices of one model that differ in one parameter; every case is non-trivial", thorough=6, shards=4),
    Sub("lcos", lcos_case, check_lcos, 8, "PLUTO_2 beside a generic LCOS SLM; every case is non-trivial", thorough=6, shards=1),
]
