"""C37 Omitted, positional and keyword arguments mean what the signatures say."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vlib import fakes as F, gens as G
from vlib.core import Sub, need, same, sut

U = G.fl(-1.5, 1.5)
W = G.fl(0.4, 3.0)
BOOL = st.booleans()
REQ = object()

# constructors of profiles: (name, default or REQ, values)
PROFILES = {
    "HermiteGaussian": [("x0", REQ, U), ("y0", REQ, U), ("a", REQ, U), ("w", REQ, W), ("n", 0, st.integers(0, 4)), ("m", 0, st.integers(0, 4))],
    "LaguerreGaussian": [("x0", REQ, U), ("y0", REQ, U), ("a", REQ, U), ("w", REQ, W), ("l", 0, st.integers(-3, 3)), ("p", 0, st.integers(0, 3))],
    "SuperGaussian": [("x0", REQ, U), ("y0", REQ, U), ("a", REQ, U), ("w", REQ, W), ("p", 1.0, G.fl(0.5, 4.0))],
    "Zernike": [("a", REQ, U), ("radius", REQ, W), ("n", 0, st.sampled_from([4, 6, 2])), ("m", 0, st.sampled_from([2, -2, 0])),
                ("normalize", True, BOOL), ("extrapolate", False, BOOL)],
    "ConstantProfile": [("c", 0.0, U)],
    "RectangularWindowRectangle": [("x0", REQ, U), ("y0", REQ, U), ("wx", REQ, W), ("wy", REQ, W)],
    "RectangularWindowCircular": [("x0", REQ, U), ("y0", REQ, U), ("r", REQ, W)]}


def form():
    """positional: how many arguments come by position; omit: leave arguments out that have their default; order of keywords."""
    return st.fixed_dictionaries({"pos": st.integers(0, 9), "omit": st.integers(0, 1023), "seed": G.seeds})


def args(table):
    return st.fixed_dictionaries({n: v if d is REQ else st.one_of(st.just(d), v) for n, d, v in table})


def spread(table, vals, f, optional=()):
    """The call as (positional, keywords)."""
    pos, kw, open_ = [], {}, True
    for k, (n, d, _) in enumerate(table):
        leave = d is not REQ and (vals[n] is d or vals[n] == d and type(vals[n]) is type(d)) and f["omit"] >> k & 1
        if leave:
            open_ = False
        elif open_ and k < f["pos"]:
            pos.append(vals[n])
        else:
            open_ = False
            kw[n] = vals[n]
    names = list(kw)
    np.random.default_rng(f["seed"]).shuffle(names)
    return pos, {n: kw[n] for n in names}


EXPLICIT = {"pos": 0, "omit": 0, "seed": 0}


def both(table, vals, f, fn):
    """The result of the call with every argument named, and of the call in the given form."""
    out = []
    for q in (EXPLICIT, f):
        p, k = spread(table, vals, q)
        with sut("call with %d positional arguments and %s" % (len(p), sorted(k))):
            out.append(fn(*p, **k))
    return out


def differs(table, vals, f):
    p, k = spread(table, vals, f)
    return len(p) > 0 or len(k) < len(table)


def profile_case():
    return st.sampled_from(sorted(PROFILES)).flatmap(lambda n: st.fixed_dictionaries(
        {"cls": st.just(n), "vals": args(PROFILES[n]), "form": form(), "seed": G.seeds, "change": BOOL}))


def check_profile(c, env, rec):
    v = dict(c["vals"])
    if c["cls"] == "Zernike" and v["n"] < abs(v["m"]):
        v["m"] = 0
    cls = getattr(env.p, c["cls"])
    table = PROFILES[c["cls"]]
    a, b = both(table, v, c["form"], cls)
    g = np.random.default_rng(c["seed"])
    x, y = (g.uniform(-2.5, 2.5, (5, 6)).astype(env.real) for _ in range(2))
    with sut("evaluate"):
        want = a(x, y)
        same(b(x, y), want, "%s called as %s" % (c["cls"], spread(table, v, c["form"])))
        same(b(y=y, x=x), want, "%s evaluated with keywords" % c["cls"])
        # and the transforms
        t, m = float(g.uniform(-3, 3)), float(g.uniform(0.5, 2))
        k, p, q = [("rotate", a.rotate(t), b.rotate(theta=t)), ("shift", a.shift(t, m), b.shift(dy=m, dx=t)),
                   ("rescale_x", a.rescale_x(m), b.rescale_x(m=m)), ("rescale_y", a.rescale_y(m), b.rescale_y(m=m))][c["seed"] % 4]
        same(q(x, y), p(x, y), "%s with keywords" % k)
        for n, d, _ in table:
            got = getattr(b, n, None)
            if got is not None and not isinstance(v[n], bool):
                need(float(got) == float(env.r(v[n])), "%s.%s reads %s, was made with %s", c["cls"], n, got, v[n])
    rec.nt(differs(table, v, c["form"]))
    rec.label(c["cls"])


DMD_ARGS = [("wavelength", REQ, G.logf(3e-7, 1.5e-6)), ("focal_length", REQ, G.logf(0.02, 1.0)), ("periodicity", REQ, G.fl(1.7, 9.0)),
            ("theta", REQ, G.angle), ("Nx", REQ, st.integers(3, 16)), ("Ny", REQ, st.integers(3, 16)),
            ("pixel_size", REQ, G.logf(4e-6, 2e-5)), ("negative_order", False, BOOL)]
SLM_ARGS = [DMD_ARGS[k] for k in (0, 1, 4, 5, 6)]
SIM_ARGS = [("padding_x", 0, st.integers(0, 4)), ("padding_y", 0, st.integers(0, 4))]
GRATING = [("amp", 1, G.fl(0.1, 1.0)), ("phase_in", 0, G.fl(-3, 3)), ("phase_out", 0, G.fl(-3, 3)), ("method", REQ, st.sampled_from(["ideal", "simple"]))]
PATCH = [("i", REQ, G.fl(0, 12)), ("j", REQ, G.fl(0, 12)), ("amp", REQ, G.fl(0.1, 1.0)), ("phase_in", REQ, G.fl(-3, 3)), ("phase_out", REQ, G.fl(-3, 3)),
         ("d", REQ, G.fl(2, 12)), ("method", REQ, st.sampled_from(["ideal", "simple"]))]
STATE = [("input_profile", REQ, st.just("E")), ("target_profile", REQ, st.just("T")), ("method", REQ, st.sampled_from(["ideal", "simple", "ifta"])),
         ("window", None, st.sampled_from(["W", None]))]
TENSOR = [("profile", REQ, st.sampled_from(["P", "A", "N"])), ("at_fourier_plane", True, BOOL), ("complex", False, BOOL)]


def device_case():
    return st.fixed_dictionaries({
        "dmd": args(DMD_ARGS), "dform": form(), "sim": args(SIM_ARGS), "sform": form(), "grating": args(GRATING), "gform": form(),
        "patch": args(PATCH), "pform": form(), "state": args(STATE), "stform": form(), "tensor": args(TENSOR), "tform": form(),
        "N": st.one_of(st.none(), st.none(), st.just(200), st.just(150)), "s": st.one_of(st.none(), st.none(), st.just(1.0), G.fl(0.7, 1.5)), "seed": G.seeds})


def check_device(c, env, rec):
    g = np.random.default_rng(c["seed"])
    v = c["dmd"]
    a, b = both(DMD_ARGS, v, c["dform"], env.p.DMD)
    need((b.Nx, b.Ny) == (v["Nx"], v["Ny"]), "chip of %s x %s", b.Nx, b.Ny)
    need((b.wavelength, b.focal_length, b.pixel_size) == (v["wavelength"], v["focal_length"], v["pixel_size"]), "optics")
    need(bool(b.negative_order) == v["negative_order"], "order")
    need(float(b.theta) == float(env.r(v["theta"])), "theta")
    for x, y in zip(a.first_order_origin, b.first_order_origin):
        need(float(x) == float(y), "first order origin")
    Ny, Nx = v["Ny"], v["Nx"]
    E = (1 + g.random((Ny, Nx)) + 0.4j * g.random((Ny, Nx))).astype(env.cplx)
    T = (g.normal(size=(Ny, Nx)) + 1j * g.normal(size=(Ny, Nx))).astype(env.cplx)
    Wd = (0.2 + g.random((Ny, Nx))).astype(env.cplx)
    sig = (g.random((Ny, Nx)) < 0.5).astype(env.real)
    # gratings and patches
    gv, pv = dict(c["grating"]), dict(c["patch"])
    for dev, f, pf in ((a, EXPLICIT, EXPLICIT), (b, c["gform"], c["pform"])):
        p, k = spread(GRATING, gv, f)
        with sut("set_dmd_grating_state"):
            dev.set_dmd_grating_state(*p, **k)
    same(b.dmd_state, a.dmd_state, "grating asked for as %s" % (spread(GRATING, gv, c["gform"]),))
    for dev, f in ((a, EXPLICIT), (b, c["pform"])):
        p, k = spread(PATCH, pv, f)
        with sut("circular_patch"):
            dev.circular_patch(*p, **k)
    same(b.dmd_state, a.dmd_state, "patch asked for as %s" % (spread(PATCH, pv, c["pform"]),))
    # holograms
    sv = dict(c["state"])
    sv.update(input_profile=E, target_profile=T, window=Wd if sv["window"] == "W" else None)
    eta = []
    for dev, f, full in ((a, EXPLICIT, True), (b, c["stform"], False)):
        p, k = [], {}
        open_ = True
        for q, (n, d, _) in enumerate(STATE):
            if d is None and sv[n] is None and f["omit"] >> q & 1:
                open_ = False
            elif open_ and q < f["pos"]:
                p.append(sv[n])
            else:
                open_ = False
                k[n] = sv[n]
        if sv["method"] == "ifta":
            k["signal_window"] = sig
            if full or c["N"] is not None:
                k["N"] = 200 if c["N"] is None else c["N"]
            if full or c["s"] is not None:
                k["s"] = 1.0 if c["s"] is None else c["s"]
        with sut("calculate_dmd_state"):
            eta.append(float(dev.calculate_dmd_state(*p, **k)))
    need(eta[0] == eta[1], "efficiency %s, with every argument named %s", eta[1], eta[0])
    same(b.dmd_state, a.dmd_state, "hologram (%s)" % sv["method"])
    # simulations
    for cls in (env.p.DMDSimulation, env.p.SLMSimulation):
        n = "dmd" if cls is env.p.DMDSimulation else "slm"
        table = [(n, REQ, None)] + SIM_ARGS
        p, k = spread(table, {n: b, **c["sim"]}, c["sform"])
        with sut(cls.__name__):
            one, two = cls(**{n: b}, padding_x=c["sim"]["padding_x"], padding_y=c["sim"]["padding_y"]), cls(*p, **k)
            need((two.padding_x, two.padding_y) == (c["sim"]["padding_x"], c["sim"]["padding_y"]), "padding %s x %s", two.padding_x, two.padding_y)
            one.propagate_to_image(input_profile=E)
            two.propagate_to_image(E)
            same(two.image_plane_field, one.image_plane_field, "%s called as %s" % (cls.__name__, sorted(k)))
            if n == "dmd":
                r = float(g.uniform(0.1, 2)) * v["wavelength"] * v["focal_length"] / v["pixel_size"] / v["Nx"]
                half = v["wavelength"] * v["focal_length"] / v["pixel_size"] / v["periodicity"] / 2
                one.block_zeroth_order(r=r)
                two.block_zeroth_order(r)
                same(two.image_plane_field, one.image_plane_field, "block of a radius")
                one.propagate_to_image(E)
                two.propagate_to_image(E)
                one.block_zeroth_order()
                two.block_zeroth_order(None)
                same(two.image_plane_field, one.image_plane_field, "block without radius")
                X, Y = two.image_plane_padded_grid
                R = np.hypot(X, Y)
                f = two.image_plane_field
                need(not f[R < half * (1 - 1e-4)].any(), "block without radius leaves light within half the first order")
    # sampling
    tv = dict(c["tensor"])
    pro = env.p.HermiteGaussian(0.0, 0.0, 1.2, 0.3 * v["Nx"] * v["pixel_size"])
    tv["profile"] = {"P": pro, "A": T if tv["complex"] else T.real, "N": 0.75}[tv["profile"]]
    out = []
    for f in (EXPLICIT, c["tform"]):
        p, k = [], {}
        open_ = True
        for q, (n, d, _) in enumerate(TENSOR):
            if d is not REQ and tv[n] == d and f["omit"] >> q & 1:
                open_ = False
            elif open_ and q < f["pos"]:
                p.append(tv[n])
            else:
                open_ = False
                k[n] = tv[n]
        with sut("profile_to_tensor"):
            out.append(b.profile_to_tensor(*p, **k))
    need(out[0].dtype == out[1].dtype, "sampled as %s, with every argument named %s", out[1].dtype, out[0].dtype)
    same(np.asarray(out[1]), np.asarray(out[0]), "sampling")
    rec.nt(any(differs(t, q, f) for t, q, f in ((DMD_ARGS, v, c["dform"]), (GRATING, gv, c["gform"]), (PATCH, pv, c["pform"]))))
    rec.label(sv["method"], "N omitted" if c["N"] is None and sv["method"] == "ifta" else "", "window omitted" if sv["window"] is None else "")


ANALYSIS = [("verbose", False, BOOL), ("reconstruct", False, BOOL), ("extrapolate", False, BOOL)]
TRIVIAL = [("remove_defocus", False, BOOL), ("verbose", False, BOOL)]


def analysis_case():
    return st.fixed_dictionaries({"seed": G.seeds, "Nx": st.integers(8, 20), "Ny": st.integers(8, 20), "r": G.fl(3, 10), "terms": st.integers(1, 12),
                                  "dec": args(ANALYSIS), "dform": form(), "rem": args(TRIVIAL), "rform": form(), "i": st.integers(0, 9999),
                                  "invert": BOOL, "lcos": args(SLM_ARGS), "lform": form()})


def check_analysis(c, env, rec):
    p = env.p
    m = np.random.default_rng(c["seed"]).normal(size=(c["Ny"], c["Nx"]))
    table = [("profile", REQ, None), ("radius", REQ, None), ("num_terms", REQ, None)] + ANALYSIS
    vals = {"profile": m, "radius": c["r"], "num_terms": c["terms"], **c["dec"]}

    def quiet(fn):
        def call(*a, **k):
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                return fn(*a, **k), s.getvalue() != ""
        return call
    (a, pa), (b, pb) = both(table, vals, c["dform"], quiet(p.zernike_decomposition))
    need(pa == pb == c["dec"]["verbose"], "printing is %s although verbose is %s", pb, c["dec"]["verbose"])
    need(isinstance(a, tuple) == isinstance(b, tuple) == c["dec"]["reconstruct"], "a reconstruction %s returned although reconstruct is %s",
         "is" if isinstance(b, tuple) else "is not", c["dec"]["reconstruct"])
    for x, y in zip(*((q if isinstance(q, tuple) else (q,)) for q in (a, b))):
        same(np.asarray(y), np.asarray(x), "zernike_decomposition as %s" % (sorted(spread(table, vals, c["dform"])[1]),))
    table = [("profile", REQ, None), ("radius", REQ, None)] + TRIVIAL
    vals = {"profile": m, "radius": c["r"], **c["rem"]}
    (a, pa), (b, pb) = both(table, vals, c["rform"], quiet(p.remove_trivial_phase))
    need(pa == pb == c["rem"]["verbose"], "printing is %s although verbose is %s", pb, c["rem"]["verbose"])
    same(b, a, "remove_trivial_phase as %s" % (sorted(spread(table, vals, c["rform"])[1]),))
    # base modulators
    for cls in (p.SLM, p.LCOS_SLM):
        x, y = both(SLM_ARGS, c["lcos"], c["lform"], cls)
        need((y.wavelength, y.focal_length, y.Nx, y.Ny, y.pixel_size) == tuple(c["lcos"][n] for n, _, _ in SLM_ARGS), "%s: parameters", cls.__name__)
        for n in ("fourier_plane_grid", "image_plane_grid"):
            for q, w in zip(getattr(x, n), getattr(y, n)):
                same(w, q, n)
    # number images and controllers
    u = F.control()
    with sut("number_image"):
        same(u.number_image(i=c["i"], Ny=c["Ny"] + 8, Nx=60), u.number_image(c["i"], 60, c["Ny"] + 8), "number image")
    with sut("controllers"):
        for k in ({}, {"invert": False}, {"invert": c["invert"]}):
            dev = F.ALP_PLUG.device = F.ALPDevice(6, 5)
            ctl = u.ALPController(**k)
            ctl.initialize()
            img = np.random.default_rng(c["seed"]).random((5, 6)) < 0.5
            ctl.load_single(dmd_state=img)
            same(dev.frames()[0], (img ^ k.get("invert", False)).astype(int), "Vialux mirrors with %s" % k)
            ctl.load_multiple(dmd_states=[img, ~img])
            same(dev.frames()[1], (~img ^ k.get("invert", False)).astype(int), "Vialux mirrors with %s" % k)
            lux = F.LUX_PLUG.device = F.LuxDevice(6, 5)
            ctl = u.LuxbeamController("10.0.0.3", **k)
            ctl.initialize()
            ctl.load_single(dmd_state=img)
            same(lux.display(), img ^ k.get("invert", False), "Visitech mirrors with %s" % k)
            need(lux.timeout is None and lux.ip == "10.0.0.3", "connection to %s, timeout %s", lux.ip, lux.timeout)
        ctl = u.LuxbeamController("10.0.0.4", True, 2.5)
        need(lux.ip == "10.0.0.4" and lux.timeout == 2.5 and lux.inverse, "connection with positional arguments")
        ctl = u.LuxbeamController(timeout=1.5, ip="10.0.0.5")
        need(lux.ip == "10.0.0.5" and lux.timeout == 1.5 and not lux.inverse, "connection with keywords")
    rec.nt(c["dform"]["pos"] > 2 or c["dform"]["omit"] & 56 > 0)
    rec.label("reconstruct" if c["dec"]["reconstruct"] else "", "defocus" if c["rem"]["remove_defocus"] else "")


def method_case():
    return st.fixed_dictionaries({"d": G.dmd_case(st.integers(24, 40)), "amp": G.fl(0.4, 0.9), "how": st.sampled_from(["grating", "patch", "target"]),
                                  "seed": G.seeds})


def check_method(c, env, rec):
    """Without a method the hologram is a random one with steepness 10."""
    from checks.c10 import probability, zneed
    from vlib import oracle as O
    d = {**c["d"], "period": 3.0 + c["d"]["period"] % 5}
    x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
    gr = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    P = probability(env.r(c["amp"]), 0.0, 0.0, gr, d["neg"], 10.0)
    where = np.ones(P.shape, bool)
    draws = []
    with sut("holograms without a method"):
        dmd = G.mk_dmd(env, d)
        for _ in range(6):
            if c["how"] == "grating":
                dmd.set_dmd_grating_state(amp=c["amp"])
            elif c["how"] == "patch":
                dmd.set_dmd_state_off()
                dmd.circular_patch(d["Ny"] / 2, d["Nx"] / 2, c["amp"], 0, 0, 4.0 * max(d["Nx"], d["Ny"]))
            else:
                # a point in the middle of the image makes a uniform first order: every amplitude is 1
                T = np.zeros((d["Ny"], d["Nx"]), env.cplx)
                T[d["Ny"] // 2, d["Nx"] // 2] = 1
                dmd.calculate_dmd_state(1.0, T)
                P = probability(1.0, 0.0, 0.0, gr, d["neg"], 10.0)
            draws.append(np.array(dmd.dmd_state))
    D = np.array(draws)
    need(D.dtype == bool, "a hologram without a method is %s", D.dtype)
    zneed(float(D[:, where].sum()), 6 * P.sum(), 6 * (P * (1 - P)).sum(), 0.002 * D.size, "mirrors on, without a method")
    V = (P * (1 - P)).sum()
    if V > 60:
        need(any((D[0] != q).any() for q in D[1:]), "holograms without a method are not random")
    rec.nt(V > 30)
    rec.label(c["how"])


SUBS = [
    Sub("profile", profile_case, check_profile, 120, "constructors and transforms of all profiles; non-trivial = an argument by position or "
        "omitted"),
    Sub("device", device_case, check_device, 56, "modulators, gratings, patches, holograms, simulations, sampling; non-trivial = an argument by "
        "position or omitted"),
    Sub("analysis", analysis_case, check_analysis, 56, "analysis, base modulators, number images, controllers; non-trivial = options by position or "
        "omitted", shards=2),
    Sub("method", method_case, check_method, 40, "holograms without a method; non-trivial = randomness visible"),
]
