"""C09 Lee hologram pixel law of greyscale and thresholded gratings."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, same, sut


def value(kind):
    """amp in [0, 1] or a phase, as number, array or profile."""
    amp = kind == "amp"
    v = G.fl(0.0, 1.0) if amp else G.seldom(G.fl(-7.0, 7.0), G.fl(-1e3, 1e3), 6)
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("num"), "v": v, "as": st.sampled_from(["float", "np", "int", "const"])}),
        st.fixed_dictionaries({"k": st.just("array"), "seed": G.seeds, "span": G.seldom(st.just(7.0), G.logf(10, 1e3), 6), "as": st.sampled_from(
            ["float32", "float64", "tensor", "list"])}),
        st.fixed_dictionaries({"k": st.just("gauss"), "x": G.fl(-0.3, 0.3), "y": G.fl(-0.3, 0.3), "w": G.fl(0.2, 2.0)}),
        st.fixed_dictionaries({"k": st.just("default")}))


def build(v, kind, env, d):
    amp = kind == "amp"
    Ny, Nx = d["Ny"], d["Nx"]
    if v["k"] == "default":
        return None, np.full((Ny, Nx), 1.0 if amp else 0.0)
    if v["k"] == "num":
        x = v["v"]
        if v["as"] == "int":
            x = int(round(x))
        a = np.full((Ny, Nx), env.r(x))
        o = {"float": x, "int": x, "np": np.float64(x), "const": env.p.ConstantProfile(float(x))}[v["as"]]
        return o, a
    if v["k"] == "array":
        g = np.random.default_rng(v["seed"])
        a = g.random((Ny, Nx)) if amp else g.uniform(-v["span"], v["span"], (Ny, Nx))
        a = a.astype(np.float32).astype(float)
        o = {"float32": a.astype(np.float32), "float64": a, "tensor": env.tf.constant(a), "list": a.tolist()}[v["as"]]
        return o, a
    L = min(Nx, Ny) * d["pix"]
    a0 = 1.0 if amp else 5.0
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    args = (v["x"] * L, v["y"] * L, a0, v["w"] * L)
    return env.p.HermiteGaussian(*args), O.hg(x, y, *args)


def case():
    return st.fixed_dictionaries({"d": G.dmd_case(G.size(2, 24)), "amp": value("amp"), "pin": value("phase"),
                                  "pout": value("phase"), "flip": st.booleans()})


def check(c, env, rec):
    d = c["d"]
    kw, ref = {}, {}
    with sut("arguments"):
        for name, arg in (("amp", "amp"), ("pin", "phase_in"), ("pout", "phase_out")):
            o, ref[name] = build(c[name], "amp" if name == "amp" else "phase", env, d)
            if o is not None:
                kw[arg] = o
    x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
    neg = d["neg"]
    with sut("set_dmd_grating_state"):
        dmd = G.mk_dmd(env, d)
        if c["flip"]:
            # the order may be chosen at any time before the grating is drawn
            dmd.negative_order = neg = not neg
        dmd.set_dmd_grating_state(method="ideal", **kw)
        grey = np.array(dmd.dmd_state)
        dmd.set_dmd_grating_state(method="simple", **kw)
        binary = np.array(dmd.dmd_state)
    exp = O.lee(ref["amp"], ref["pin"], ref["pout"], x, y, d["period"] * d["pix"], d["theta"], neg)
    g = np.abs(O.carrier(x, y, d["period"] * d["pix"], d["theta"]))
    tol = env.eps * (20 + 4 * g + 4 * np.abs(ref["pin"]) + 4 * np.abs(ref["pout"]))
    close(grey, exp, tol, "greyscale grating")
    need(grey.dtype == env.real, "greyscale grating has dtype %s", grey.dtype)
    need(binary.dtype == bool and binary.shape == grey.shape, "thresholded grating is %s %s", binary.dtype, binary.shape)
    same(binary, grey > 0.5, "thresholded grating against the greyscale one")
    sure = np.abs(exp - 0.5) > 2 * tol
    same(binary[sure], exp[sure] > 0.5, "thresholded grating")
    rec.nt(np.ptp(exp) > 0.1 and (c["pin"]["k"] not in ("num", "default") or c["pout"]["k"] not in ("num", "default")))
    rec.label("negative" if neg else "positive", "amp " + c["amp"]["k"], "pin " + c["pin"]["k"], "pout " + c["pout"]["k"],
              "order flipped later" if c["flip"] else "")


def hist_case():
    one = st.tuples(G.dmd_case(st.integers(3, 9)), value("amp"), value("phase"), value("phase")).map(list)
    return st.fixed_dictionaries({
        "dmds": st.lists(one, min_size=2, max_size=4),
        "ops": st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["ideal", "simple", "on", "off", "order"])).map(list),
                        min_size=3, max_size=12)})


def check_hist(c, env, rec):
    """Several DMDs of different geometry drawn in an arbitrary order."""
    objs = []
    for d, a, pi, po in c["dmds"]:
        with sut("construct"):
            dmd = G.mk_dmd(env, d)
            ws = [build(v, k, env, d) for v, k in ((a, "amp"), (pi, "phase"), (po, "phase"))]
        objs.append({"d": d, "dmd": dmd, "ws": ws, "neg": d["neg"], "exp": np.zeros((d["Ny"], d["Nx"])), "tol": 0.0})
    switched = 0
    for n, (k, op) in enumerate(c["ops"]):
        o = objs[k % len(objs)]
        d, dmd = o["d"], o["dmd"]
        with sut("op %d %s" % (n, op)):
            if op == "order":
                o["neg"] = not o["neg"]
                dmd.negative_order = o["neg"]
                switched += 1
            elif op == "on":
                dmd.set_dmd_state_on()
                o["exp"], o["tol"] = np.ones((d["Ny"], d["Nx"])), 0.0
            elif op == "off":
                dmd.set_dmd_state_off()
                o["exp"], o["tol"] = np.zeros((d["Ny"], d["Nx"])), 0.0
            else:
                kw = {a: w[0] for a, w in zip(("amp", "phase_in", "phase_out"), o["ws"]) if w[0] is not None}
                dmd.set_dmd_grating_state(method=op, **kw)
                x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
                P = d["period"] * d["pix"]
                e = O.lee(o["ws"][0][1], o["ws"][1][1], o["ws"][2][1], x, y, P, d["theta"], o["neg"])
                t = env.eps * (60 + 4 * np.abs(O.carrier(x, y, P, d["theta"])) + 4 * np.abs(o["ws"][1][1])
                               + 4 * np.abs(o["ws"][2][1]))
                if op == "simple":
                    t = np.where(np.abs(e - 0.5) > 2 * t, 0.0, np.inf)
                    e = (e > 0.5).astype(float)
                o["exp"], o["tol"] = e, t
        for j, q in enumerate(objs):
            close(np.asarray(q["dmd"].dmd_state).astype(float), q["exp"], q["tol"], "DMD %d after op %d (%s on DMD %d)"
                  % (j, n, op, k % len(objs)))
    rec.nt(len({(tuple(o["d"].items())) for o in objs}) > 1 and any(op in ("ideal", "simple") for _, op in c["ops"]))
    rec.label("order switched" if switched else "")


SUBS = [
    Sub("law", case, check, 900, "random geometry and amp/phase given as numbers, arrays, tensors, lists, profiles; "
        "non-trivial = phase varies over the array"),
    Sub("history", hist_case, check_hist, 240, "several DMDs drawn in random order; non-trivial = different geometry and a "
        "grating drawn"),
]
