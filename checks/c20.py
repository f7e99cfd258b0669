"""C20 Parameters are live: a change is seen by everything built on the profile, at once and exactly."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O, trees as T
from vlib.core import Sub, close, need, sut


def ref():
    return st.integers(0, 2).map(lambda k: {"t": "ref", "k": k})


def lens_leaf():
    return T.leaf(("hg", "sg", "zern", "const", "cconst", "rect", "circ"))


def case():
    upd = st.fixed_dictionaries({"leaf": st.integers(0, 2), "par": st.integers(0, 5), "u": G.fl(0, 1),
                                 "v": st.one_of(G.fl(-1, 1), G.fl(-1, 1), st.just(0.0)), "how": st.sampled_from(["py", "np", "tensor"]),
                                 "look": st.lists(st.integers(0, 4), min_size=1, max_size=3)})
    return st.fixed_dictionaries({"leaves": st.lists(lens_leaf(), min_size=1, max_size=3), "e": T.expr(2, ref(), 8),
                                  "pts": T.points(), "warm": st.integers(0, 15), "upd": st.lists(upd, min_size=1, max_size=5),
                                  "Nx": G.even(4, 10), "Ny": G.even(4, 10)})


def pick(name, u, v, unit=1.0):
    """Map the generated numbers to the range of the parameter."""
    if name in T.LENGTHS:
        return unit * pick_one(name, u, v)
    return pick_one(name, u, v)


def pick_one(name, u, v):
    if name in ("x0", "y0"):
        return 1.5 * v
    if name in ("w", "wx", "wy", "r"):
        return 0.3 + 3.5 * u
    if name == "p":
        return 0.5 + 3 * u
    return 3.0 * v


def check(c, env, rec):
    tf = env.tf
    unit = 2.0 ** c["pts"]["u"]
    leaves = [T.scaled(q, c["pts"]["u"]) for q in c["leaves"]]
    tree = T.scaled(c["e"], c["pts"]["u"])
    with sut("build"):
        pool = [T.build_leaf(q, env) for q in leaves]
        top = T.build(tree, env, pool=pool)
        slm = env.p.SLM(1.0, 2.0 * unit * unit, c["Nx"], c["Ny"], 0.5 * unit)
    x, y = T.build_points(c["pts"], env)
    fx, fy = (env.r(q) for q in O.fourier_grid(c["Nx"], c["Ny"], 0.5 * unit))
    ix, iy = O.image_grid(c["Nx"], c["Ny"], 0.5 * unit, 2.0 * unit * unit)
    seen = [0.0]

    def look(k, what):
        e = T.resolve(tree, leaves)
        cp = T.is_complex(e)
        with sut(what):
            if k == 0:
                good = T.compare(top(T.give(c["pts"]["form"], x, env), T.give(c["pts"]["form"], y, env)), e, x, y, env,
                                 what + ": the expression", close, need)
                seen[0] = max(seen[0], good)
            elif k == 1:
                T.compare(slm.profile_to_tensor(top, complex=cp), e, fx, fy, env, what + ": Fourier plane samples", close, need)
            elif k == 2:
                v, er = T.evaluate(e, ix, iy, env, 4 * env.eps * np.abs(ix), 4 * env.eps * np.abs(iy))
                got = np.asarray(slm.profile_to_tensor(top, at_fourier_plane=False, complex=True))
                close(got, v, 4 * er, what + ": image plane samples")
            elif k == 3:
                for q, o in zip(leaves, pool):
                    T.compare(o(x, y), q, x, y, env, what + ": leaf %s" % q["t"], close, need)
            else:
                # an expression made now from the same profiles
                T.compare((pool[0] * 2.0)(x, y), {"t": "muls", "l": leaves[0], "s": {"re": 2.0}}, x, y, env,
                          what + ": a new expression", close, need)

    for k in range(4):
        if c["warm"] >> k & 1:
            look(k, "at first")
    changed = 0
    for n, u in enumerate(c["upd"]):
        k = u["leaf"] % len(leaves)
        q = leaves[k]
        names = T.PARAMS[{"cconst": "const"}.get(q["t"], q["t"])]
        name = names[u["par"] % len(names)]
        val = pick(name, u["u"], u["v"], unit)
        if q["t"] == "cconst":
            val = complex(val, 2.0 * u["u"] - 1)
            typed = env.c(val)
        else:
            typed = env.r(val)
        give = {"py": lambda: val, "np": lambda: np.asarray(val, env.cplx if q["t"] == "cconst" else env.real)[()],
                "tensor": lambda: tf.constant(val, env.cplx if q["t"] == "cconst" else env.real)}[u["how"]]()
        what = "after setting %s.%s (update %d)" % (q["t"], name, n)
        with sut(what):
            setattr(pool[k], name, give)
            got = np.asarray(getattr(pool[k], name))
        need(complex(got) == complex(typed), "%s: reads back %s, was set to %s", what, got, val)
        if q["t"] == "cconst":
            q["re"], q["im"] = val.real, val.imag
        else:
            q[name] = val
        changed += 1
        # the other parameters keep their values
        with sut(what):
            for other in names:
                if other != name:
                    need(float(getattr(pool[k], other)) == float(env.r(q[other])), "%s: %s changed too", what, other)
        for w in u["look"]:
            look(w, what)
    look(0, "at last")
    rec.nt(bool(c["warm"] & 7) and changed > 0 and seen[0] > 0.5 and T.count(c["e"]) > 1)
    rec.label(*T.kinds(c["e"]))
    rec.label("unit 2^%d" % c["pts"]["u"])
    rec.label("evaluated before" if c["warm"] else "", *[q["t"] for q in leaves])


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
       "powp": lambda a, b: a ** b}


def op_case():
    lf = st.one_of(lens_leaf(), T.leaf(("const", "cconst")))
    move = st.one_of(st.none(), st.fixed_dictionaries({"t": st.just("shift"), "dx": G.fl(-1, 1), "dy": G.fl(-1, 1)}),
                     st.fixed_dictionaries({"t": st.just("rotate"), "theta": G.angle}),
                     st.fixed_dictionaries({"t": st.just("cplx")}), st.fixed_dictionaries({"t": st.just("neg")}))
    return st.fixed_dictionaries({
        "l": lf, "r": lf, "op": st.sampled_from(sorted(OPS)), "move": move, "warm": st.booleans(), "side": st.booleans(),
        "upd": st.lists(st.tuples(st.booleans(), st.integers(0, 5), G.fl(0, 1), G.fl(-1, 1), st.booleans()).map(list), min_size=2,
                        max_size=4),
        "pts": T.points()})


def check_op(c, env, rec):
    """One operator, two profiles, a parameter of either changed: the smallest live expression of every kind."""
    pu = c["pts"]["u"]
    unit = 2.0 ** pu
    leaves = [T.scaled(c["l"], pu), T.scaled(c["r"], pu)]
    l, r = {"t": "ref", "k": 0}, {"t": "ref", "k": 1}
    e = {"t": c["op"], "l": l, "r": r}
    if c["move"] is not None:
        key = "l" if c["move"]["t"] == "neg" else "of"
        if c["side"]:
            e = {**c["move"], key: e}
        else:
            e = {"t": c["op"], "l": l, "r": {**c["move"], key: r}}
    e = T.scaled(e, pu)
    x, y = T.build_points(c["pts"], env)
    with sut("build"):
        pool = [T.build_leaf(q, env) for q in leaves]
        top = T.build(e, env, pool=pool)

    seen = [0.0]

    def look(what):
        with sut(what):
            got = top(T.give(c["pts"]["form"], x, env), T.give(c["pts"]["form"], y, env))
        seen[0] = max(seen[0], T.compare(got, T.resolve(e, leaves), x, y, env, what, close, need))

    if c["warm"]:
        look("at first")
    held = []
    for n, (k, par, u, v, back) in enumerate(c["upd"]):
        q, o = leaves[k], pool[k]
        names = T.PARAMS[{"cconst": "const"}.get(q["t"], q["t"])]
        name = names[par % len(names)]
        val = pick(name, u, v, unit)
        if q["t"] == "cconst":
            q["re"], q["im"] = val, 2 * u - 1
            val = complex(val, 2 * u - 1)
        else:
            q[name] = val
        with sut("set %s.%s" % (q["t"], name)):
            was = getattr(o, name)
            num = complex(was)
            setattr(o, name, val)
        look("update %d, %s.%s" % (n, q["t"], name))
        held.append((k, name, was, num))
        # what was read before is the old value, and handing it back restores it
        for hk, hname, hv, hn in held:
            need(complex(hv) == hn, "the value of %s.%s read before an update changed from %s to %s", leaves[hk]["t"], hname, hn, hv)
        if back:
            with sut("restore %s.%s" % (q["t"], name)):
                setattr(o, name, was)
            if q["t"] == "cconst":
                q["re"], q["im"] = num.real, num.imag
            else:
                q[name] = num.real
            look("restored %d, %s.%s" % (n, q["t"], name))
    rec.nt(seen[0] > 0.3)
    rec.label(c["op"], c["l"]["t"] + " " + c["op"] + " " + c["r"]["t"] if "const" in (c["l"]["t"], c["r"]["t"]) else "",
              "evaluated before" if c["warm"] else "")


def slm_case():
    return st.fixed_dictionaries({"d": G.dmd_case(G.even(4, 12)), "w": G.fl(0.2, 0.6), "a": st.lists(
        st.tuples(G.fl(0.2, 3.0), G.fl(-0.3, 0.3), G.fl(-2, 2)).map(list), min_size=2, max_size=4), "mask": G.mask(),
        "tf": st.booleans()})


def check_slm(c, env, rec):
    """A beam whose parameters are scanned: every simulated field and every hologram follows the scan."""
    d = c["d"]
    env.fft(c["tf"])
    Nx, Ny, pix, sf = d["Nx"], d["Ny"], d["pix"], d["wl"] * d["f"]
    L = pix * max(Nx, Ny)
    x, y = (env.r(q) for q in O.fourier_grid(Nx, Ny, pix))
    w = c["w"] * L
    with sut("construct"):
        dmd = G.mk_dmd(env, d)
        sim = env.p.DMDSimulation(dmd)
        beam = env.p.HermiteGaussian(0.0, 0.0, 1.0, w)
        tilt = env.p.Zernike(1.0, L, 1, 1, extrapolate=True)
        field = beam * tilt.as_complex_profile()
        m = G.build_mask(c["mask"], Ny, Nx)
        dmd.dmd_state = m
    for k, (a, x0, t) in enumerate(c["a"]):
        what = "scan step %d" % k
        with sut(what):
            beam.a = a
            beam.x0 = x0 * L
            tilt.a = t
            sim.propagate_to_image(field)
            got = sim.input_field
            img = sim.image_plane_field
        E = O.hg(x, y, float(env.r(x0 * L)), 0.0, float(env.r(a)), float(env.r(w))) * np.exp(
            1j * O.zernike(x, y, float(env.r(t)), float(env.r(L)), 1, 1, True, True))
        close(got, E, 400 * env.eps * abs(a) * 4, what + ": input field")
        ref = O.propagate(E * m, pix, sf)
        close(img, ref, 2000 * env.eps * abs(a) * Nx * Ny * pix ** 2 / sf, what + ": image field")
        # the grating follows phase and amplitude too
        ph = O.zernike(x, y, float(env.r(t)), float(env.r(L)), 1, 1, True, True)
        with sut(what):
            dmd.set_dmd_grating_state(amp=0.5, phase_out=tilt, method="ideal")
        g = O.lee(0.5, 0.0, ph, x, y, d["period"] * pix, float(env.r(d["theta"])), d["neg"])
        close(np.asarray(dmd.dmd_state, float), g, 3000 * env.eps, what + ": grating of a live phase profile")
        dmd.dmd_state = m
    rec.nt(m.any() and len({tuple(v) for v in c["a"]}) > 1)


SUBS = [
    Sub("update", case, check, 280, "expressions over shared profiles, evaluated, then parameters changed one by one with all "
        "users compared; non-trivial = evaluated before the change, composite, error bound finite at most points"),
    Sub("operator", op_case, check_op, 400, "one operator over two profiles, parameters of either changed; non-trivial = "
        "error bound finite at 30 % of the points"),
    Sub("scan", slm_case, check_slm, 96, "beam parameter scans through simulation and grating; non-trivial = light on the "
        "modulator and different parameters"),
]
