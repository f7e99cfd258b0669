"""C16 Closed forms of the Hermite-Gauss, Laguerre-Gauss and super-Gaussian beams."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut


def case():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["hg", "lg", "sg"]), "w": G.logf(1e-5, 1e2), "x0": G.fl(-5, 5), "y0": G.fl(-5, 5),
        "a": st.one_of(G.fl(-10, 10), G.logf(1e-3, 1e3)), "n": st.integers(0, 12), "m": st.integers(0, 12),
        "l": st.integers(-8, 8), "p": st.integers(0, 6), "P": st.one_of(st.sampled_from([1.0, 2.0, 0.5]), G.fl(0.3, 10.0)),
        "seed": G.seeds, "form": st.sampled_from(["grid", "line", "point", "list", "cube"]), "dflt": st.booleans()})


def pts(c, env):
    g = np.random.default_rng(c["seed"])
    shape = {"grid": (6, 5), "line": (12,), "list": (12,), "point": (), "cube": (2, 3, 4)}[c["form"]]
    u, v = g.uniform(-3.5, 3.5, shape), g.uniform(-3.5, 3.5, shape)
    if c["form"] in ("line", "list"):
        # centre, the four half axes, far away
        u[:7] = [0, 1, -1, 0, 0, 9, -1e3]
        v[:7] = [0, 0, 0, 1, -1, -9, 1e3]
    return env.r((c["x0"] + u) * c["w"]), env.r((c["y0"] + v) * c["w"])


def check(c, env, rec):
    x, y = pts(c, env)
    x0, y0, w, a, P = (float(env.r(v)) for v in (c["x0"] * c["w"], c["y0"] * c["w"], c["w"], c["a"], c["P"]))
    k = c["kind"]
    n, m, l, p = (0, 0, 0, 0) if c["dflt"] else (c["n"], c["m"], c["l"], c["p"])
    if c["dflt"]:
        P = 1.0
    with sut("construct " + k):
        if k == "hg":
            o = env.p.HermiteGaussian(x0, y0, a, w) if c["dflt"] else env.p.HermiteGaussian(x0, y0, a, w, n=n, m=m)
            exp, scale = O.hg(x, y, x0, y0, a, w, n, m), O.hg_scale(x, y, x0, y0, a, w, n, m)
            props = {"x0": x0, "y0": y0, "a": a, "w": w, "n": n, "m": m}
        elif k == "lg":
            o = env.p.LaguerreGaussian(x0, y0, a, w) if c["dflt"] else env.p.LaguerreGaussian(x0, y0, a, w, l=l, p=p)
            exp, scale = O.lg(x, y, x0, y0, a, w, l, p), O.lg_scale(x, y, x0, y0, a, w, l, p)
            props = {}
        else:
            o = env.p.SuperGaussian(x0, y0, a, w) if c["dflt"] else env.p.SuperGaussian(x0, y0, a, w, p=P)
            exp, scale = O.sg(x, y, x0, y0, a, w, P), O.sg_scale(x, y, x0, y0, a, w, P)
            props = {"x0": x0, "y0": y0, "a": a, "w": w, "p": P}
    with sut("read parameters"):
        for q, v in props.items():
            need(float(getattr(o, q)) == v, "%s.%s reads %s, built with %s", k, q, getattr(o, q), v)
    f = {"list": lambda z: z.tolist(), "point": float}.get(c["form"], lambda z: z.astype(env.real))
    with sut("evaluate " + k):
        got = o(f(x), f(y))
        again = o(f(x), f(y))
    got = np.asarray(got)
    need(got.dtype == (env.cplx if k == "lg" else env.real), "%s has dtype %s", k, got.dtype)
    # the scaled coordinate carries the rounding of x - x0, exact to one unit in the last place
    tol = 60 * env.eps * scale + 1e-36
    close(got, exp, tol, "%s at %s" % (k, c["form"]))
    close(again, exp, tol, "%s evaluated again" % k)
    rec.nt(np.size(x) > 1 and (n + m > 0 if k == "hg" else l != 0 or p > 0 if k == "lg" else P != 1))
    rec.label(k, "default order" if c["dflt"] else "", c["form"])


def ortho_case():
    return st.fixed_dictionaries({"kind": st.sampled_from(["hg", "lg"]), "i": st.tuples(st.integers(0, 4), st.integers(0, 4)),
                                  "j": st.tuples(st.integers(0, 4), st.integers(0, 4)), "w": G.logf(1e-4, 10),
                                  "s": st.sampled_from([1, -1])})


def check_ortho(c, env, rec):
    """Modes of different order are orthogonal on a wide, fine grid."""
    w = float(env.r(c["w"]))
    t = np.linspace(-5.5, 5.5, 89)
    x, y = np.meshgrid(env.r(t * w), env.r(t * w))
    (a, b), (d, e) = c["i"], c["j"]
    with sut("evaluate"):
        if c["kind"] == "hg":
            f = env.p.HermiteGaussian(0, 0, 1.0, w, n=a, m=b)(x, y)
            g = env.p.HermiteGaussian(0, 0, 1.0, w, n=d, m=e)(x, y)
            same = (a, b) == (d, e)
        else:
            a, d = a * c["s"], d
            f = env.p.LaguerreGaussian(0, 0, 1.0, w, l=a, p=min(b, 2))(x, y)
            g = env.p.LaguerreGaussian(0, 0, 1.0, w, l=d, p=min(e, 2))(x, y)
            same = (a, min(b, 2)) == (d, min(e, 2))
    f, g = f.astype(complex), g.astype(complex)
    ov = np.abs(np.vdot(f, g)) / np.sqrt(np.vdot(f, f).real * np.vdot(g, g).real)
    close(ov, 1.0 if same else 0.0, 1e-3, "overlap of %s %s and %s" % (c["kind"], c["i"], c["j"]))
    rec.nt(not same)


SUBS = [
    Sub("closed form", case, check, 1000, "random parameters, orders and evaluation points; non-trivial = more than one point "
        "and a higher order or power"),
    Sub("orthogonal", ortho_case, check_ortho, 160, "overlaps of random mode pairs; non-trivial = different modes"),
]
