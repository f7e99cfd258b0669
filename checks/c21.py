"""C21 Window profiles are exact indicator functions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, need, same, sut


def dyadic(lo, hi):
    """Multiples of 1/8: sums and squares are exact, so the rim itself can be tested."""
    return st.integers(int(lo * 8), int(hi * 8)).map(lambda k: k / 8)


def case():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["rect", "circ"]), "exact": st.booleans(),
        "p": st.lists(st.tuples(dyadic(-3, 3), dyadic(-3, 3), dyadic(0.125, 5), dyadic(0.125, 5)).map(list), min_size=1,
                      max_size=4),
        "scale": st.sampled_from([1.0, 1.0, 2.0 ** -14, 2.0 ** 6]), "odd": G.fl(0.5, 2.0), "seed": G.seeds,
        "form": st.sampled_from(["grid", "list", "point"])})


def check(c, env, rec):
    k = c["scale"] * (1.0 if c["exact"] else c["odd"])
    g = np.random.default_rng(c["seed"])
    t = np.arange(-40, 41) / 8
    if c["form"] == "point":
        x, y = np.array(float(g.choice(t))), np.array(float(g.choice(t)))
    elif c["form"] == "list":
        x, y = g.choice(t, 60), g.choice(t, 60)
    else:
        x, y = np.meshgrid(t, t[::-1])
    x, y = env.r(x * k), env.r(y * k)
    give = {"list": lambda v: v.tolist(), "point": float}.get(c["form"], lambda v: v.astype(env.real))
    o = None
    mixed = False
    for n, (x0, y0, a, b) in enumerate(c["p"]):
        x0, y0, a, b = (float(env.r(v * k)) for v in (x0, y0, a, b))
        with sut("window"):
            if o is None:
                o = (env.p.RectangularWindowRectangle(x0, y0, a, b) if c["kind"] == "rect"
                     else env.p.RectangularWindowCircular(x0, y0, a))
            else:
                # one parameter after the other
                o.x0 = x0
                o.y0 = y0
                if c["kind"] == "rect":
                    o.wx, o.wy = a, b
                else:
                    o.r = a
            names = (("x0", x0), ("y0", y0)) + ((("wx", a), ("wy", b)) if c["kind"] == "rect" else (("r", a),))
            for name, v in names:
                need(float(getattr(o, name)) == v, "%s reads %s, set to %s", name, float(getattr(o, name)), v)
            got = np.asarray(o(give(x), give(y)))
        need(got.dtype == env.real, "window has dtype %s", got.dtype)
        if c["kind"] == "rect":
            # open: a pixel exactly on the rim is outside
            exp = O.rect(x, y, x0, y0, a, b)
            near = (np.abs(np.abs(x - x0) - a / 2) < 8 * env.eps * (np.abs(x) + abs(x0) + a)) | (
                np.abs(np.abs(y - y0) - b / 2) < 8 * env.eps * (np.abs(y) + abs(y0) + b))
        else:
            # closed: a pixel exactly on the rim is inside
            exp = O.circ(x, y, x0, y0, a)
            R = np.hypot(x - x0, y - y0)
            near = np.abs(R - a) < 16 * env.eps * (np.abs(x) + np.abs(y) + abs(x0) + abs(y0) + a)
        if c["exact"]:
            near = np.zeros_like(near)
        same(np.where(near, 0, got), np.where(near, 0, exp), "%s window, parameters number %d" % (c["kind"], n))
        need(np.isin(got, (0, 1)).all(), "window takes values other than 0 and 1")
        mixed = mixed or 0 < exp.sum() < exp.size
    rec.nt(mixed and (len(c["p"]) > 1 or c["exact"]))
    rec.label(c["kind"], "rim points exact" if c["exact"] else "", "moved" if len(c["p"]) > 1 else "")


SUBS = [Sub("indicator", case, check, 1400, "random rectangles and discs, exact rim points, parameters changed after "
            "evaluation; non-trivial = points inside and outside, and rim points or changed parameters")]
