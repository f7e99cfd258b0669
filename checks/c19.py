"""C19 Geometric transforms of profiles: rotate, shift, rescale, complex phase form."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O, trees as T
from vlib.core import Sub, close, need, sut


def chain():
    step = st.one_of(st.tuples(st.just("rotate"), G.angle).map(list),
                     st.tuples(st.just("shift"), G.fl(-1.2, 1.2), G.fl(-1.2, 1.2)).map(list),
                     st.tuples(st.just("rx"), st.one_of(G.fl(0.4, 2.5), G.fl(-2, -0.5))).map(list),
                     st.tuples(st.just("ry"), st.one_of(G.fl(0.4, 2.5), G.fl(-2, -0.5))).map(list),
                     st.just(["cplx"]))
    return st.lists(step, min_size=1, max_size=5)


def wrap(leaf, steps):
    s = leaf
    seen = False
    for q in steps:
        if q[0] == "rotate":
            s = {"t": "rotate", "of": s, "theta": q[1]}
        elif q[0] == "shift":
            s = {"t": "shift", "of": s, "dx": q[1], "dy": q[2]}
        elif q[0] in ("rx", "ry"):
            s = {"t": q[0], "of": s, "m": q[1]}
        elif not seen:
            s = {"t": "cplx", "of": s}
            seen = True
    return s


def case():
    return st.fixed_dictionaries({"leaf": T.leaf(("hg", "lg", "sg", "zern", "rect", "circ")), "steps": chain(),
                                  "pts": T.points(), "carry": st.one_of(st.none(), st.tuples(*[st.one_of(
                                      G.fl(0.4, 2.5), G.fl(-2, -0.5))] * 2).map(list))})


def check(c, env, rec):
    u = c["pts"]["u"]
    if c["carry"] is None:
        s = T.scaled(wrap(c["leaf"], c["steps"]), u)
    else:
        # a profile of unit size brought to the size of the modulator
        mx, my = (k * 2.0 ** u for k in c["carry"])
        s = wrap({"t": "rx", "m": mx, "of": {"t": "ry", "m": my, "of": c["leaf"]}}, [
            [q[0]] + [v * 2.0 ** u for v in q[1:]] if q[0] == "shift" else q for q in c["steps"]])
    made = []
    with sut("build"):
        o = T.build(s, env, made)
    x, y = T.build_points(c["pts"], env)
    with sut("evaluate"):
        got = o(T.give(c["pts"]["form"], x, env), T.give(c["pts"]["form"], y, env))
    names = [q[0] for q in c["steps"]]
    good = T.compare(got, s, x, y, env, "%s after %s" % (c["leaf"]["t"], names), close, need)
    x, y = T.build_points(c["pts"] if c["carry"] is None else {**c["pts"], "u": 0}, env)
    with sut("evaluate the original"):
        orig = made[0][1](x, y)
    T.compare(orig, made[0][0], x, y, env, "the original profile after being transformed", close, need)
    rec.nt(good > 0.5 and len(set(names)) > 1)
    rec.label(*names)
    rec.label(c["leaf"]["t"], "unit 2^%d%s" % (u, "" if c["carry"] is None else " by rescaling"))


def inverse_case():
    return st.fixed_dictionaries({"leaf": T.leaf(("hg", "lg", "sg")), "theta": G.angle, "dx": G.fl(-1, 1), "dy": G.fl(-1, 1),
                                  "m": st.one_of(G.fl(0.5, 2.0), G.logf(1e-3, 1e3)), "pts": T.points()})


def check_inverse(c, env, rec):
    """A transform followed by its inverse is the identity; the documented coordinate relations hold pointwise."""
    x, y = T.build_points(c["pts"], env)
    with sut("transform"):
        unit = 2.0 ** c["pts"]["u"]
        leaf = T.scaled(c["leaf"], c["pts"]["u"])
        dx, dy = c["dx"] * unit, c["dy"] * unit
        p = T.build(leaf, env)
        base = np.asarray(p(x, y))
        pairs = {
            "rotate": p.rotate(c["theta"]).rotate(-c["theta"])(x, y),
            "shift": p.shift(dx, dy).shift(-dx, -dy)(x, y),
            "rescale_x": p.rescale_x(c["m"]).rescale_x(1 / c["m"])(x, y),
            "rescale_y": p.rescale_y(c["m"]).rescale_y(1 / c["m"])(x, y),
            "full turn": p.rotate(np.pi).rotate(np.pi)(x, y),
            "negative m twice": p.rescale_x(-1.0).rescale_x(-1.0)(x, y),
        }
    d = 16 * env.eps * (np.abs(x) + np.abs(y) + 2 * unit)
    v, e = T.eval_leaf(leaf, x, y, d * 4, d * 4, env)
    for k, g in pairs.items():
        close(np.asarray(g), base, 4 * e + 1e-30, "%s and back" % k)
    # rotation keeps distances, a point on the axis goes where the documented relation says
    t = c["theta"]
    with sut("rotate"):
        got = np.asarray(p.rotate(t)(x, y))
    cx, cy = np.cos(t) * x - np.sin(t) * y, np.sin(t) * x + np.cos(t) * y
    v, e = T.eval_leaf(leaf, cx, cy, d, d, env)
    close(got, v, 4 * e + 1e-30, "rotated profile against the documented coordinates")
    rec.nt(abs(np.sin(2 * t)) > 0.1)


SUBS = [
    Sub("chain", case, check, 480, "random chains of transforms; non-trivial = two different kinds and a finite error bound"),
    Sub("inverse", inverse_case, check_inverse, 120, "transform and inverse; non-trivial = rotation off the axes"),
]
