"""C35 A profile's value at a point depends on that point alone."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, trees as T
from vlib.core import Sub, close, need, sut

FORMS = ("column", "row", "permuted", "split", "one", "scalars", "outer", "outer reversed", "four axes", "fortran", "strided", "reversed", "double",
         "repeated", "list", "tensor", "among others", "far others", "alike ends", "many", "empty", "scalar x", "scalar y")


def centred(e):
    """The same with all centres at the origin."""
    if isinstance(e, dict):
        return {k: 0.0 if k in ("x0", "y0") else centred(q) for k, q in e.items()}
    return [centred(q) for q in e] if isinstance(e, (list, tuple)) else e


def case():
    return st.fixed_dictionaries({"e": st.one_of(T.expr(2, None, 8), T.leaf(("hg", "lg", "sg", "zern", "rect", "circ"))), "u": st.sampled_from([0, 0, -20, -10, 8]),
                                  "seed": G.seeds, "ny": G.seldom(st.integers(2, 7), st.integers(8, 70)),
                                  "nx": G.seldom(st.integers(1, 7), st.integers(8, 150)), "axes": st.sampled_from(["uniform", "whole", "spread"]), "centre": st.booleans(),
                                  "forms": st.lists(st.sampled_from(FORMS), min_size=3, max_size=7, unique=True)})


def check(c, env, rec):
    g = np.random.default_rng(c["seed"])
    unit = 2.0 ** c["u"]
    ny, nx = c["ny"], c["nx"]
    e = T.scaled(centred(c["e"]) if c["centre"] else c["e"], c["u"])
    whole = c["axes"] == "whole"
    if c["axes"] == "spread":
        ax, ay = (10 ** g.uniform(-4, 0.5, k) * g.choice([-1, 1], k) for k in (nx, ny))
    elif whole:
        ax, ay = g.integers(-3, 4, nx).astype(float), g.integers(-3, 4, ny).astype(float)
    else:
        ax, ay = g.uniform(-3, 3, nx), g.uniform(-3, 3, ny)
    ax, ay = env.r(ax * unit), env.r(ay * unit)
    X, Y = np.meshgrid(ax, ay)
    with sut("build"):
        o = T.build(e, env)
    v, err = T.evaluate(e, X, Y, env)
    const, want = T.is_constant(e), env.cplx if T.is_complex(e) else env.real

    def at(x, y, V, Er, what, ask=None):
        x, y = (np.asarray(q, env.real) for q in (x, y)) if ask is None else (x, y)
        with sut("evaluate, " + what):
            got = np.asarray(o(x, y))
        if const and got.shape == ():
            got = np.broadcast_to(got, V.shape)
        need(got.dtype == want, "%s: values of type %s, expected %s", what, got.dtype, want)
        close(got, V, 4 * Er, what)

    at(X, Y, v, err, "the grid")
    n = X.size
    for f in c["forms"]:
        if f == "column":
            at(X.reshape(-1, 1), Y.reshape(-1, 1), v.reshape(-1, 1), err.reshape(-1, 1), f)
        elif f == "row":
            at(X.reshape(1, -1), Y.reshape(1, -1), v.reshape(1, -1), err.reshape(1, -1), f)
        elif f == "permuted":
            p = g.permutation(n)
            at(X.ravel()[p], Y.ravel()[p], v.ravel()[p], err.ravel()[p], f)
        elif f == "split":
            k = int(g.integers(0, n + 1))
            for s in (slice(0, k), slice(k, n)):
                if s.stop > s.start:
                    at(X.ravel()[s], Y.ravel()[s], v.ravel()[s], err.ravel()[s], f)
        elif f in ("one", "scalars"):
            for k in g.integers(0, n, 3):
                a, b = float(X.ravel()[k]), float(Y.ravel()[k])
                if f == "one":
                    at([[a]], [[b]], v.ravel()[[[k]]], err.ravel()[[[k]]], "a single point")
                else:
                    # Python numbers; whole ones also as integers
                    if whole and c["u"] == 0:
                        a, b = int(a), int(b)
                    at(a, b, v.ravel()[k], err.ravel()[k], "a point given as numbers", 1)
        elif f == "outer":
            at(ax[None, :], ay[:, None], v, err, "x as a row, y as a column")
        elif f == "outer reversed":
            at(ax[:, None], ay[None, :], v.T, err.T, "x as a column, y as a row")
        elif f == "four axes":
            at(X[None, :, None, :], Y[None, :, None, :], v[None, :, None, :], err[None, :, None, :], f)
        elif f == "fortran":
            at(np.asfortranarray(X.astype(env.real)), np.asfortranarray(Y.astype(env.real)), v, err, f, 1)
        elif f == "strided":
            a, b = (np.repeat(np.repeat(q.astype(env.real), 2, 0), 3, 1)[::2, ::3] for q in (X, Y))
            at(a, b, v, err, f, 1)
        elif f == "reversed":
            at(X.astype(env.real)[::-1, ::-1], Y.astype(env.real)[::-1, ::-1], v[::-1, ::-1], err[::-1, ::-1], f, 1)
        elif f == "double":
            at(X.astype(np.float64), Y.astype(np.float64), v, err, "coordinates in double precision", 1)
        elif f == "repeated":
            at(np.tile(X, (2, 3)), np.tile(Y, (2, 3)), np.tile(v, (2, 3)), np.tile(err, (2, 3)), "every point several times")
        elif f == "list":
            a, b = X, Y
            if whole and c["u"] == 0:
                a, b = X.astype(int), Y.astype(int)
            at(a.tolist(), b.tolist(), v, err, "nested lists", 1)
        elif f == "tensor":
            at(env.tf.constant(X, env.real), env.tf.constant(Y, env.real), v, err, "tensors", 1)
        elif f == "among others":
            # the same points inside a larger set that reaches much farther, and holds undefined coordinates
            far = env.r(unit * 10 ** g.uniform(0.5, 2, (2, 5)) * g.choice([-1, 1], (2, 5)))
            odd = np.array([np.nan, np.inf, 0.0, -np.inf])[g.permutation(4)[:3]]
            a = np.concatenate([far[0], X.ravel(), odd]).astype(env.real)
            b = np.concatenate([far[1], Y.ravel(), odd]).astype(env.real)
            with sut("evaluate, " + f):
                got = np.asarray(o(a, b))
            if not (const and got.shape == ()):
                need(got.shape == a.shape, "%s: shape %s, expected %s", f, got.shape, a.shape)
                close(got[5:-3], v.ravel(), 4 * err.ravel(), f)
        elif f == "far others":
            # many orders of magnitude in one call; the far points themselves may overflow
            far = env.r(unit * 10 ** g.uniform(0, 6, (2, 4)) * g.choice([-1, 1], (2, 4)))
            a, b = (np.concatenate([far[k], q.ravel()]).astype(env.real) for k, q in ((0, X), (1, Y)))
            with sut("evaluate, " + f):
                got = np.asarray(o(a, b))
            if not (const and got.shape == ()):
                need(got.shape == a.shape, "%s: shape %s, expected %s", f, got.shape, a.shape)
                close(got[4:], v.ravel(), 4 * err.ravel(), f)
        elif f in ("alike ends", "many"):
            k, m = (int(q) for q in (g.integers(60, 130, 2) if f == "many" else g.integers(1, 9, 2)))
            idx = g.integers(0, n, (k, m))
            if f == "alike ends":
                idx[-1] = idx[0]
                idx[:, -1] = idx[:, 0]
            a, b = (np.array(q.ravel()[idx], dtype=env.real, order="F" if c["seed"] & 1 else "C") for q in (X, Y))
            if f == "many" and c["seed"] & 2:
                a = np.array(a, order="C")
            at(a, b, v.ravel()[idx], err.ravel()[idx], "%d x %d points in any order" % (k, m), 1)
        elif f == "empty":
            z = np.zeros((0, 3), env.real)
            with sut("evaluate, no points"):
                got = np.asarray(o(z, z))
            need(const or got.shape == (0, 3), "no points: shape %s", got.shape)
        elif f == "scalar x":
            if not const:
                V, Er = T.evaluate(e, np.full(ny, ax[0]), ay, env)
                at(float(ax[0]), ay.astype(env.real), V, Er, "one x, many y", 1)
        elif f == "scalar y":
            if not const:
                V, Er = T.evaluate(e, ax, np.full(nx, ay[0]), env)
                at(ax.astype(env.real), float(ay[0]), V, Er, "many x, one y", 1)
    rec.nt(n > 3 and np.mean(np.isfinite(err)) > 0.5 and np.ptp(np.abs(v)) > 0)
    rec.label(*c["forms"])
    rec.label(*T.kinds(c["e"]))
    rec.label("large" if n > 500 else "")


SUBS = [
    Sub("arrangement", case, check, 480, "leaves and expressions of all kinds on a grid and the same points arranged otherwise; "
        "non-trivial = more than three points, values differ and mostly decided"),
]
