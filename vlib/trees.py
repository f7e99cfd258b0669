"""Profile expressions: a JSON description, the profile object built from it, and a double precision evaluator that also
bounds the rounding error."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special

from . import gens as G, oracle as O

TINY = 1e-30  # products of small factors underflow in single precision
C = 60
LENGTHS = ("x0", "y0", "w", "wx", "wy", "r", "radius", "dx", "dy")


# ---- leaves ------------------------------------------------------------------------------------------------------

PARAMS = {  # parameters that can be changed after construction
    "hg": ("x0", "y0", "a", "w"), "sg": ("x0", "y0", "a", "w", "p"), "zern": ("a",), "const": ("c",),
    "rect": ("x0", "y0", "wx", "wy"), "circ": ("x0", "y0", "r"), "lg": ()}


def param(name):
    """Lengths are in units of 1; the evaluation points lie within +-3."""
    if name in ("x0", "y0"):
        return G.fl(-1.5, 1.5)
    if name in ("w", "wx", "wy", "r"):
        return G.fl(0.3, 4.0)
    if name == "p":
        return G.fl(0.5, 4.0)
    if name == "c":
        return G.fl(-3.0, 3.0)
    return G.fl(-2.5, 2.5)


def leaf(kinds=("hg", "lg", "sg", "zern", "const", "cconst", "rect", "circ")):
    x0, y0, w, a = param("x0"), param("y0"), param("w"), param("a")
    d = {
        "hg": st.fixed_dictionaries({"t": st.just("hg"), "x0": x0, "y0": y0, "a": a, "w": w, "n": st.integers(0, 4),
                                     "m": st.integers(0, 4)}),
        "lg": st.fixed_dictionaries({"t": st.just("lg"), "x0": x0, "y0": y0, "a": a, "w": w, "l": st.integers(-3, 3),
                                     "p": st.integers(0, 2)}),
        "sg": st.fixed_dictionaries({"t": st.just("sg"), "x0": x0, "y0": y0, "a": a, "w": w, "p": param("p")}),
        "zern": st.tuples(st.integers(0, 20), a, param("r"), st.booleans(), st.booleans()).map(
            lambda t: {"t": "zern", "j": t[0], "a": t[1], "radius": t[2], "norm": t[3], "ext": t[4]}),
        "const": st.fixed_dictionaries({"t": st.just("const"), "c": param("c")}),
        "cconst": st.fixed_dictionaries({"t": st.just("cconst"), "re": param("c"), "im": param("c")}),
        "rect": st.fixed_dictionaries({"t": st.just("rect"), "x0": x0, "y0": y0, "wx": w, "wy": w}),
        "circ": st.fixed_dictionaries({"t": st.just("circ"), "x0": x0, "y0": y0, "r": w}),
    }
    return st.one_of([d[k] for k in kinds])


def build_leaf(s, env):
    p, t = env.p, s["t"]
    if t == "hg":
        return p.HermiteGaussian(s["x0"], s["y0"], s["a"], s["w"], n=s["n"], m=s["m"])
    if t == "lg":
        return p.LaguerreGaussian(s["x0"], s["y0"], s["a"], s["w"], l=s["l"], p=s["p"])
    if t == "sg":
        return p.SuperGaussian(s["x0"], s["y0"], s["a"], s["w"], p=s["p"])
    if t == "zern":
        n, m = O.ansi(s["j"])
        return p.Zernike(s["a"], s["radius"], n, m, normalize=s["norm"], extrapolate=s["ext"])
    if t == "const":
        return p.ConstantProfile(s["c"])
    if t == "cconst":
        return p.ConstantProfile(complex(s["re"], s["im"]))
    if t == "rect":
        return p.RectangularWindowRectangle(s["x0"], s["y0"], s["wx"], s["wy"])
    if t == "circ":
        return p.RectangularWindowCircular(s["x0"], s["y0"], s["r"])
    raise KeyError(t)


def leaf_is_complex(s):
    return s["t"] in ("lg", "cconst")


def leaf_value(s, x, y, r):
    """(value, modulus of the terms) at exact coordinates; r rounds a parameter to the working precision."""
    t = s["t"]
    q = {k: float(r(v)) for k, v in s.items() if isinstance(v, float)}
    if t == "hg":
        a = (x, y, q["x0"], q["y0"], q["a"], q["w"], s["n"], s["m"])
        return O.hg(*a), O.hg_scale(*a)
    if t == "lg":
        a = (x, y, q["x0"], q["y0"], q["a"], q["w"], s["l"], s["p"])
        return O.lg(*a), O.lg_scale(*a)
    if t == "sg":
        a = (x, y, q["x0"], q["y0"], q["a"], q["w"], q["p"])
        return O.sg(*a), O.sg_scale(*a)
    if t == "zern":
        n, m = O.ansi(s["j"])
        a = (x, y, q["a"], q["radius"], n, m, s["norm"], s["ext"])
        return O.zernike(*a), O.zernike_scale(*a)
    if t == "const":
        return np.full(np.shape(x), q["c"]), np.full(np.shape(x), abs(q["c"]))
    if t == "cconst":
        c = complex(q["re"], q["im"])
        return np.full(np.shape(x), c), np.full(np.shape(x), abs(c))
    if t == "rect":
        return O.rect(x, y, q["x0"], q["y0"], q["wx"], q["wy"]), 0 * x
    return O.circ(x, y, q["x0"], q["y0"], q["r"]), 0 * x


def eval_leaf(s, x, y, ex, ey, env):
    v, scale = leaf_value(s, x, y, env.r)
    e = C * env.eps * scale
    if s["t"] in ("hg", "lg"):
        # the Gaussian factor underflows before it is multiplied by the polynomial
        q = {k: float(env.r(v)) for k, v in s.items() if isinstance(v, float)}
        u, w = np.abs(x - q["x0"]) / q["w"], np.abs(y - q["y0"]) / q["w"]
        if s["t"] == "hg":
            e = e + 1e-36 * np.polyval(np.abs(special.hermite(s["n"]).coef), np.sqrt(2) * u) * np.polyval(
                np.abs(special.hermite(s["m"]).coef), np.sqrt(2) * w)
        else:
            r2 = 2 * (u * u + w * w)
            e = e + 1e-36 * r2 ** (abs(s["l"]) / 2) * np.polyval(np.abs(special.genlaguerre(s["p"], abs(s["l"])).coef), r2)
    if s["t"] in ("const", "cconst"):
        return v, e
    edge = s["t"] in ("rect", "circ") or (s["t"] == "zern" and not s["ext"])
    if edge:
        # the comparison itself is rounded
        b = 8 * env.eps * (np.abs(x) + np.abs(y) + sum(abs(s[k]) for k in LENGTHS if k in s))
        ex, ey = ex + b, ey + b
    if np.any(ex > 0) or np.any(ey > 0):
        var = np.zeros(np.shape(x))
        for sx in (-1, 0, 1):
            for sy in (-1, 0, 1):
                var = np.maximum(var, np.abs(leaf_value(s, x + sx * ex, y + sy * ey, env.r)[0] - v))
        e = e + 2 * var
    return v, e


# ---- expressions -------------------------------------------------------------------------------------------------

def scalar():
    return st.one_of(st.fixed_dictionaries({"re": st.integers(-3, 3)}), st.fixed_dictionaries({"re": G.fl(-2.5, 2.5)}),
                     st.fixed_dictionaries({"re": G.fl(-2, 2), "im": G.fl(-2, 2)}))


def scalar_value(s):
    return complex(s["re"], s["im"]) if "im" in s else s["re"]


FACTOR = st.one_of(G.fl(0.4, 2.5), G.fl(-2.0, -0.5))
BINARY = ("add", "sub", "mul", "div")
SCALAR = ("adds", "subs", "muls", "divs", "radds", "rmuls")
POWERS = (2, 1, 3, 0, 2.0, 0.5, 1.5, -1, -0.5, {"re": 2.0, "im": 0.0}, {"re": 0.5, "im": 0.0}, {"re": 1.0, "im": 0.5},
          {"re": 3.0, "im": -1.0})
# one kind per node, drawn with these weights
_NODES = BINARY * 4 + SCALAR * 1 + ("pow",) * 3 + ("powp", "neg", "rotate", "shift", "rx", "ry") * 1 + ("rotate", "cplx")


def power_value(k):
    return complex(k["re"], k["im"]) if isinstance(k, dict) else k


@st.composite
def expr(draw, depth=3, leaves=None, size=12):
    """An expression with at most `size` nodes, its root an operator."""
    lf = leaf() if leaves is None else leaves
    left = [size]

    def node(d, root=False):
        left[0] -= 1
        if d == 0 or left[0] <= 1 or (not root and draw(st.integers(0, 3)) == 0):
            return draw(lf)
        t = draw(st.sampled_from(_NODES))
        if t in BINARY or t == "powp":
            left[0] -= 1
            a = node(d - 1)
            left[0] += 1
            return {"t": t, "l": a, "r": node(d - 1)}
        if t in SCALAR:
            return {"t": t, "l": node(d - 1), "s": draw(scalar())}
        if t == "pow":
            return {"t": t, "l": node(d - 1), "k": draw(st.sampled_from(POWERS))}
        if t == "neg":
            return {"t": t, "l": node(d - 1)}
        of = node(d - 1)
        if t == "rotate":
            return {"t": t, "of": of, "theta": draw(G.angle)}
        if t == "shift":
            return {"t": t, "of": of, "dx": draw(G.fl(-1, 1)), "dy": draw(G.fl(-1, 1))}
        if t in ("rx", "ry"):
            return {"t": t, "of": of, "m": draw(FACTOR)}
        return {"t": "cplx", "of": of}

    return node(depth, True)


KIDS = ("l", "r", "of")


def count(s):
    return 1 + sum(count(s[k]) for k in KIDS if isinstance(s.get(k), dict))


def kinds(s):
    out = {s["t"]}
    for k in KIDS:
        if isinstance(s.get(k), dict):
            out |= kinds(s[k])
    return out


def leaves_of(s):
    subs = [s[k] for k in KIDS if isinstance(s.get(k), dict)]
    return [s] if not subs else [q for c in subs for q in leaves_of(c)]


def scaled(s, u):
    """The expression with every length in units of 2 ** u."""
    out = {}
    for k, v in s.items():
        if k in KIDS and isinstance(v, dict):
            v = scaled(v, u)
        elif k in LENGTHS and isinstance(v, float):
            v = v * 2.0 ** u
        out[k] = v
    return out


def resolve(s, leaves):
    """Replace references by the leaves they stand for."""
    if s["t"] == "ref":
        return leaves[s["k"] % len(leaves)]
    return {k: resolve(v, leaves) if k in KIDS and isinstance(v, dict) else v for k, v in s.items()}


def build(s, env, made=None, pool=None):
    """made: list that receives (description, object) of every node, in postorder; pool: the objects references mean."""
    made = [] if made is None else made
    t = s["t"]
    if t == "ref":
        return pool[s["k"] % len(pool)]
    if t in ("add", "sub", "mul", "div"):
        a, b = build(s["l"], env, made, pool), build(s["r"], env, made, pool)
        o = a + b if t == "add" else a - b if t == "sub" else a * b if t == "mul" else a / b
    elif t in ("adds", "subs", "muls", "divs", "radds", "rmuls"):
        a, k = build(s["l"], env, made, pool), scalar_value(s["s"])
        if t == "divs" and k == 0:
            k = type(k)(2)
        o = {"adds": lambda: a + k, "subs": lambda: a - k, "muls": lambda: a * k, "divs": lambda: a / k,
             "radds": lambda: k + a, "rmuls": lambda: k * a}[t]()
    elif t == "pow":
        o = build(s["l"], env, made, pool) ** power_value(s["k"])
    elif t == "powp":
        a, b = build(s["l"], env, made, pool), build(s["r"], env, made, pool)
        o = a ** b
    elif t == "neg":
        o = -build(s["l"], env, made, pool)
    elif t == "rotate":
        o = build(s["of"], env, made, pool).rotate(s["theta"])
    elif t == "shift":
        o = build(s["of"], env, made, pool).shift(s["dx"], s["dy"])
    elif t == "rx":
        o = build(s["of"], env, made, pool).rescale_x(s["m"])
    elif t == "ry":
        o = build(s["of"], env, made, pool).rescale_y(s["m"])
    elif t == "cplx":
        o = build(s["of"], env, made, pool).as_complex_profile()
    else:
        o = build_leaf(s, env)
    made.append((s, o))
    return o


def is_complex(s):
    t = s["t"]
    if t in ("add", "sub", "mul", "div", "powp"):
        return is_complex(s["l"]) or is_complex(s["r"])
    if t in ("adds", "subs", "muls", "divs", "radds", "rmuls"):
        return is_complex(s["l"]) or "im" in s["s"]
    if t in ("pow", "neg"):
        return is_complex(s["l"]) or isinstance(s.get("k"), dict)
    if t in ("rotate", "shift", "rx", "ry"):
        return is_complex(s["of"])
    return t == "cplx" or leaf_is_complex(s)


def is_constant(s):
    """Built from constants only: such a profile has no shape of its own."""
    return all(q["t"] in ("const", "cconst") for q in leaves_of(s))


def _fin(v, e, env):
    with np.errstate(all="ignore"):
        e = np.where(np.isfinite(v) & np.isfinite(e) & (np.abs(v) < 1e30), e + TINY, np.inf)
    return np.where(np.isfinite(v), v, 0), e


def _power(a, ea, b, eb, eps, cplx):
    """a ** b for arrays with error bounds, decided where the base is away from zero and from the branch cut."""
    cplx = cplx or np.iscomplexobj(a) or np.iscomplexobj(b)
    m = np.abs(a)
    ok = (m > 1e-6) & (ea < 0.1 * m)
    whole = np.isrealobj(b) & np.all(eb == 0) & np.all(b == np.round(b.real))
    if cplx:
        if not whole:
            ok = ok & ((a.real > 0) | (np.abs(np.imag(a)) > 4 * ea))
        base = np.where(ok, a, 1).astype(complex)
    else:
        ok = ok & (a > 0) if not whole else ok
        base = np.where(ok, a, 1)
    v = base ** b
    lg = 1 + np.abs(np.log(base.astype(complex)))
    d = np.abs(b) * 2 * ea / np.where(ok, m, 1) + lg * eb + C * eps * (1 + np.abs(b)) * lg
    return v, np.where(ok & (d < 0.5), np.abs(v) * 2 * d, np.inf)


def evaluate(s, x, y, env, ex=0.0, ey=0.0):
    """(value, error bound) in double precision at the exact coordinates x, y, known to the code within ex, ey."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    ex, ey = np.broadcast_to(ex, x.shape) + 0.0, np.broadcast_to(ey, x.shape) + 0.0
    t, eps = s["t"], env.eps
    with np.errstate(all="ignore"):
        if t in ("add", "sub", "mul", "div", "adds", "subs", "muls", "divs", "radds", "rmuls"):
            a, ea = evaluate(s["l"], x, y, env, ex, ey)
            if "r" in s:
                b, eb = evaluate(s["r"], x, y, env, ex, ey)
                op = t
            else:
                k = scalar_value(s["s"])
                if t == "divs" and k == 0:
                    k = type(k)(2)
                b = np.full(x.shape, k)
                eb = 2 * eps * np.abs(b)
                op = {"adds": "add", "radds": "add", "subs": "sub", "muls": "mul", "rmuls": "mul", "divs": "div"}[t]
            if op in ("add", "sub"):
                v = a + b if op == "add" else a - b
                e = ea + eb + 2 * eps * (np.abs(a) + np.abs(b))
            elif op == "mul":
                v = a * b
                e = np.abs(a) * eb + np.abs(b) * ea + ea * eb + 8 * eps * np.abs(v)
                e = np.where((np.isinf(ea) | np.isinf(eb)), np.inf, e)
            else:
                low = np.abs(b) - eb
                v = np.where(low > 0, a / np.where(low > 0, b, 1), 0)
                # complex division may square the divisor
                ok = (low > 0.5 * np.abs(b)) & (np.abs(b) > 1e-8) & (np.abs(b) < 1e12)
                e = np.where(ok, (ea + np.abs(v) * eb) / np.where(ok, low, 1) + 16 * eps * np.abs(v), np.inf)
        elif t == "pow":
            a, ea = evaluate(s["l"], x, y, env, ex, ey)
            k = power_value(s["k"])
            if isinstance(k, complex):
                v, e = _power(a, ea, np.full(x.shape, k), 2 * eps * abs(k), eps, True)
            elif k == int(k) and k >= 0 and not np.iscomplexobj(a):
                k = int(k)
                m = np.abs(a)
                v = a ** k
                e = (m + ea) ** k - m ** k + C * eps * (1 + k) * m ** k
            else:
                v, e = _power(a, ea, np.full(x.shape, k), 0.0, eps, False)
        elif t == "powp":
            a, ea = evaluate(s["l"], x, y, env, ex, ey)
            b, eb = evaluate(s["r"], x, y, env, ex, ey)
            v, e = _power(a, ea, b, eb, eps, False)
        elif t == "neg":
            a, e = evaluate(s["l"], x, y, env, ex, ey)
            v = -a
        elif t == "cplx":
            a, ea = evaluate(s["of"], x, y, env, ex, ey)
            v = np.exp(1j * a)
            ok = (ea < 0.5) & (np.abs(a) < 1e4) & (np.abs(np.imag(a)) < 30)
            e = np.where(ok, np.abs(v) * (2 * ea + C * eps * (1 + np.abs(a))), np.inf)
        elif t == "rotate":
            th = float(env.r(s["theta"]))
            c, n = np.cos(th), np.sin(th)
            d = 8 * eps * (np.abs(x) + np.abs(y))
            v, e = evaluate(s["of"], c * x - n * y, n * x + c * y, env, np.abs(c) * ex + np.abs(n) * ey + d,
                            np.abs(n) * ex + np.abs(c) * ey + d)
        elif t == "shift":
            dx, dy = float(env.r(s["dx"])), float(env.r(s["dy"]))
            v, e = evaluate(s["of"], x - dx, y - dy, env, ex + 2 * eps * (np.abs(x) + abs(dx)),
                            ey + 2 * eps * (np.abs(y) + abs(dy)))
        elif t == "rx":
            m = float(env.r(s["m"]))
            v, e = evaluate(s["of"], x / m, y, env, ex / abs(m) + 2 * eps * np.abs(x / m), ey)
        elif t == "ry":
            m = float(env.r(s["m"]))
            v, e = evaluate(s["of"], x, y / m, env, ex, ey / abs(m) + 2 * eps * np.abs(y / m))
        else:
            v, e = eval_leaf(s, x, y, ex, ey, env)
        return _fin(v, e, env)


def points(n=None):
    """Coordinates come in all units (metres of micrometre-sized things to pixels): u is the exponent of the unit."""
    return st.fixed_dictionaries({"seed": G.seeds, "form": st.sampled_from(["grid", "line", "scalar", "cube", "list"]),
                                  "u": st.one_of(st.just(0), st.sampled_from([-20, -17, -10, 8]))})


def build_points(s, env):
    """Coordinates in the working precision, within +-3 units, some of them on the axes and at the origin."""
    g = np.random.default_rng(s["seed"])
    f = s["form"]
    if f == "scalar":
        x, y = np.array(g.uniform(-3, 3)), np.array(g.uniform(-3, 3))
    elif f in ("line", "list"):
        x, y = g.uniform(-3, 3, 11), g.uniform(-3, 3, 11)
        x[0] = y[0] = 0.0
        x[1], y[2] = 0.0, 0.0
    elif f == "cube":
        x, y = g.uniform(-2, 2, (2, 3, 4)), g.uniform(-3, 3, (2, 3, 4))
    else:
        x, y = np.meshgrid(np.linspace(-3, 2, 7) + 0.3 * g.random(), np.linspace(2, -2.5, 6))
    return env.r(x * 2.0 ** s["u"]), env.r(y * 2.0 ** s["u"])


def give(form, a, env):
    if form == "list":
        return a.tolist()
    if form == "scalar":
        return float(a)
    return a.astype(env.real)


def compare(got, s, x, y, env, what, close, need):
    v, e = evaluate(s, x, y, env)
    got = np.asarray(got)
    if is_constant(s):
        got = np.broadcast_to(got, x.shape)
    want = env.cplx if is_complex(s) else env.real
    need(got.dtype == want, "%s has dtype %s, expected %s", what, got.dtype, want)
    close(got, v, 4 * e, what)
    return float(np.mean(np.isfinite(e))) if np.size(e) else 1.0
