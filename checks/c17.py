"""C17 Zernike polynomials."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, sut


def index(top=10):
    return st.integers(0, top).flatmap(lambda n: st.integers(0, n).map(lambda k: [n, -n + 2 * k]))


def case():
    return st.fixed_dictionaries({
        "nm": st.one_of(index(), index(), index(28)), "a": G.fl(-5, 5), "radius": G.logf(1e-3, 1e3), "norm": st.sampled_from([None, True, False]),
        "ext": st.sampled_from([None, True, False]), "seed": G.seeds, "a2": G.fl(-5, 5), "np": st.booleans(),
        "far": G.seldom(st.just(1.6), G.logf(3.0, 1e4), 5), "form": st.sampled_from(["grid", "line", "point", "list"])})


def check(c, env, rec):
    n, m = c["nm"]
    a, radius = float(env.r(c["a"])), float(env.r(c["radius"]))
    kw = {}
    if c["norm"] is not None:
        kw["normalize"] = c["norm"]
    if c["ext"] is not None:
        kw["extrapolate"] = c["ext"]
    norm, ext = c["norm"] is not False, bool(c["ext"])
    N, M = (np.int64(n), np.int64(m)) if c["np"] else (n, m)
    g = np.random.default_rng(c["seed"])
    shape = {"grid": (7, 6), "line": (14,), "list": (14,), "point": ()}[c["form"]]
    rho, phi = c["far"] * np.sqrt(g.random(shape)), g.uniform(-np.pi, np.pi, shape)
    x, y = rho * np.cos(phi), rho * np.sin(phi)
    if c["form"] in ("line", "list"):
        x[:7] = [0, 0.5, -0.5, 0, 0, 3.0, -2.0]
        y[:7] = [0, 0, 0, 0.5, -0.5, 0.1, -2.0]
    x, y = env.r(x * radius), env.r(y * radius)
    with sut("construct Zernike(%d, %d)" % (n, m)):
        z = env.p.Zernike(a, radius, N, M, **kw)
        need(z.n == n and z.m == m, "indices read back as (%s, %s), built with (%s, %s)", z.n, z.m, n, m)
        close(float(z.radius), radius, 2 * env.eps * radius, "radius")
        close(float(z.a), a, 2 * env.eps * abs(a), "a")
        need(bool(z.is_normalized()) == norm, "is_normalized() is %s", z.is_normalized())
        factor = np.sqrt(n + 1) if m == 0 else np.sqrt(2 * n + 2)
        if norm:
            close(float(z.normalization), factor, 1e-6 * factor, "normalization factor")
    f = {"list": lambda v: v.tolist(), "point": float}.get(c["form"], lambda v: v.astype(env.real))

    def verify(a, what):
        with sut("evaluate Zernike"):
            got = z(f(x), f(y))
        need(np.asarray(got).dtype == env.real, "dtype %s", np.asarray(got).dtype)
        exp = O.zernike(x, y, a, radius, n, m, norm, ext)
        tol = 60 * env.eps * O.zernike_scale(x, y, a, radius, n, m, norm, ext) + 1e-36
        rim = np.abs(np.hypot(x, y) / radius - 1) < 32 * env.eps
        # far outside high orders overflow
        big = O.zernike_scale(x, y, max(1.0, abs(a)), radius, n, m, True, True)
        tol = np.where((rim & (not ext)) | (big > 1e34), np.inf, tol)
        close(got, exp, tol, "Zernike(n=%d, m=%d, normalize=%s, extrapolate=%s)%s" % (n, m, c["norm"], c["ext"], what))

    verify(a, "")
    a2 = float(env.r(c["a2"]))
    with sut("set a"):
        z.a = a2
    verify(a2, " after changing a")
    rec.nt(n > 1 and np.size(x) > 1)
    rec.label("high order" if n > 12 else "", "m<0" if m < 0 else "m=0" if m == 0 else "m>0", "extrapolated" if ext else "clipped", "far" if c["far"] > 2 else "",
              "normalised" if norm else "raw")


def rim_case():
    return st.fixed_dictionaries({"nm": st.one_of(index(), index(24)), "a": st.sampled_from([1.0, -2.0, 0.5, 3.0]), "e": st.integers(-9, 9),
                                  "norm": st.booleans(), "ext": st.booleans(), "k": st.sampled_from([1, 2, 3, 5])})


def check_rim(c, env, rec):
    """The aperture is closed: points exactly at the radius (exactly representable ones) carry the polynomial."""
    n, m = c["nm"]
    s = 2.0 ** c["e"]
    # Pythagorean points, for which rho is exactly one
    u = np.array([[3, 4], [-3, 4], [4, -3], [-4, -3], [5, 0], [-5, 0], [0, 5], [0, -5]], float) * c["k"]
    R = 5.0 * c["k"] * s
    x, y = u[:, 0] * s, u[:, 1] * s
    inside = 1 - 2.0 ** -10
    with sut("evaluate Zernike(%d, %d)" % (n, m)):
        z = env.p.Zernike(c["a"], R, n, m, normalize=c["norm"], extrapolate=c["ext"])
        got = z(x.astype(env.real), y.astype(env.real))
        near = z((x * inside).astype(env.real), (y * inside).astype(env.real))
        far = z((x / inside).astype(env.real), (y / inside).astype(env.real))
    for g, f, name in ((got, 1, "at"), (near, inside, "just inside"), (far, 1 / inside, "just outside")):
        gone = f > 1 and not c["ext"]
        exp = O.zernike(x * f, y * f, c["a"], R, n, m, c["norm"], True) * (not gone)
        tol = 0 if gone else 60 * env.eps * O.zernike_scale(x * f, y * f, c["a"], R, n, m, c["norm"], True)
        close(g, exp, tol, "Zernike(n=%d, m=%d, extrapolate=%s) %s the rim" % (n, m, c["ext"], name))
    rec.nt(n > 0)
    rec.label("extrapolated" if c["ext"] else "clipped")


def disc_rule(k=12, q=48):
    """Quadrature on the unit disc, exact for polynomials up to degree 22."""
    t, w = np.polynomial.legendre.leggauss(k)
    r = (t + 1) / 2
    phi = 2 * np.pi * np.arange(q) / q + 0.1
    W = (w / 2 * r)[:, None] * np.full(q, 2 * np.pi / q)
    return r[:, None] * np.cos(phi), r[:, None] * np.sin(phi), W / np.pi


def check_ortho(c, env, rec):
    """Orthonormal over the aperture (mean square one), whatever its radius."""
    (n, m), (p, q) = c["i"], c["j"]
    R = float(env.r(c["radius"]))
    u, v, W = disc_rule()
    x, y = (u * R).astype(env.real), (v * R).astype(env.real)
    with sut("evaluate"):
        f = env.p.Zernike(1, R, n, m)(x, y).astype(float)
        g = env.p.Zernike(1, R, p, q, normalize=c["norm"])(x, y).astype(float)
    same = (n, m) == (p, q)
    k = 1.0 if c["norm"] else 1 / (np.sqrt(p + 1) if q == 0 else np.sqrt(2 * p + 2))
    tol = 2e-3 if not env.is64 else 1e-9
    close((f * g * W).sum(), k if same else 0.0, tol, "inner product of (%d, %d) and (%d, %d)" % (n, m, p, q))
    rec.nt(not same and n > 0 and p > 0)
    rec.label("same" if same else "different")


def bad_case():
    return st.fixed_dictionaries({"n": st.integers(-4, 9), "m": st.integers(-12, 12)})


def check_bad(c, env, rec):
    n, m = c["n"], c["m"]
    if n >= abs(m) and (n - m) % 2 == 0:
        with sut("valid index (%d, %d)" % (n, m)):
            env.p.Zernike(1.0, 1.0, n, m)
        return
    must_raise("Zernike(n=%d, m=%d)" % (n, m), lambda: env.p.Zernike(1.0, 1.0, n, m), ValueError)
    rec.nt()
    rec.label("m < -n" if m < -n else "m > n" if m > n else "odd difference")


SUBS = [
    Sub("closed form", case, check, 560, "random index, radius, amplitude, flags and points inside and outside the aperture; "
        "non-trivial = radial order above 1"),
    Sub("rim", rim_case, check_rim, 120, "exactly representable points on, just inside and just outside the rim; "
        "non-trivial = not piston"),
    Sub("orthonormal", lambda: st.fixed_dictionaries({"i": index(8), "j": index(8), "radius": G.logf(1e-3, 1e3),
                                                      "norm": st.booleans()}), check_ortho, 140,
        "pairs of polynomials by quadrature; non-trivial = different, neither constant"),
    Sub("index", bad_case, check_bad, 300, "valid and invalid index pairs; non-trivial = invalid ones"),
]
