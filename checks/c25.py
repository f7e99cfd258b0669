"""C25 Zernike decomposition: the single index is the ANSI enumeration, coefficients and reconstruction are the projection."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, sut


def index_case():
    return st.fixed_dictionaries({"j": st.one_of(st.integers(0, 300), st.integers(0, 10 ** 6), st.integers(0, 10 ** 10),
                                                 st.integers(0, 3000).map(lambda n: n * (n + 1) // 2),
                                                 st.integers(1, 3000).map(lambda n: n * (n + 1) // 2 - 1),
                                                 st.integers(10 ** 4, 10 ** 6).map(lambda n: n * (n + 1) // 2)),
                                  "n": st.integers(0, 2000), "k": st.integers(0, 2000)})


def check_index(c, env, rec):
    f = env.p.ansi_j_to_n_m
    with sut("ansi_j_to_n_m(%d)" % c["j"]):
        n, m = f(c["j"])
    need(n == int(n) and m == int(m), "index %d gives non-integers %s, %s", c["j"], n, m)
    need(n >= 0 and abs(m) <= n and (n - m) % 2 == 0, "index %d gives n=%s, m=%s, which is no Zernike polynomial", c["j"], n, m)
    need((n * (n + 2) + m) // 2 == c["j"], "index %d gives n=%s, m=%s, whose index is %s", c["j"], n, m, (n * (n + 2) + m) // 2)
    # and the other way round: every polynomial is reached
    n, m = c["n"], -c["n"] + 2 * (c["k"] % (c["n"] + 1))
    j = (n * (n + 2) + m) // 2
    with sut("ansi_j_to_n_m(%d)" % j):
        got = f(j)
    need(tuple(got) == (n, m), "index %d gives %s, expected %s", j, tuple(got), (n, m))
    rec.nt(c["j"] > 2)
    rec.label("row end" if abs(m) == n else "")


def pixel_grid(Ny, Nx):
    jj, ii = np.meshgrid(np.arange(Nx), np.arange(Ny))
    return jj - (Nx - 1) / 2, (Ny - 1) / 2 - ii


def basis(K, x, y, R, ext):
    return [O.zernike(x, y, 1.0, R, *O.ansi(j), True, ext) for j in range(K)]


OUT = st.sampled_from(["fine", "fine", "nan", "huge", "inf"])


def phase_case():
    return st.fixed_dictionaries({"Nx": G.size(3, 34), "Ny": G.size(3, 34), "R": st.one_of(st.integers(2, 15), G.fl(1.5, 18.0)),
                                  "K": st.one_of(st.integers(1, 8), st.integers(6, 22), G.seldom(st.integers(6, 22), st.integers(23, 50), 4)), "seed": G.seeds, "kind": st.sampled_from(["combo", "noise", "one",
                                                                                                      "smooth"]),
                                  "recon": st.booleans(), "ext": st.booleans(), "verbose": st.booleans(),
                                  "dt": st.sampled_from(["float64", "float32", "int", "fortran"]), "out": OUT})


def phase_map(c, x, y, R):
    g = np.random.default_rng(c["seed"])
    K = c["K"]
    if c["kind"] == "combo":
        p = sum(a * z for a, z in zip(g.normal(size=K), basis(K, x, y, R, True)))
    elif c["kind"] == "one":
        p = (1 + g.random()) * basis(K, x, y, R, True)[K - 1]
    elif c["kind"] == "smooth":
        p = np.sin(x / R + g.random()) * np.cos(1.3 * y / R) + g.normal() * (x / R) ** 3
    else:
        p = g.normal(size=x.shape)
    far = np.hypot(x, y) > 1.5 * R
    p = np.where(far, 0.1 * np.sin(x), p)  # whatever lies outside the aperture
    p = np.clip(p, -1e3, 1e3)
    if c["dt"] == "int":
        return np.round(5 * p).astype(int)
    # a measured map is often undefined where there is no light
    p = np.where(np.hypot(x, y) > R * (1 + 1e-5), {"fine": p, "nan": np.nan, "huge": 1e7, "inf": -np.inf}[c["out"]], p)
    if c["dt"] == "float32":
        return p.astype(np.float32)
    return np.asfortranarray(p) if c["dt"] == "fortran" else p


def check_phase(c, env, rec):
    x, y = pixel_grid(c["Ny"], c["Nx"])
    R, K = float(c["R"]), c["K"]
    rad = c["R"]
    p = phase_map(c, x, y, R)
    keep = p.copy()
    inside = x * x + y * y < rad ** 2
    if inside.sum() < 4:
        return
    with sut("zernike_decomposition"):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            out = env.p.zernike_decomposition(p, rad, K, verbose=c["verbose"], reconstruct=c["recon"], extrapolate=c["ext"])
    need(np.array_equal(p, keep, equal_nan=c["dt"] != "int"), "the phase map handed in was changed")
    coef, recon = out if c["recon"] else (out, None)
    need(len(coef) == K, "%d coefficients for %d terms", len(coef), K)
    # the polynomial is evaluated in working precision; its conditioning grows with the order
    Z = basis(K, x, y, R, c["ext"])
    err = [30 * env.eps * O.zernike_scale(x, y, 1.0, R, *O.ansi(j), True, True) for j in range(K)]
    rim = np.abs(np.hypot(x, y) - R) < 8 * env.eps * R
    if rim.any() and not c["ext"] and np.any(inside & rim):
        return
    pf = np.where(inside, np.abs(keep.astype(float)), 0)
    exp = [float(np.mean(keep[inside] * z[inside])) for z in Z]
    tol = [float(np.mean(pf[inside] * e[inside])) + 1e-12 * (1 + pf[inside].max()) for e in err]
    close(np.asarray(coef, float), np.array(exp), 3 * np.array(tol), "coefficients")
    if recon is not None:
        r = sum(a * z for a, z in zip(exp, Z))
        rt = sum(3 * t * (np.abs(z) + e) + abs(a) * e for a, t, z, e in zip(exp, tol, Z, err)) + 1e-12
        rt = np.where(rim & (not c["ext"]), np.inf, rt)
        close(recon, r, 3 * rt, "reconstructed phase map")
        need(np.asarray(recon).shape == (c["Ny"], c["Nx"]), "reconstruction has shape %s", np.shape(recon))
    whole = R <= (min(c["Nx"], c["Ny"]) - 1) / 2
    rec.nt(whole and K > 3)
    rec.label(c["kind"], "aperture inside the map" if whole else "aperture cut", "reconstruct" if c["recon"] else "",
              "extrapolate" if c["ext"] else "", "outside " + c["out"])


def recover_case():
    return st.fixed_dictionaries({"R": st.integers(18, 40), "off": st.integers(0, 3), "K": st.integers(1, 15), "a": st.lists(
        G.fl(-2.0, 2.0), min_size=15, max_size=15), "half": st.booleans()})


def check_recover(c, env, rec):
    """On a fine grid the coefficients that made the map come back, and so does the map inside the aperture."""
    R, K = c["R"], c["K"]
    n = 2 * R + 2 + c["off"]
    x, y = pixel_grid(n, n + (1 if c["half"] else 0))
    a = np.array(c["a"][:K])
    Z = basis(K, x, y, R, True)
    p = sum(q * z for q, z in zip(a, Z))
    with sut("zernike_decomposition"):
        coef, recon = env.p.zernike_decomposition(p, R, K, reconstruct=True)
    # sampling a disc of radius R leaves an error of order 1/R
    bound = 0.02 + 12.0 * np.abs(a).sum() / R ** 1.3
    close(np.asarray(coef, float), a, bound, "coefficients of a known map (aperture radius %d)" % R)
    inside = np.hypot(x, y) < R - 1
    close(np.where(inside, recon, 0), np.where(inside, p, 0), 3.5 * K * bound, "reconstruction inside the aperture")
    need(np.abs(recon[np.hypot(x, y) > R + 1]).max(initial=0) == 0, "the reconstruction is not zero outside the aperture")
    rec.nt(np.abs(a).sum() > 0.5 and K > 2)


SUBS = [
    Sub("index", index_case, check_index, 3000, "single indices up to 10^10, row ends included; non-trivial = index above 2"),
    Sub("projection", phase_case, check_phase, 120, "random maps, apertures, orders; non-trivial = aperture inside the map, "
        "more than 3 terms"),
    Sub("recover", recover_case, check_recover, 32, "maps made of known polynomials; non-trivial = several terms"),
]
