"""C12 Circular grating patches: only the disc changes, and it shows the requested grating."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, same, sut
from checks.c09 import build, value

NUM = st.sampled_from(["py", "np64", "np32", "int"])


def op():
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("patch"), "i": G.fl(-0.3, 1.3), "j": G.fl(-0.3, 1.3), "d": G.fl(0.0, 1.6),
                               "snap": st.booleans(), "as": NUM, "amp": value("amp"), "pin": value("phase"),
                               "pout": value("phase"), "method": st.sampled_from(["simple", "ideal", "random"])}),
        st.fixed_dictionaries({"op": st.just("patch"), "i": G.fl(0.0, 1.0), "j": G.fl(0.0, 1.0), "d": G.fl(0.1, 0.8),
                               "snap": st.booleans(), "as": NUM, "amp": value("amp"), "pin": value("phase"),
                               "pout": value("phase"), "method": st.sampled_from(["simple", "ideal", "random"])}),
        st.fixed_dictionaries({"op": st.sampled_from(["on", "off", "order"])}),
        st.fixed_dictionaries({"op": st.just("assign"), "mask": G.mask()}),
    )


def case():
    return st.fixed_dictionaries({"d": G.dmd_case(G.size(3, 26)), "ops": st.lists(op(), min_size=1, max_size=6)})


def number(v, kind):
    if kind == "int":
        return int(round(v))
    if kind == "np64":
        return np.float64(v)
    if kind == "np32":
        return np.float32(v)
    return v


def check(c, env, rec):
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    neg = d["neg"]
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    P = d["period"] * d["pix"]
    g = O.carrier(x, y, P, d["theta"])
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    with sut("construct"):
        dmd = G.mk_dmd(env, d)
    patches, partial = 0, 0
    for n, o in enumerate(c["ops"]):
        before = np.array(dmd.dmd_state)
        what = "op %d (%s)" % (n, o["op"])
        if o["op"] in ("on", "off"):
            with sut(what):
                dmd.set_dmd_state_on() if o["op"] == "on" else dmd.set_dmd_state_off()
            same(dmd.dmd_state, np.full((Ny, Nx), o["op"] == "on"), what)
        elif o["op"] == "order":
            neg = not neg
            dmd.negative_order = neg
            same(dmd.dmd_state, before, what)
        elif o["op"] == "assign":
            dmd.dmd_state = G.build_mask(o["mask"], Ny, Nx)
        else:
            i, j, dia = o["i"] * Ny, o["j"] * Nx, o["d"] * min(Nx, Ny)
            if o["snap"]:
                i, j, dia = round(i * 2) / 2, round(j * 2) / 2, float(round(dia))
            i, j, dia = (number(v, o["as"]) for v in (i, j, dia))
            kw = {"r": 1e5} if o["method"] == "random" else {}
            with sut("arguments"):
                w = [build(o[k], "amp" if k == "amp" else "phase", env, d) for k in ("amp", "pin", "pout")]
            args = [(v if v is not None else q.flat[0]) for v, q in w]
            with sut("circular_patch(%r, %r, d=%r, method=%r)" % (i, j, dia, o["method"])):
                dmd.circular_patch(i, j, args[0], args[1], args[2], dia, method=o["method"], **kw)
            after = np.array(dmd.dmd_state)
            need(after.shape == (Ny, Nx), "%s: state of shape %s", what, after.shape)
            r2 = (ii - float(i)) ** 2 + (jj - float(j)) ** 2
            R2 = (float(dia) / 2) ** 2
            edge = np.abs(r2 - R2) <= (0 if o["snap"] or o["as"] == "int" else 64 * env.eps * (r2 + R2 + 4 * (Nx + Ny) ** 2))
            inside, outside = (r2 < R2) & ~edge, (r2 >= R2) & ~edge
            if not o["snap"] and o["as"] != "int":
                outside &= r2 > R2
            same(after[outside].astype(float), before[outside].astype(float), what + ": pixels outside the disc")
            amp, pin, pout = w[0][1], w[1][1], w[2][1]
            tol = env.eps * (60 + 4 * np.abs(g) + 4 * np.abs(pin) + 4 * np.abs(pout))
            grey = O.lee(amp, pin, pout, x, y, P, d["theta"], neg)
            a = after.astype(float)
            if o["method"] == "ideal":
                close(a[inside], grey[inside], tol[inside], what + ": grey values inside the disc")
            elif o["method"] == "simple":
                s = inside & (np.abs(grey - 0.5) > 2 * tol)
                same(a[s], (grey[s] > 0.5).astype(float), what + ": thresholded grating inside the disc")
            else:
                dphi = -(pout - pin) if neg else pout - pin
                p = np.arccos(np.clip(np.cos(g - dphi), -1, 1))
                wd = np.arcsin(np.clip(amp, 0, 1))
                m = 1e-3 + 4 * np.sqrt(env.eps) + tol
                on, off = inside & (p < wd - m) & (wd > m), inside & (p > wd + m)
                need((a[on] == 1).all() and (a[off] == 0).all(), "%s: random grating with a steep slope does not show the "
                     "bars inside the disc", what)
            if o["method"] != "ideal" and before.dtype == bool:
                need(after.dtype == bool, "%s: a binary patch on a binary state gave dtype %s", what, after.dtype)
            patches += inside.any()
            partial += bool(inside.any() and outside.any() and (before[outside] != 0).any())
    rec.nt(partial > 0)
    rec.label("patches %d" % min(patches, 3), "kept earlier pixels" if partial else "")


def scatter_case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(G.size(10, 36)),
        "spots": st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40), st.integers(1, 12)).map(list), min_size=2,
                          max_size=5),
        "perm": G.seeds})


def check_scatter(c, env, rec):
    """Disjoint patches may be drawn in any order; a patch drawn twice is drawn once."""
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    ii, jj = np.meshgrid(np.arange(Ny), np.arange(Nx), indexing="ij")
    used = np.zeros((Ny, Nx), bool)
    spots = []
    for i, j, dia in c["spots"]:
        m = (ii - i % Ny) ** 2 + (jj - j % Nx) ** 2 < (dia / 2) ** 2
        if not (m & used).any():
            used |= m
            spots.append((i % Ny, j % Nx, dia, 0.3 * len(spots)))
    order = np.random.default_rng(c["perm"]).permutation(len(spots))
    with sut("circular_patch"):
        a, b, whole = (G.mk_dmd(env, d) for _ in range(3))
        for i, j, dia, ph in spots:
            a.circular_patch(i, j, 1.0, 0.0, ph, dia, method="simple")
        for k in list(order) + list(order[:1]):
            i, j, dia, ph = spots[k]
            b.circular_patch(i, j, 1.0, 0.0, ph, dia, method="simple")
        # a disc covering the chip is the whole grating
        whole.circular_patch(Ny // 2, Nx // 2, 1.0, 0.0, 0.5, 4 * (Nx + Ny), method="simple")
        full = np.array(whole.dmd_state)
        whole.set_dmd_grating_state(1.0, 0.0, 0.5, method="simple")
    same(b.dmd_state, a.dmd_state, "disjoint patches in another order")
    need(not np.asarray(a.dmd_state)[~used].any(), "mirrors outside all discs are on")
    same(full, whole.dmd_state, "patch covering the chip against the full grating")
    rec.nt(len(spots) > 1)


SUBS = [
    Sub("history", case, check, 400, "histories of patches (number types, methods, amp/phase forms), resets and "
        "assignments; non-trivial = a patch on a state with lit pixels outside the disc"),
    Sub("disjoint", scatter_case, check_scatter, 200, "disjoint patches in two orders; non-trivial = at least two"),
]
