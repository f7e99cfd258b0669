"""C10 Randomised binarization: independent mirrors, each on with the documented probability."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, need, same, sut
from checks.c07 import matched

Z = 7.0  # standard deviations; some 1e5 statistics are formed per run


def probability(amp, pin, pout, g, neg, r):
    d = -(pout - pin) if neg else pout - pin
    p = np.arccos(np.clip(np.cos(g - d), -1, 1))
    w = np.arcsin(np.clip(amp, 0, 1))
    return 0.5 * (np.tanh(r * (p + w)) - np.tanh(r * (p - w)))


def zneed(x, mu, var, slack, what):
    """x is a sum of independent events of mean mu and variance var."""
    bound = Z * np.sqrt(var) + slack + (10 if var < 100 else 0)
    need(abs(x - mu) <= bound, "%s: %g observed, %.4g expected (allowed +-%.3g)", what, x, mu, bound)


def statistics(draws, P, slack, what):
    """draws: (K, Ny, Nx) booleans."""
    K = len(draws)
    D = draws.astype(float)
    R = D - P
    V = P * (1 - P)
    eps = slack  # error of the probability of one mirror
    zneed(D.sum(), K * P.sum(), K * V.sum(), eps * D.size, what + ", all mirrors")
    for k in range(K):
        zneed(D[k].sum(), P.sum(), V.sum(), eps * P.size, what + ", draw %d" % k)
    for ax, name in ((1, "column"), (0, "row")):
        got, mu, var = D.sum(axis=(0, 1 if ax == 1 else 2)), K * P.sum(axis=0 if ax == 1 else 1), \
            K * V.sum(axis=0 if ax == 1 else 1)
        for q in range(len(got)):
            zneed(got[q], mu[q], var[q], eps * K * P.shape[0 if ax == 1 else 1], "%s, %s %d" % (what, name, q))
    edges = np.array([-1, 1e-6, 1e-3, 0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98, 1 - 1e-3, 1 - 1e-6, 2])
    for a, b in zip(edges[:-1], edges[1:]):
        s = (P > a) & (P <= b)
        if s.any():
            zneed(D[:, s].sum(), K * P[s].sum(), K * V[s].sum(), eps * K * s.sum(),
                  "%s, mirrors with probability in (%g, %g]" % (what, a, b))
    # independence between draws and between neighbours
    def corr(a, b, va, vb, name):
        var = (va * vb).sum()
        if var > 25:
            x = (a * b).sum()
            need(abs(x) <= Z * np.sqrt(var) + 10 + eps * a.size,
                 "%s: %s are correlated (%.4g, allowed +-%.3g)", what, name, x, Z * np.sqrt(var))
    VV = np.broadcast_to(V, D.shape)
    if K > 1:
        corr(R[1:], R[:-1], VV[1:], VV[:-1], "consecutive holograms")
    corr(R[:, :, 1:], R[:, :, :-1], VV[:, :, 1:], VV[:, :, :-1], "neighbours in a row")
    corr(R[:, 1:], R[:, :-1], VV[:, 1:], VV[:, :-1], "neighbours in a column")
    h = R.shape[1] // 2
    corr(R[:, :h], R[:, h:2 * h], VV[:, :h], VV[:, h:2 * h], "upper and lower half")
    up = R[:, ::-1][:, :h]  # each pair once
    corr(R[:, :h], up, VV[:, :h], VV[:, ::-1][:, :h], "mirror images")
    lags(R, V, eps, what)


def autocorrelation(a, axes, shape):
    f = np.fft.rfftn(a, s=shape, axes=axes)
    return np.fft.irfftn(np.abs(f) ** 2, s=shape, axes=axes)


def lags(R, V, eps, what):
    """No pair of mirrors at any fixed distance, and no two draws, go together: thresholds are neither tiled nor reused."""
    K, Ny, Nx = R.shape
    shape = (2 * Ny, 2 * Nx)  # padded: each pair of mirrors counts once per lag and sign
    got = autocorrelation(R, (1, 2), shape).sum(axis=0)
    var = K * autocorrelation(V[None], (1, 2), shape)[0]
    pairs = np.outer(Ny - np.minimum(np.arange(2 * Ny), 2 * Ny - np.arange(2 * Ny)),
                     Nx - np.minimum(np.arange(2 * Nx), 2 * Nx - np.arange(2 * Nx)))
    var[0, 0] = 0
    bad = (var > 25) & (np.abs(got) > Z * np.sqrt(np.abs(var)) + 10 + eps * K * pairs)
    if bad.any():
        i, j = (int(q) for q in np.argwhere(bad)[0])
        need(False, "%s: mirrors (%d, %d) apart are correlated (%.4g, allowed +-%.3g)", what, i if i < Ny else i - 2 * Ny,
             j if j < Nx else j - 2 * Nx, got[i, j], Z * np.sqrt(var[i, j]))
    v = (V * V).sum()
    if K > 1:
        M = R.reshape(K, -1) @ R.reshape(K, -1).T
        for lag in range(1, K):
            if (K - lag) * v > 25:
                x = np.trace(M, lag)
                need(abs(x) <= Z * np.sqrt((K - lag) * v) + 10 + eps * R.size, "%s: holograms %d draws apart are correlated (%.4g, "
                     "allowed +-%.3g)", what, lag, x, Z * np.sqrt((K - lag) * v))


def maps(c, Ny, Nx, env):
    if c["ampk"] == "const":
        amp = np.full((Ny, Nx), c["amp"])
    else:
        a = np.abs(G.build_field(c["field"], Ny, Nx))
        amp = a / max(a.max(), 1e-30)
    ph = c["phase"] * np.angle(G.build_field(c["field2"], Ny, Nx) + 1e-30)
    return env.r(amp), env.r(ph)


def case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(G.seldom(st.integers(20, 60), st.integers(60, 300), 12)), "ampk": st.sampled_from(["const", "map"]),
        "amp": st.one_of(st.sampled_from([1.0, 0.5]), G.fl(0.02, 1.0)), "field": G.field(), "field2": G.field(nonzero=True),
        "phase": st.sampled_from([0.0, 1.0, 1.0]), "pin": G.fl(-3, 3),
        "r": st.one_of(st.none(), G.logf(0.3, 6.0), G.logf(3.0, 25.0)), "K": st.integers(2, 10)})


def check(c, env, rec):
    d = c["d"]
    Ny, Nx = d["Ny"], d["Nx"]
    amp, pout = maps(c, Ny, Nx, env)
    kw = {} if c["r"] is None else {"r": c["r"]}
    r = 10.0 if c["r"] is None else c["r"]
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    P = probability(amp, c["pin"], pout, g, d["neg"], r)
    draws = []
    with sut("set_dmd_grating_state(method='random')"):
        dmd = G.mk_dmd(env, d)
        for k in range(c["K"]):
            if k % 2 and c["r"] is None:
                dmd.set_dmd_grating_state(amp=amp.astype(env.real), phase_in=c["pin"], phase_out=pout.astype(env.real))
            else:
                dmd.set_dmd_grating_state(amp=amp.astype(env.real), phase_in=c["pin"], phase_out=pout.astype(env.real),
                                          method="random", **kw)
            s = dmd.dmd_state
            need(s.dtype == bool and s.shape == (Ny, Nx), "random hologram is %s %s", s.dtype, s.shape)
            draws.append(np.array(s))
    slack = 8 * r * env.eps * (4 + np.abs(g).mean())
    statistics(np.array(draws), P, min(slack, 2e-3), "r=%s" % c["r"])
    V = P * (1 - P)
    if V.sum() > 60:
        for k in range(1, c["K"]):
            need((draws[k] != draws[k - 1]).any(), "two random holograms are identical")
    rec.nt(c["K"] * V.sum() > 60)
    rec.label("amp " + c["ampk"], "default r" if c["r"] is None else "r", "negative" if d["neg"] else "positive")


def state_case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(st.integers(16, 40)), "beam": G.field(nonzero=True), "target": G.field(),
        "r": st.one_of(st.none(), G.logf(0.5, 20.0)), "K": st.integers(2, 8), "dark": st.sampled_from([0, 0, 5]),
        "seed": G.seeds, "tf": st.booleans()})


def check_state(c, env, rec):
    """The same for a target given in the image plane."""
    d = c["d"]
    Ny, Nx = d["Ny"], d["Nx"]
    env.fft(c["tf"])
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    q = np.random.default_rng(c["seed"])
    for _ in range(c["dark"]):
        E[q.integers(Ny), q.integers(Nx)] = 0
    T = env.c(G.build_field(c["target"], Ny, Nx))
    E0, m = matched(E, T, 1.0, d)
    amp = np.where(E == 0, 0, np.abs(E0) / np.where(E == 0, 1, np.abs(E))) / m
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    r = 10.0 if c["r"] is None else c["r"]
    P = probability(amp, np.angle(E), np.angle(np.where(E0 == 0, 1, E0)), g, d["neg"], r)
    kw = {} if c["r"] is None else {"r": c["r"]}
    draws = []
    with sut("calculate_dmd_state(method='random')"):
        dmd = G.mk_dmd(env, d)
        for k in range(c["K"]):
            dmd.calculate_dmd_state(E.astype(env.cplx), T.astype(env.cplx), **kw)
            draws.append(np.array(dmd.dmd_state))
    draws = np.array(draws)
    need(draws.dtype == bool, "random hologram is %s", draws.dtype)
    sure = amp > 1e-3  # the phase of vanishing spectral components is rounding noise, and so small an amplitude is off
    P = np.where(sure, P, 0)
    draws = draws & sure
    statistics(draws, P, min(8 * r * env.eps * (4 + np.abs(g).mean()) / 1e-2, 2e-3), "target hologram")
    rec.nt(c["K"] * (P * (1 - P)).sum() > 60)
    rec.label("dark" if c["dark"] else "", "target " + c["target"]["k"])


def many_case():
    return st.fixed_dictionaries({"d": G.dmd_case(st.integers(10, 20)), "amp": G.fl(0.2, 1.0), "pin": G.fl(-3, 3), "r": G.logf(0.5, 4.0),
                                  "K": st.integers(40, 160), "two": st.booleans()})


def check_many(c, env, rec):
    """Long series of draws: the generator of the thresholds does not run in a small circle."""
    d = c["d"]
    x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    P = probability(env.r(c["amp"]), c["pin"], 0.0, g, d["neg"], c["r"])
    with sut("set_dmd_grating_state(method='random')"):
        dmds = [G.mk_dmd(env, d) for _ in range(2 if c["two"] else 1)]
        draws = []
        for k in range(c["K"]):
            q = dmds[k % len(dmds)]
            q.set_dmd_grating_state(amp=c["amp"], phase_in=c["pin"], phase_out=0.0, method="random", r=c["r"])
            draws.append(np.array(q.dmd_state))
    draws = np.array(draws)
    statistics(draws, P, min(8 * c["r"] * env.eps * (4 + np.abs(g).mean()), 2e-3), "a long series")
    if (P * (1 - P)).sum() > 60:
        need(len({q.tobytes() for q in draws}) == len(draws), "the same random hologram came twice in %d draws", len(draws))
    rec.nt((P * (1 - P)).sum() > 10)
    rec.label("two modulators" if c["two"] else "one modulator")


def sharp_case():
    return st.fixed_dictionaries({"d": G.dmd_case(st.integers(4, 40)), "ampk": st.sampled_from(["const", "map"]),
                                  "amp": G.fl(0.02, 1.0), "field": G.field(), "field2": G.field(nonzero=True),
                                  "phase": st.sampled_from([0.0, 1.0]), "pin": G.fl(-3, 3), "r": G.logf(1e3, 1e5)})


def check_sharp(c, env, rec):
    """For large r the hologram becomes deterministic: bars whose width is set by asin(amplitude)."""
    d = c["d"]
    Ny, Nx = d["Ny"], d["Nx"]
    amp, pout = maps(c, Ny, Nx, env)
    x, y = O.fourier_grid(Nx, Ny, d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    dphi = -(pout - c["pin"]) if d["neg"] else pout - c["pin"]
    p = np.arccos(np.clip(np.cos(g - dphi), -1, 1))
    w = np.arcsin(np.clip(amp, 0, 1))
    with sut("set_dmd_grating_state(method='random', r=%g)" % c["r"]):
        dmd = G.mk_dmd(env, d)
        dmd.set_dmd_grating_state(amp=amp.astype(env.real), phase_in=c["pin"], phase_out=pout.astype(env.real),
                                  method="random", r=c["r"])
    margin = 20 / c["r"] + 10 * env.eps * (10 + np.abs(g)) + 4 * np.sqrt(env.eps)
    on, off = (p < w - margin) & (w > margin), p > w + margin
    s = dmd.dmd_state
    need(s[on].all(), "%d mirrors inside the bars are off", int((~s[on]).sum()))
    need(not s[off].any(), "%d mirrors outside the bars are on", int(s[off].sum()))
    rec.nt(on.any() and off.any())


def rare_case():
    return st.fixed_dictionaries({"Nx": st.integers(300, 900), "Ny": st.integers(300, 900), "amp": st.one_of(G.logf(1e-6, 1e-2), G.logf(1e-5, 1e-3)),
                                  "theta": G.angle, "period": G.logf(300, 1e5), "pin": st.sampled_from([0.0, 0.0, 0.3]),
                                  "r": st.one_of(st.none(), G.logf(0.3, 6.0)), "full": st.booleans(), "K": st.integers(1, 4), "neg": st.booleans()})


def check_rare(c, env, rec):
    """Probabilities far below 1/1000 (or as close to one) are kept as well: the thresholds are fine enough."""
    r = 10.0 if c["r"] is None else c["r"]
    d = dict(Nx=c["Nx"], Ny=c["Ny"], pix=1e-5, period=c["period"], theta=c["theta"], neg=c["neg"], wl=369e-9, f=0.2)
    amp = 1.0 if c["full"] else float(env.r(c["amp"]))
    x, y = O.fourier_grid(d["Nx"], d["Ny"], d["pix"])
    g = O.carrier(x, y, d["period"] * d["pix"], d["theta"])
    P = probability(amp, c["pin"], 0.0, g, d["neg"], r)
    dp = env.eps ** 0.5 + 8 * env.eps * (4 + np.abs(g))  # error of the folded phase
    V = P * (1 - P)
    slack = np.minimum(4 * env.eps + 4 * r * dp * V, 1)
    kw = {} if c["r"] is None else {"r": c["r"]}
    with sut("set_dmd_grating_state(method='random')"):
        dmd = env.p.DMD(d["wl"], d["f"], d["period"], d["theta"], d["Nx"], d["Ny"], d["pix"], negative_order=d["neg"])
        n = np.zeros(P.shape)
        for _ in range(c["K"]):
            dmd.set_dmd_grating_state(amp=amp, phase_in=c["pin"], phase_out=0.0, method="random", **kw)
            n += dmd.dmd_state
    K, seen = c["K"], False
    edges = np.array([-1, 1e-5, 1e-4, 1e-3, 1e-2, 0.99, 1 - 1e-3, 1 - 1e-4, 2])
    for a, b in zip(edges[:-1], edges[1:]):
        s = (P > a) & (P <= b)
        if s.any():
            zneed(n[s].sum(), K * P[s].sum(), K * V[s].sum(), K * slack[s].sum(), "mirrors with probability in (%g, %g]" % (a, b))
            seen = seen or (b < 0.1 or a > 0.9) and K * V[s].sum() > 1
    zneed(n.sum(), K * P.sum(), K * V.sum(), K * slack.sum(), "rare mirrors, all")
    rec.nt(seen)
    rec.label("nearly sure" if c["full"] else "rare")


SUBS = [
    Sub("law", case, check, 560, "repeated draws with random amplitude, phase, order and steepness; totals per draw, row, "
        "column, probability class and correlations; non-trivial = more than 60 mirrors' worth of variance"),
    Sub("target", state_case, check_state, 240, "the same through an image plane target"),
    Sub("series", many_case, check_many, 64, "40-160 draws of one grating on small chips, from one or two modulators in turn; "
        "non-trivial = variance above 10 mirrors"),
    Sub("rare", rare_case, check_rare, 40, "chips of up to 900 x 900 mirrors whose probabilities are tiny or nearly one; non-trivial = at least "
        "one event expected below probability 1/100 or above 99/100"),
    Sub("sharp", sharp_case, check_sharp, 160, "large steepness; non-trivial = bars and gaps both present"),
]
