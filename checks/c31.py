"""C31 Results depend on the parameters and arguments of now, never on what was done before."""
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, need, sut, Violation

SHAPES = [(6, 8), (8, 6), (6, 6), (5, 8), (9, 4)]
PARAM = {"beam": ("x0", "y0", "a", "w"), "target": ("x0", "y0", "a", "w", "p"), "zern": ("a",), "win": ("x0", "y0", "r"),
         "const": ("c",)}
PROBES = ["ideal", "simple", "ifta", "defaults", "profiles", "patch", "grating", "prop", "propprof", "block", "lprop", "grids", "lgrids", "values",
          "decomp", "trivial", "origin", "pack", "spot", "powers", "window", "tensors", "sum"]


def value(name):
    if name in ("x0", "y0"):
        return G.fl(-0.3, 0.3)
    if name in ("w", "r"):
        return G.fl(0.1, 0.6)
    if name == "p":
        return G.fl(0.6, 3.0)
    return st.one_of(G.fl(0.3, 2.0), G.fl(-2.0, -0.3))


def prof():
    return st.fixed_dictionaries({k: st.fixed_dictionaries({q: value(q) for q in v}) for k, v in PARAM.items()})


def op():
    beam = G.field(True)
    what = st.sampled_from(["beam", "target", "zern", "win", "const"])
    setp = what.flatmap(lambda k: st.sampled_from(PARAM[k]).flatmap(lambda q: st.tuples(
        st.just("setp"), st.just(k), st.just(q), value(q)).map(list)))
    holo = st.fixed_dictionaries({"op": st.just("holo"), "method": st.sampled_from(["ideal", "simple", "random", "ifta"]),
                                  "beam": beam, "prof": st.booleans(), "window": st.booleans(), "N": st.integers(1, 3),
                                  "r": st.sampled_from([None, 0.5, 30.0]), "s": st.sampled_from([None, 0.7])})
    return st.one_of(
        holo, holo, setp, setp, setp,
        st.fixed_dictionaries({"op": st.just("patch"), "i": G.fl(0, 8), "j": G.fl(0, 8), "d": G.fl(1, 6),
                               "method": st.sampled_from(["ideal", "simple", "random"])}),
        st.fixed_dictionaries({"op": st.just("grating"), "amp": G.fl(0, 1), "ph": G.fl(-3, 3), "zern": st.booleans(),
                               "method": st.sampled_from(["ideal", "simple", "random"])}),
        st.fixed_dictionaries({"op": st.just("state"), "mask": G.mask(), "how": st.sampled_from(["assign", "on", "off", "edit"])}),
        st.fixed_dictionaries({"op": st.just("prop"), "sim": st.integers(0, 2), "beam": beam, "prof": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("prop"), "sim": st.integers(0, 2), "beam": beam, "prof": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("block"), "r": st.one_of(st.none(), G.fl(0, 0.5))}),
        st.fixed_dictionaries({"op": st.just("lcos"), "method": st.sampled_from(["gs", "mraf"]), "beam": beam,
                               "mix": st.sampled_from([None, 0.9])}),
        st.tuples(st.sampled_from(["clear", "lreset", "eval", "decomp", "powers", "grids", "pack", "tensors", "derive"]),
                  st.integers(0, 4)).map(list),
        st.tuples(st.just("fft"), st.booleans()).map(list),
        st.tuples(st.just("order"), st.booleans()).map(list))


def case():
    return st.fixed_dictionaries({
        "shape": st.sampled_from(SHAPES), "d": G.dmd_case(st.just(6)), "pad": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
        "prof": prof(), "zj": st.integers(0, 14), "tf": st.booleans(), "ops": st.lists(op(), min_size=2, max_size=10),
        "probes": st.lists(st.sampled_from(PROBES), min_size=3, max_size=7, unique=True), "beam": G.field(True), "mask": G.mask(),
        "seed": G.seeds, "post": st.booleans(), "r": st.one_of(st.none(), G.fl(0.0, 0.5))})


class World:
    def __init__(self, env, c, prof, neg, nudge=0.0):
        self.env, self.c, p = env, c, env.p
        Ny, Nx = c["shape"]
        d = self.d = {**c["d"], "Nx": Nx, "Ny": Ny, "neg": neg, "theta": c["d"]["theta"] + nudge, "late": False}
        self.L, self.LI = Nx * d["pix"], d["wl"] * d["f"] / d["pix"]
        self.dmd, self.lcos = G.mk_dmd(env, d), G.mk_lcos(env, d)
        px, py = c["pad"]
        self.sims = [p.DMDSimulation(self.dmd, padding_x=px, padding_y=py), p.SLMSimulation(self.lcos, padding_x=py, padding_y=px),
                     p.SLMSimulation(self.dmd)]
        self.prof, q = {}, prof
        s = self.scale = lambda k, name, v: v * (self.L if k == "beam" else self.LI) if name in ("x0", "y0", "w", "r") else v
        a = {k: {n: s(k, n, v) for n, v in q[k].items()} for k in q}
        self.prof["beam"] = p.HermiteGaussian(a["beam"]["x0"], a["beam"]["y0"], a["beam"]["a"], a["beam"]["w"], n=1)
        self.prof["target"] = p.SuperGaussian(a["target"]["x0"], a["target"]["y0"], a["target"]["a"], a["target"]["w"], p=a["target"]["p"])
        n, m = O.ansi(c["zj"])
        self.prof["zern"] = p.Zernike(a["zern"]["a"], 0.7 * self.L, n, m)
        self.prof["win"] = p.RectangularWindowCircular(a["win"]["x0"], a["win"]["y0"], a["win"]["r"])
        self.prof["const"] = p.ConstantProfile(a["const"]["c"])
        # users of the shared profiles, made at the start
        self.field = self.prof["beam"] * self.prof["const"] + 8.0
        self.sum = self.prof["beam"] * 2.0 - self.prof["zern"].shift(0.1 * self.L, 0.0)
        i, j = np.indices((Ny, Nx))
        self.W = np.hypot((j - Nx // 2) / Nx, (i - Ny // 2) / Ny) < 0.3217

    def arrays(self, c):
        Ny, Nx = self.c["shape"]
        return G.build_field(c["beam"], Ny, Nx).astype(self.env.cplx)

    def target(self):
        Ny, Nx = self.c["shape"]
        X, Y = O.image_grid(Nx, Ny, self.d["pix"], self.d["wl"] * self.d["f"])
        t = np.exp(-((X / self.LI - 0.1) ** 2 + (Y / self.LI) ** 2) / 0.04) * np.exp(2j * X / self.LI)
        return t.astype(self.env.cplx)

    def act(self, o):
        """One operation of the history; every one is valid."""
        env, p = self.env, self.env.p
        kind = o[0] if isinstance(o, list) else o["op"]
        Ny, Nx = self.c["shape"]
        dmd, lcos, sims = self.dmd, self.lcos, self.sims
        if kind == "setp":
            setattr(self.prof[o[1]], o[2], self.scale(o[1], o[2], o[3]))
        elif kind == "holo":
            kw = {k: o[k] for k in (("N", "s") if o["method"] == "ifta" else ("r",) if o["method"] == "random" else ())
                  if o[k] is not None}
            if o["method"] == "ifta":
                kw["signal_window"] = self.prof["win"] if o["prof"] else self.W
            if o["window"]:
                kw["window"] = np.linspace(0.5, 1, Nx * Ny).reshape(Ny, Nx)
            dmd.calculate_dmd_state(self.field if o["prof"] else self.arrays(o), self.prof["target"] if o["prof"] else self.target(),
                                    method=o["method"], **kw)
        elif kind == "patch":
            dmd.circular_patch(o["i"], o["j"], 0.8, 0.0, 0.3, o["d"], method=o["method"])
        elif kind == "grating":
            dmd.set_dmd_grating_state(amp=o["amp"], phase_in=self.prof["zern"] if o["zern"] else 0, phase_out=o["ph"],
                                      method=o["method"])
        elif kind == "state":
            if o["how"] == "on":
                dmd.set_dmd_state_on()
            elif o["how"] == "off":
                dmd.set_dmd_state_off()
            elif o["how"] == "assign":
                dmd.dmd_state = G.build_mask(o["mask"], Ny, Nx)
            else:
                dmd.dmd_state[0, 0] = 1 - dmd.dmd_state[0, 0]
        elif kind == "prop":
            sims[o["sim"]].propagate_to_image(self.field if o["prof"] else self.arrays(o))
        elif kind == "block":
            if sims[0].image_plane_field is not None:
                sims[0].block_zeroth_order(None if o["r"] is None else o["r"] * self.LI)
        elif kind == "lcos":
            kw = {"N": 2}
            if o["method"] == "mraf":
                kw["signal_window"] = self.W
                if o["mix"] is not None:
                    kw["mixing_factor"] = o["mix"]
            lcos.calculate_hologram(self.arrays(o), np.abs(self.target()), method=o["method"], **kw)
        elif kind == "clear":
            sims[o[1] % 3].clear()
        elif kind == "lreset":
            lcos.reset_slm_state()
        elif kind == "eval":
            k = sorted(self.prof)[o[1]]
            x, y = dmd.fourier_plane_grid if o[1] % 2 else dmd.image_plane_grid
            self.prof[k](x, y)
        elif kind == "decomp":
            m = np.outer(np.arange(7.0), np.arange(8.0)) / 50
            p.zernike_decomposition(m, 2.5 + o[1] / 2, 1 + o[1], reconstruct=bool(o[1] % 2))
            p.remove_trivial_phase(m, 2.5 + o[1] / 2, remove_defocus=bool(o[1] % 2))
        elif kind == "powers":
            s = sims[o[1] % 3]
            if s.output_field is not None:
                s.get_input_power(), s.get_output_power(), s.get_image_plane_power()
        elif kind == "grids":
            dmd.fourier_plane_grid, dmd.image_plane_grid, sims[o[1] % 3].image_plane_padded_grid, sims[0].fourier_plane_padded_grid
        elif kind == "pack":
            if np.asarray(dmd.dmd_state).dtype == bool:
                dmd.pack_dmd_state()
        elif kind == "tensors":
            dmd.profile_to_tensor(self.prof["beam"], at_fourier_plane=bool(o[1] % 2), complex=o[1] > 2)
            lcos.profile_to_tensor(1.0 + o[1])
        elif kind == "derive":
            self.field.rotate(0.3 * o[1])(1e-5, 0.0)
            (-self.sum + self.field)(0.0, 1e-5)
        elif kind == "fft":
            env.fft(o[1])
        elif kind == "order":
            dmd.negative_order = o[1]

    def probe(self, k):
        """A reproducible measurement: {name: array}."""
        env, p, c = self.env, self.env.p, self.c
        Ny, Nx = c["shape"]
        dmd, lcos, sims = self.dmd, self.lcos, self.sims
        E, T = self.arrays(c), self.target()
        out = {}
        if k in ("ideal", "simple", "ifta", "defaults"):
            kw = {"signal_window": self.W} if k in ("ifta", "defaults") else {}
            if k == "ifta":
                kw["N"] = 2
            out["efficiency"] = dmd.calculate_dmd_state(E, T, method="ifta" if k == "defaults" else k, **kw)
            out["mirrors"] = np.array(dmd.dmd_state)
        elif k == "profiles":
            out["efficiency"] = dmd.calculate_dmd_state(self.field, self.prof["target"] + 0.5, method="ideal")
            out["mirrors"] = np.array(dmd.dmd_state)
        elif k == "patch":
            dmd.dmd_state = np.zeros((Ny, Nx))
            dmd.circular_patch(Ny / 2.2, Nx / 2.1, 0.8, 0.4, 0.1, 4.3, method="ideal")
            out["mirrors"] = np.array(dmd.dmd_state)
        elif k == "grating":
            dmd.set_dmd_grating_state(amp=0.7, phase_in=self.prof["zern"], phase_out=np.angle(E), method="ideal")
            out["mirrors"] = np.array(dmd.dmd_state)
        elif k in ("prop", "propprof", "powers", "block"):
            dmd.dmd_state = G.build_mask(c["mask"], Ny, Nx)
            for n in (0, 2):
                s = sims[n]
                s.propagate_to_image(self.field if k == "propprof" else E)
                if k == "block":
                    if n == 0:
                        s.block_zeroth_order(None if c["r"] is None else c["r"] * self.LI)
                        out["blocked field"] = s.image_plane_field
                elif k == "powers":
                    out["powers %d" % n] = [s.get_input_power(), s.get_output_power(), s.get_image_plane_power()]
                else:
                    out.update({"%s %d" % (q, n): getattr(s, q) for q in (
                        "input_field", "output_field", "image_plane_field", "input_intensity", "image_plane_intensity")})
        elif k == "lprop":
            lcos.slm_state = np.angle(E)
            sims[1].propagate_to_image(E)
            out = {"image": sims[1].image_plane_field, "output": sims[1].output_field, "power": sims[1].get_image_plane_power()}
        elif k == "grids":
            out = {"grid %d" % n: a for n, a in enumerate(
                dmd.fourier_plane_grid + dmd.image_plane_grid + sims[0].fourier_plane_padded_grid + sims[0].image_plane_padded_grid)}
            out["areas"] = [sims[0].image_plane_pixel_area / sims[0].fourier_plane_pixel_area, sims[0].Nx, sims[0].Ny]
        elif k == "lgrids":
            out = {"grid %d" % n: a for n, a in enumerate(
                lcos.image_plane_grid + lcos.fourier_plane_grid + sims[1].image_plane_padded_grid + sims[1].fourier_plane_padded_grid)}
        elif k in ("values", "sum", "window", "tensors"):
            x, y = O.fourier_grid(Nx, Ny, self.d["pix"])
            u, v = O.image_grid(Nx, Ny, self.d["pix"], self.d["wl"] * self.d["f"])
            if k == "values":
                out = {"beam": self.prof["beam"](x, y), "target": self.prof["target"](u, v), "zern": self.prof["zern"](x, y)}
            elif k == "sum":
                out = {"field": self.field(x, y), "sum": self.sum(x, y)}
            elif k == "window":
                # the rim itself is a matter of rounding
                r = self.env.r
                win = self.prof["win"]
                rad = np.hypot(u - float(win.x0), v - float(win.y0)) / float(win.r)
                out = {"window": np.where(np.abs(rad - 1) < 1e-4, 0, win(r(u), r(v)))}
            else:
                out = {"t1": dmd.profile_to_tensor(self.field, complex=True), "t2": dmd.profile_to_tensor(
                    self.prof["target"], at_fourier_plane=False), "t3": lcos.profile_to_tensor(self.prof["const"])}
        elif k == "decomp":
            g = np.random.default_rng(c["seed"]).normal(size=(9, 8))
            co, recon = p.zernike_decomposition(g, 3.3, 3, reconstruct=True)
            out = {"coefficients": co, "reconstruction": recon}
        elif k == "trivial":
            g = np.random.default_rng(c["seed"]).normal(size=(9, 8))
            out = {"cleaned": p.remove_trivial_phase(g, 3.3, remove_defocus=bool(c["seed"] % 2))}
        elif k == "origin":
            out = {"origin": dmd.first_order_origin, "theta": float(dmd.theta), "sim": sims[0].first_order_origin}
        elif k == "pack":
            dmd.dmd_state = G.build_mask(c["mask"], Ny, Nx)
            out = {"bits": np.frombuffer(dmd.pack_dmd_state(), np.uint8).astype(int)}
        elif k == "spot":
            t = np.zeros((Ny, Nx))
            t[Ny // 2 - 1, Nx // 2 + 1] = 1
            lcos.calculate_hologram(E, t, method="gs", N=3)
            h = np.exp(1j * np.real(lcos.slm_state))
            out = {"single spot": h * np.conj(h[0, 0])}
        return {"%s: %s" % (k, q): np.array(v) for q, v in out.items()}


NUDGE = (0.0, 2e-6, -2e-6)


def undecided(x, again):
    """{name: mirrors that change with the last digits of the angle}, from measurements of new objects."""
    near = [again(nudge) for nudge in NUDGE]
    return {q: np.any([n[q] != near[0][q] for n in near], axis=0) for q, v in x.items() if v.dtype == bool}


def compare(a, b, what, env, N, again):
    need(a.keys() == b.keys(), "%s: results %s, expected %s", what, sorted(a), sorted(b))
    for q in b:
        x, y = a[q], b[q]
        need(x.shape == y.shape and x.dtype == y.dtype, "%s, %s: %s %s, expected %s %s", what, q, x.dtype, x.shape, y.dtype, y.shape)
        if y.dtype == bool:
            bad = x != y
            if bad.any():
                # a mirror within rounding of its threshold does not count
                bad &= ~undecided(a, again)[q]
            need(not bad.any(), "%s, %s: %d of %d differ", what, q, int(bad.sum()), bad.size)
        else:
            m = float(np.nanmax(np.abs(y))) if y.size and not np.isnan(y).all() else 0.0
            tol = 100 * env.eps * (1 + N) * m + 1e-300
            d = np.abs(x.astype(np.complex128) - y.astype(np.complex128))
            ok = (d <= tol) | ((x == y) | (np.isnan(x) & np.isnan(y)))
            if not ok.all():
                raise Violation("%s, %s: got %s, expected %s (%d of %d)" % (what, q, x[~ok].ravel()[0], y[~ok].ravel()[0],
                                                                            int((~ok).sum()), x.size))


def check(c, env, rec):
    c = {**c, "shape": tuple(c["shape"])}
    # the parameters after the history
    prof = {k: dict(v) for k, v in c["prof"].items()}
    neg, ft = c["d"]["neg"], c["tf"]
    for o in c["ops"]:
        if isinstance(o, list):
            if o[0] == "setp":
                prof[o[1]][o[2]] = o[3]
            elif o[0] == "order":
                neg = o[1]
            elif o[0] == "fft":
                ft = o[1]
    N = sum(c["shape"])
    env.fft(ft)
    with sut("fresh objects"):
        fresh = World(env, c, prof, neg)
        want = {k: fresh.probe(k) for k in c["probes"]}

    def again(k):
        return lambda nudge: World(env, c, prof, neg, nudge).probe(k)

    env.fft(c["tf"])
    with sut("objects at the start"):
        w = World(env, c, c["prof"], c["d"]["neg"])
    hist = []
    for n, o in enumerate(c["ops"]):
        hist.append(o[0] if isinstance(o, list) else o["op"])
        with sut("operation %d (%s)" % (n, hist[-1])):
            w.act(o)
    order = list(c["probes"])
    np.random.default_rng(c["seed"]).shuffle(order)

    held = np.array(w.dmd.dmd_state)
    with sut("the current state"):
        w.sims[0].propagate_to_image(w.arrays(c))
        now = {"now: image": w.sims[0].image_plane_field}
    for k in order:
        with sut("%s after %s" % (k, hist)):
            got = w.probe(k)
        compare(got, want[k], "used objects after %s" % hist, env, N, again(k))
    if c["post"]:
        with sut("fresh objects afterwards"):
            f = World(env, c, prof, neg)
            f.dmd.dmd_state = held
            f.sims[0].propagate_to_image(f.arrays(c))
        compare(now, {"now: image": f.sims[0].image_plane_field}, "the same mirrors after %s" % hist, env, N, None)
        for k in order[:3]:
            with sut("%s after %s" % (k, hist)):
                got = f.probe(k)
            compare(got, want[k], "new objects after %s on others" % hist, env, N, again(k))
    rec.nt(len(set(hist)) > 2)
    rec.label(*hist)
    rec.label(*["probe " + k for k in order])


# --- the same request again, between others that differ from it in some argument ---

def request(kind):
    flag = st.booleans()
    args = {
        "holo": {"method": st.sampled_from(["ideal", "simple", "ifta", "ifta"]), "N": st.sampled_from([1, 2, 3, None]),
                 "s": st.sampled_from([None, 0.4, 0.7, 1.5]), "beam": st.integers(0, 3), "target": st.integers(0, 3),
                 "window": st.integers(0, 2), "sw": st.integers(0, 1)},
        "grating": {"method": st.sampled_from(["ideal", "simple"]), "amp": st.sampled_from([0.3, 0.7, 1, "const", "omit"]),
                    "phin": st.sampled_from([0, 0.8, "zern", "array", "omit"]), "phout": st.sampled_from([0, -1.1, "zern", "array", "omit"])},
        "patch": {"i": st.integers(0, 8), "j": st.integers(0, 8), "d": st.integers(1, 6), "amp": st.sampled_from([0.3, 0.7, 1]),
                  "phin": st.sampled_from([0, 0.8]), "phout": st.sampled_from([0, -1.1]), "method": st.sampled_from(["ideal", "simple"])},
        "decomp": {"shape": st.integers(0, 2), "radius": st.integers(20, 45), "order": st.integers(0, 3), "extra": flag, "recon": flag,
                   "map": st.integers(0, 1)},
        "trivial": {"shape": st.integers(0, 2), "radius": st.integers(20, 45), "defocus": flag, "map": st.integers(0, 1)},
        "prop": {"sim": st.integers(0, 2), "beam": st.integers(0, 3), "mask": st.integers(0, 2),
                 "block": st.sampled_from([False, None, 0.1, 0.3])},
        "values": {"which": st.sampled_from(sorted(PARAM) + ["field", "sum"]), "plane": flag, "tensor": flag, "complex": flag, "lcos": flag},
        "grids": {"sim": st.integers(0, 2)},
        "spot": {"beam": st.integers(0, 3), "i": st.integers(0, 3), "j": st.integers(0, 3), "mraf": flag},
    }[kind]
    return st.fixed_dictionaries({"kind": st.just(kind), "w": st.sampled_from([0, 0, 1]), "neg": flag, "tf": flag, "prof": prof(), **args})


KINDS = ["holo", "holo", "holo", "holo", "grating", "grating", "grating", "patch", "decomp", "decomp", "trivial", "prop", "prop", "prop", "values", "values",
         "grids", "spot"]


RELEVANT = {"holo": ("beam", "target", "win", "const"), "grating": ("zern", "const"), "prop": ("beam", "const"),
            "values": tuple(sorted(PARAM))}


def again_case():
    one = st.sampled_from(KINDS).flatmap(lambda k: st.tuples(request(k), request(k)).map(list))
    return st.fixed_dictionaries({
        "shape": st.sampled_from(SHAPES), "d": G.dmd_case(st.just(6)), "d2": G.dmd_case(st.just(6)), "zj": st.integers(0, 14),
        "pad": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), "pair": one, "extra": st.sampled_from(KINDS).flatmap(request),
        "seed": G.seeds})


def variants(a, b):
    """[a, then a with one argument of b at a time, then b]."""
    out = [a]
    plain = a["kind"] in ("decomp", "trivial")
    for k in sorted(a):
        if k not in ("kind", "prof") and a[k] != b[k] and not (plain and k in ("w", "neg", "tf")):
            out.append({**a, k: b[k]})
    for k in RELEVANT.get(a["kind"], ()):
        for name in PARAM[k]:
            if a["prof"][k][name] != b["prof"][k][name]:
                out.append({**a, "prof": {**a["prof"], k: {**a["prof"][k], name: b["prof"][k][name]}}})
    return out + [b]


def make(w, q, rng_seed):
    """One request in full: parameters, order and state are set, then the result is taken."""
    env, p = w.env, w.env.p
    Ny, Nx = w.c["shape"]
    env.fft(q["tf"])
    for k, v in q["prof"].items():
        for name, x in v.items():
            setattr(w.prof[k], name, w.scale(k, name, x))
    w.dmd.negative_order = q["neg"]
    kind = q["kind"]

    def beam(n):
        if n < 2:
            return w.beams[n]
        return w.field if n == 2 else w.prof["beam"]

    def target(n):
        if n < 2:
            return w.targets[n]
        return w.prof["target"] if n == 2 and abs(float(w.prof["target"].w)) > 0.25 * w.LI else w.shifted

    phase = {"zern": w.prof["zern"], "array": w.phases}
    out = {}
    if kind == "holo":
        kw = {}
        if q["method"] == "ifta":
            kw = {k: q[k] for k in ("N", "s") if q[k] is not None}
            kw["signal_window"] = w.prof["win"] if q["sw"] else w.W
        if q["window"]:
            kw["window"] = w.soft if q["window"] == 1 else w.frame
        out["efficiency"] = w.dmd.calculate_dmd_state(beam(q["beam"]), target(q["target"]), method=q["method"], **kw)
        out["mirrors"] = w.dmd.dmd_state
    elif kind == "grating":
        kw = {"amp": w.prof["const"] if q["amp"] == "const" else q["amp"], "phase_in": phase.get(q["phin"], q["phin"]),
              "phase_out": phase.get(q["phout"], q["phout"])}
        w.dmd.set_dmd_grating_state(method=q["method"], **{k: v for k, v in kw.items() if not (isinstance(v, str) and v == "omit")})
        out["mirrors"] = w.dmd.dmd_state
    elif kind == "patch":
        w.dmd.dmd_state = np.zeros((Ny, Nx), float if q["method"] == "ideal" else bool)
        w.dmd.circular_patch(q["i"], q["j"], q["amp"], q["phin"], q["phout"], q["d"], method=q["method"])
        out["mirrors"] = w.dmd.dmd_state
    elif kind in ("decomp", "trivial"):
        m = np.random.default_rng(rng_seed + q["map"]).normal(size=[(9, 8), (9, 9), (8, 9)][q["shape"]])
        if kind == "trivial":
            out["cleaned"] = p.remove_trivial_phase(m, q["radius"] / 10, remove_defocus=q["defocus"])
        elif q["recon"]:
            out["coefficients"], out["reconstruction"] = p.zernike_decomposition(
                m, q["radius"] / 10, q["order"], reconstruct=True, extrapolate=q["extra"])
        else:
            out["coefficients"] = p.zernike_decomposition(m, q["radius"] / 10, q["order"])
    elif kind == "prop":
        s = w.sims[q["sim"]]
        if q["sim"] == 1:
            w.lcos.slm_state = w.phases * q["mask"]
        else:
            w.dmd.dmd_state = w.masks[q["mask"]]
        s.propagate_to_image(beam(q["beam"]))
        if q["block"] is not False and q["sim"] == 0:
            s.block_zeroth_order(None if q["block"] is None else q["block"] * w.LI)
        out = {n: getattr(s, n) for n in ("input_field", "output_field", "image_plane_field", "image_plane_intensity")}
        out["powers"] = [s.get_input_power(), s.get_output_power(), s.get_image_plane_power()]
    elif kind == "values":
        f = {"field": w.field, "sum": w.sum}.get(q["which"]) or w.prof[q["which"]]
        m = w.lcos if q["lcos"] else w.dmd
        if q["tensor"]:
            out["tensor"] = m.profile_to_tensor(f, at_fourier_plane=q["plane"], complex=q["complex"])
        else:
            out["values"] = f(*(m.fourier_plane_grid if q["plane"] else m.image_plane_grid))
    elif kind == "grids":
        s = w.sims[q["sim"]]
        out = {"grid %d" % n: a for n, a in enumerate(s.fourier_plane_padded_grid + s.image_plane_padded_grid + w.dmd.fourier_plane_grid
                                                      + w.dmd.image_plane_grid + w.lcos.image_plane_grid)}
    elif kind == "spot":
        t = np.zeros((Ny, Nx))
        t[q["i"] % Ny, q["j"] % Nx] = 1
        w.lcos.calculate_hologram(w.beams[q["beam"] % 2], t, method="gs", N=3)
        h = np.exp(1j * np.real(w.lcos.slm_state))
        out["hologram"] = h * np.conj(h[0, 0])
    return {"%s: %s" % (kind, n): np.array(v) for n, v in out.items()}


def world(c, env, n, nudge=0.0):
    w = World(env, {**c, "d": c["d2" if n else "d"]}, c["pair"][0]["prof"], False, nudge)
    rng = np.random.default_rng(c["seed"])
    Ny, Nx = c["shape"]
    w.beams = [(1.5 + rng.random((Ny, Nx))) * np.exp(1j * rng.normal(size=(Ny, Nx))) for _ in range(2)]
    w.beams = [b.astype(env.cplx) for b in w.beams]
    w.targets = [rng.random((Ny, Nx)).astype(env.real), w.target()]
    w.phases = rng.uniform(-3, 3, (Ny, Nx)).astype(env.real)
    w.masks = [rng.random((Ny, Nx)) < 0.5, rng.random((Ny, Nx)), rng.random((Ny, Nx)) < 0.7]
    w.soft = np.linspace(0.5, 1, Nx * Ny).reshape(Ny, Nx)
    w.shifted = w.prof["target"].shift(0.1 * w.LI, 0.0) + 0.25
    w.frame = w.prof["win"] + 0.25
    return w


class Elsewhere:
    """A second process that makes the same requests in the opposite order, while this one makes its own."""
    child = {}

    def __init__(self, env):
        self.pipe = self.child.get(env.dtype)
        if self.pipe is None or self.pipe.poll() is not None:
            self.pipe = self.child[env.dtype] = subprocess.Popen(
                [sys.executable, "-c", "from vlib import boot; boot.hypothesis_path(); from checks import c31; c31.serve(%r)" % env.dtype], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, c):
        pickle.dump(c, self.pipe.stdin)
        self.pipe.stdin.flush()

    def answer(self):
        return pickle.load(self.pipe.stdout)


def serve(dtype):
    from vlib import boot
    from vlib.core import Env
    from vlib.worker import from_sut
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    env = Env(*boot.load(dtype), dtype)
    while True:
        try:
            c = pickle.load(sys.stdin.buffer)
        except EOFError:
            os._exit(0)
        try:
            pool = variants(*c["pair"])
            ws, res = {}, [None] * len(pool)
            for n in reversed(range(len(pool))):
                q = pool[n]
                if q["w"] not in ws:
                    ws[q["w"]] = world(c, env, q["w"])
                res[n] = make(ws[q["w"]], q, c["seed"])
        except Exception as e:
            cause = e.__cause__ or e
            res = ("%s: %s" % (type(cause).__name__, " ".join(str(cause).split())[:300]), from_sut(cause))
        pickle.dump(res, out)
        out.flush()


def check_again(c, env, rec):
    c = {**c, "shape": tuple(c["shape"]), "prof": c["pair"][0]["prof"], "tf": False, "r": None}
    N = sum(c["shape"])
    pool = variants(*c["pair"])
    other = Elsewhere(env)
    other.ask(c)
    try:
        seen, again = forward(c, env, pool, N)
    finally:
        res = other.answer()
    if isinstance(res, tuple):
        if res[1]:
            raise Violation("requests in the opposite order raised %s" % res[0])
        raise RuntimeError(res[0])
    for n, r in enumerate(res):
        compare(r, seen[n], "requests of %s made in the opposite order in another process, request %d of %d" % (
            pool[n]["kind"], n, len(res)), env, N, again(n))
    rec.nt(len(pool) > 3)
    rec.label(c["pair"][0]["kind"] + " " + c["pair"][0].get("method", ""))


def forward(c, env, pool, N):
    rng = np.random.default_rng(c["seed"])
    order = [0]
    for n in rng.permutation(np.arange(1, len(pool))):
        order += [int(n), 0]
    order += [int(n) for n in rng.permutation(np.arange(1, len(pool)))] + [0]
    order.insert(len(order) // 2, len(pool))
    pool = pool + [c["extra"]]
    with sut("objects"):
        ws = {n: world(c, env, n) for n in {q["w"] for q in pool}}
    seen = {}

    def once(n, nudge=None):
        q = pool[n]
        return make(ws[q["w"]] if nudge is None else world(c, env, q["w"], nudge), q, c["seed"])

    def again(n):
        return lambda nudge: once(n, nudge)

    for k, n in enumerate(order):
        what = "request %d of %s" % (k, pool[n]["kind"])
        with sut(what):
            got = once(n)
        if n in seen:
            m = order[k - 1]
            diff = [q for q in pool[n] if pool[n].get(q) != pool[m].get(q)]
            compare(got, seen[n], "%s made again (the one before differed in %s)" % (what, diff), env, N, again(n))
        else:
            seen[n] = got
    return seen, again


SUBS = [
    Sub("history", case, check, 48, "histories of 2-10 operations on a modulator pair, three simulations and shared profiles, then 3-7 "
        "reproducible measurements against untouched objects of equal parameters, measured before and after; non-trivial = three "
        "different operations", shards=4),
    Sub("again", again_case, check_again, 136, "a complete request (parameters set, then hologram, grating, patch, decomposition, "
        "propagation, sampling) alternating with requests that differ from it in one argument each, on two modulator pairs of one "
        "shape: whenever a request is repeated its result is the same, and a second process "
        "that makes them in the opposite order gets the same; non-trivial = at least two different arguments", shards=4),
]
