"""C05 Life cycle of simulation results: a result is a snapshot of its own propagation, whatever happens around it."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, must_raise, need, same, sut

FIELDS = ("input_field", "output_field", "image_plane_field")
INTENS = ("input_intensity", "output_intensity", "image_plane_intensity")


def op():
    sim, slm = st.integers(0, 3), st.integers(0, 1)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("propagate"), "sim": sim, "beam": G.field(), "spoil": st.booleans(),
                               "how": G.HOW}),
        st.fixed_dictionaries({"op": st.just("propagate"), "sim": sim, "beam": G.field(), "spoil": st.booleans(),
                               "how": G.HOW}),
        st.fixed_dictionaries({"op": st.just("scalar"), "sim": sim, "v": G.fl(-2, 2)}),
        st.fixed_dictionaries({"op": st.just("state"), "slm": slm, "mask": G.mask(), "how": st.sampled_from(
            ["assign", "on", "off", "inplace", "grating"])}),
        st.fixed_dictionaries({"op": st.just("state"), "slm": slm, "mask": G.mask(), "how": st.sampled_from(
            ["assign", "on", "off", "inplace", "grating"])}),
        st.fixed_dictionaries({"op": st.just("state"), "slm": slm, "mask": G.mask(), "how": st.just("edit")}),
        st.fixed_dictionaries({"op": st.just("again"), "sim": sim, "scale": st.sampled_from([1.0, 1.0, -0.5])}),
        st.fixed_dictionaries({"op": st.just("again"), "sim": sim, "scale": st.sampled_from([1.0, 1.0, -0.5])}),
        st.fixed_dictionaries({"op": st.just("clear"), "sim": sim}),
        st.fixed_dictionaries({"op": st.just("block"), "sim": sim, "r": st.one_of(st.none(), G.fl(0.0, 0.7))}),
        st.fixed_dictionaries({"op": st.just("scribble"), "sim": sim, "which": st.sampled_from(FIELDS + INTENS)}),
        st.fixed_dictionaries({"op": st.just("new"), "slm": slm, "px": st.integers(0, 3), "py": st.integers(0, 3),
                               "base": st.booleans()}),
    )


def case():
    return st.fixed_dictionaries({
        "slms": st.lists(G.dmd_case(G.even(4, 12)), min_size=2, max_size=2), "tf": st.booleans(),
        "sims": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1,
                         max_size=3),
        "ops": st.one_of(st.lists(op(), min_size=1, max_size=3), st.lists(op(), min_size=8, max_size=16),
                         st.lists(op(), min_size=8, max_size=16))})


class Model:
    """What one simulation has to report."""

    def __init__(self, slm, px, py):
        self.slm, self.px, self.py = slm, px, py
        self.res = None
        self.last = None  # the object handed to the last propagation


def check(c, env, rec):
    tf = env.tf
    env.fft(c["tf"])
    slms, states, sims, models = [], [], [], []
    blocked_then = cleared = changed = repeated = 0
    with sut("construct"):
        for d in c["slms"]:
            slms.append(G.mk_dmd(env, d))
            states.append(np.zeros((d["Ny"], d["Nx"])))
    
    def new(k, px, py, base=False):
        cls = env.p.SLMSimulation if base else env.p.DMDSimulation
        with sut("new simulation"):
            sims.append(cls(slms[k], padding_x=px, padding_y=py))
        models.append(Model(k, px, py))
        models[-1].base = base

    for k, px, py in c["sims"]:
        new(k, px, py)

    def verify(k, what):
        sim, m = sims[k], models[k]
        d = c["slms"][m.slm]
        with sut(what + ": reading fields"):
            got = [getattr(sim, a) for a in FIELDS]
            its = [getattr(sim, a) for a in INTENS]
        if m.res is None:
            need(all(g is None for g in got) and all(g is None for g in its),
                 "%s: simulation %d reports a result although nothing was propagated since it was cleared", what, k)
            return
        ei, eo, ef, zero = m.res
        scale = np.abs(ei).sum() * d["pix"] ** 2 / (d["wl"] * d["f"]) + 1e-300
        e = np.abs(ei).max()
        close(got[0], ei, 4 * env.eps * e, "%s: simulation %d input field" % (what, k))
        close(got[1], eo, 16 * env.eps * e, "%s: simulation %d output field" % (what, k))
        tol = 60 * env.eps * scale
        edge = zero[1]
        ft = np.where(zero[0], 0, ef)
        close(got[2], ft, np.where(edge, np.inf, np.where(zero[0], 0.0, tol)), "%s: simulation %d image field" % (what, k))
        close(its[0], np.abs(ei) ** 2, 32 * env.eps * e * e, "%s: simulation %d input intensity" % (what, k))
        close(its[1], np.abs(eo) ** 2, 64 * env.eps * e * e, "%s: simulation %d output intensity" % (what, k))
        close(its[2], np.abs(ft) ** 2, np.where(edge, np.inf, 4 * tol * scale),
              "%s: simulation %d image intensity" % (what, k))
        # the powers are those of the fields just read, whenever they are asked for
        with sut(what + ": reading powers"):
            pw = [float(sim.get_input_power()), float(sim.get_output_power()), float(sim.get_image_plane_power())]
            area = [float(sim.fourier_plane_pixel_area)] * 2 + [float(sim.image_plane_pixel_area)]
        for name, f, w, a in zip(FIELDS, got, pw, area):
            ref = (np.abs(np.asarray(f, complex)) ** 2).sum() * a
            close(w, ref, 200 * env.eps * ref + 1e-300, "%s: simulation %d power of the %s" % (what, k, name))

    for n, o in enumerate(c["ops"]):
        what = "after op %d (%s)" % (n, o["op"])
        if o["op"] == "new":
            if len(sims) < 4:
                new(o["slm"], o["px"], o["py"], o["base"])
        elif o["op"] == "state":
            k = o["slm"]
            d = c["slms"][k]
            m = G.build_mask(o["mask"], d["Ny"], d["Nx"])
            with sut(what):
                if o["how"] == "assign":
                    slms[k].dmd_state = m
                elif o["how"] == "on":
                    slms[k].set_dmd_state_on()
                    m = np.ones_like(m)
                elif o["how"] == "off":
                    slms[k].set_dmd_state_off()
                    m = np.zeros_like(m)
                elif o["how"] == "edit":
                    # single mirrors of the current state, the array object stays
                    a = slms[k].dmd_state
                    a[m] = 1 - a[m]
                    m = np.array(a)
                elif o["how"] == "inplace":
                    slms[k].set_dmd_state_on()
                    slms[k].dmd_state[~m] = False
                else:
                    slms[k].set_dmd_grating_state(amp=1.0, method="simple")
                    m = np.array(slms[k].dmd_state)
            states[k] = m.astype(float)
            changed += any(md.slm == k and md.res is not None for md in models)
        else:
            k = o["sim"] % len(sims)
            sim, m = sims[k], models[k]
            d = c["slms"][m.slm]
            Nx, Ny = d["Nx"], d["Ny"]
            if o["op"] == "again" and m.last is None:
                continue
            if o["op"] in ("propagate", "scalar", "again"):
                if o["op"] == "again":
                    # the same object once more, with whatever its buffer holds now
                    arg = m.last
                    if isinstance(arg, np.ndarray):
                        arg *= o["scale"]
                    E = np.broadcast_to(np.asarray(arg, env.cplx).astype(complex), (Ny, Nx)).copy()
                    repeated += 1
                    with sut(what):
                        sim.propagate_to_image(arg)
                elif o["op"] == "scalar":
                    m.last = o["v"]
                    E = np.full((Ny, Nx), env.r(o["v"]), complex)
                    with sut(what):
                        sim.propagate_to_image(o["v"])
                else:
                    E = env.c(G.build_field(o["beam"], Ny, Nx))
                    given = E.astype(env.cplx)
                    arg = tf.constant(given) if o["how"] == "tensor" else given
                    m.last = arg
                    with sut(what):
                        sim.propagate_to_image(arg)
                    if o["spoil"]:
                        given[...] = 7.0  # the caller reuses its buffer
                eo = O.pad(E * states[m.slm], m.px, m.py)
                ef = O.propagate(eo, d["pix"], d["wl"] * d["f"])
                no = np.zeros(ef.shape, bool)
                cleared += m.res is None and n > 0
                m.res = [O.pad(E, m.px, m.py), eo, ef, (no, no)]
            elif o["op"] == "clear":
                with sut(what):
                    sim.clear()
                m.res = None
            elif o["op"] == "block":
                if m.base:
                    continue
                if m.res is None:
                    must_raise(what + ": block_zeroth_order without a result", lambda: sim.block_zeroth_order(), TypeError)
                else:
                    X, Y = O.image_grid(Nx + 2 * m.px, Ny + 2 * m.py, d["pix"], d["wl"] * d["f"])
                    R = np.hypot(X, Y)
                    top = np.abs(X).max()
                    r = d["wl"] * d["f"] / (d["period"] * d["pix"]) / 2 if o["r"] is None else o["r"] * top
                    with sut(what):
                        sim.block_zeroth_order() if o["r"] is None else sim.block_zeroth_order(r)
                    z, e = m.res[3]
                    zero = R < r
                    near = np.abs(R - r) < 1e-5 * (r + 1e-30)
                    z = z | (zero & ~near)
                    m.res[3] = (z, (e | near) & ~z)
                    blocked_then += 1
            elif o["op"] == "scribble":
                with sut(what):
                    a = getattr(sim, o["which"])
                if a is not None and a.flags.writeable:
                    a[...] = 13
        for q in range(len(sims)):
            verify(q, what)
    rec.nt(changed > 0 or blocked_then > 0)
    rec.label("state changed under a result" if changed else "", "blocked" if blocked_then else "",
              "propagated after clear" if cleared else "", "same input again" if repeated else "", "several sims" if len(sims) > 1 else "one sim",
              "shared slm" if len({m.slm for m in models}) < len(models) else "")


SUBS = [
    Sub("history", case, check, 800, "histories of propagate, clear, block, modulator changes and buffer reuse over 1-4 "
        "simulations of 2 modulators, all results compared with a model after every step; non-trivial = the modulator "
        "changed under a stored result or a block"),
]
