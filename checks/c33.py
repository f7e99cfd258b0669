"""C33 A call that is refused changes nothing."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib.core import Sub, must_raise, need, same, sut
from checks.c31 import SHAPES, World, compare, op, prof

FIELDS = ["input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity", "image_plane_intensity"]
PROBES = ["ideal", "profiles", "patch", "grating", "prop", "propprof", "block", "lprop", "lgrids", "values", "origin", "pack", "spot",
          "powers"]
# what is refused
BAD = ["prop shape", "prop shape", "prop shape", "prop none", "prop text", "prop rank", "method", "gmethod", "pmethod", "lmethod",
       "ifta no window", "mraf no window", "target shape", "input shape", "window shape", "ifta window shape", "grating shape",
       "patch shape", "patch centre", "random r", "ifta N", "mraf shape", "gs shape", "gs N", "block early", "block r", "pack grey",
       "sim type", "sim padding", "dmdsim type", "param text", "param vector", "zernike index", "expression", "late precision",
       "eval shape", "derive"]


def case():
    bad = st.tuples(st.sampled_from(BAD), st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({
        "shape": st.sampled_from(SHAPES), "d": G.dmd_case(st.just(6)), "pad": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list),
        "prof": prof(), "zj": st.integers(0, 14), "tf": st.booleans(), "ops": st.lists(op(), min_size=0, max_size=4),
        "bad": st.lists(bad, min_size=1, max_size=5), "probes": st.lists(st.sampled_from(PROBES), min_size=1, max_size=3, unique=True),
        "beam": G.field(True), "mask": G.mask(), "seed": G.seeds, "r": st.one_of(st.none(), G.fl(0.0, 0.5)), "first": st.booleans()})


def attempt(w, name, v):
    """A thunk that has to raise, or None if it does not apply now."""
    env, p = w.env, w.env.p
    Ny, Nx = w.c["shape"]
    dmd, lcos, sims = w.dmd, w.lcos, w.sims
    E, T = w.arrays(w.c), w.target()
    sim = sims[v % 3]
    wrong = np.ones([(Ny + 1, Nx + 2), (Nx + 3, Ny + 4), (Ny + 2, Nx), (Ny, Nx - 1)][v % 4])
    if v % 2:
        wrong = env.tf.constant(wrong.astype(env.cplx))
    real = np.real(np.asarray(wrong))
    bad = ("", "randm", "IDEAL", "gs")[v % 4]
    return {
        "prop shape": lambda: sim.propagate_to_image(wrong),
        "prop none": lambda: sim.propagate_to_image(None),
        "prop text": lambda: sim.propagate_to_image("beam"),
        "prop rank": lambda: sim.propagate_to_image(np.ones(Nx + 1)),
        "method": lambda: dmd.calculate_dmd_state(E, T, method=bad),
        "gmethod": lambda: dmd.set_dmd_grating_state(0.5, method=bad),
        "pmethod": lambda: dmd.circular_patch(*((2, 2), (-50, 2), (2, 90), (1, 3))[v % 4], 1, 0, 0, 3, method=bad),
        "lmethod": lambda: lcos.calculate_hologram(E, np.abs(T), method=("", "GS", "ifta", "random")[v % 4]),
        "ifta no window": lambda: dmd.calculate_dmd_state(E, T, method="ifta"),
        "mraf no window": lambda: lcos.calculate_hologram(E, np.abs(T), method="mraf"),
        "target shape": lambda: dmd.calculate_dmd_state(E, wrong, method=("ideal", "simple", "random", "ideal")[v % 4]),
        "input shape": lambda: dmd.calculate_dmd_state(wrong, T, method=("ideal", "simple", "random", "ideal")[v % 4]),
        "window shape": lambda: dmd.calculate_dmd_state(E, T, method="ideal", window=wrong),
        "ifta window shape": lambda: dmd.calculate_dmd_state(E, T, method="ifta", signal_window=wrong, N=2),
        "grating shape": lambda: dmd.set_dmd_grating_state(real, method="ideal"),
        "patch shape": lambda: dmd.circular_patch(2, 2, 1, 0, real, 3, method="ideal"),
        "patch centre": lambda: dmd.circular_patch("a", 2, 1, 0, 0, 3, method="ideal"),
        "random r": lambda: dmd.calculate_dmd_state(E, T, method="random", r="steep"),
        "ifta N": lambda: dmd.calculate_dmd_state(E, T, method="ifta", signal_window=w.W, N="many"),
        "mraf shape": lambda: lcos.calculate_hologram(E, np.abs(T), method="mraf", signal_window=wrong, N=2),
        "gs shape": lambda: lcos.calculate_hologram(E, real, method="gs", N=2),
        "gs N": lambda: lcos.calculate_hologram(E, np.abs(T), method="gs", N="many"),
        "block early": None if sims[0].output_field is not None else lambda: sims[0].block_zeroth_order(),
        "block r": None if sims[0].output_field is None else lambda: sims[0].block_zeroth_order("wide"),
        "pack grey": None if np.asarray(dmd.dmd_state).dtype == bool else lambda: dmd.pack_dmd_state(),
        "sim type": lambda: p.SLMSimulation((None, E, sims[0], "dmd")[v % 4]),
        "sim padding": lambda: p.SLMSimulation(dmd, **{("padding_x", "padding_y")[v % 2]: (1.0, "1", None, 2.5)[v % 4]}),
        "dmdsim type": lambda: p.DMDSimulation((lcos, None, sims[0], "dmd")[v % 4]),
        "param text": lambda: setattr(w.prof["beam"], ("w", "a", "x0", "y0")[v % 4], "wide"),
        "param vector": lambda: setattr(w.prof["target"], ("w", "a", "x0", "p")[v % 4], np.ones(3)),
        "zernike index": lambda: p.Zernike(1.0, 1.0, *((2, 1), (1, 3), (3, -5), (-1, 1))[v % 4]),
        "expression": lambda: (w.field + "x", w.field * None, w.field / [1])[v % 3],
        "late precision": lambda: setattr(p.BACKEND, "dtype", (env.tf.float32, env.tf.float64, "float16", None)[v % 4]),
        "eval shape": lambda: w.prof["beam"](np.ones((2, 3)), np.ones((4, 5))),
        "derive": lambda: (w.prof["beam"].shift, w.prof["beam"].rescale_x, w.prof["beam"].rotate)[v % 3](*(["a", 0.0] if v % 3 == 0 else
                                                                                                            ["a"])),
    }[name]


def snapshot(w):
    out = {"mirrors": np.array(w.dmd.dmd_state), "phases": np.array(w.lcos.slm_state)}
    for n, s in enumerate(w.sims):
        for q in FIELDS:
            out["%s of simulation %d" % (q, n)] = getattr(s, q)
        out["size of simulation %d" % n] = np.array([s.Nx, s.Ny, s.padding_x, s.padding_y])
    for k in ("beam", "target", "win"):
        for q in ("x0", "y0", "w", "a", "r", "p"):
            if hasattr(w.prof[k], q):
                out["%s of the %s profile" % (q, k)] = np.array(getattr(w.prof[k], q))
    out["order"] = np.array(w.dmd.negative_order)
    out["origin"] = np.array(w.dmd.first_order_origin)
    out["precision"] = np.array(w.env.p.BACKEND.dtype.name)
    out["FFT"] = np.array(str(w.env.p.BACKEND.fft_backend))
    return out


def check(c, env, rec):
    c = {**c, "shape": tuple(c["shape"])}
    prof_, neg, ft = {k: dict(v) for k, v in c["prof"].items()}, c["d"]["neg"], c["tf"]
    for o in c["ops"]:
        if isinstance(o, list):
            if o[0] == "setp":
                prof_[o[1]][o[2]] = o[3]
            elif o[0] == "order":
                neg = o[1]
            elif o[0] == "fft":
                ft = o[1]
    env.fft(ft)
    with sut("fresh objects"):
        want = World(env, c, prof_, neg)
        want = {k: want.probe(k) for k in c["probes"]}
    env.fft(c["tf"])
    with sut("objects"):
        w = World(env, c, c["prof"], c["d"]["neg"])
        for o in c["ops"]:
            w.act(o)
        snap = snapshot(w)
    tried = []

    def refuse():
        for name, v in c["bad"]:
            call = attempt(w, name, v)
            if call is None:
                continue
            what = "%s (%d)" % (name, v)
            must_raise(what, call)
            tried.append(name)
            with sut("after the refused call " + what):
                now = snapshot(w)
            for q, b in snap.items():
                if b is None or now[q] is None:
                    need(b is None and now[q] is None, "after the refused call %s: %s was %s, now %s", what, q,
                         "missing" if b is None else "there", "missing" if now[q] is None else "there")
                else:
                    need(now[q].dtype == b.dtype, "after the refused call %s: type of %s", what, q)
                    if b.dtype.kind in "US":
                        need(str(b) == str(now[q]), "after the refused call %s: %s was %s, now %s", what, q, b, now[q])
                    elif not (b.dtype.kind in "fc" and np.array_equal(b, now[q], equal_nan=True)):
                        same(now[q], b, "after the refused call %s: %s" % (what, q))

    refuse()
    for k in c["probes"]:
        with sut("%s after refused calls" % k):
            got = w.probe(k)
            if c["first"]:
                # refused calls between the valid ones
                snap = snapshot(w)
                refuse()
        compare(got, want[k], "after the refused calls %s" % tried, env, sum(c["shape"]), lambda nudge: World(
            env, c, prof_, neg, nudge).probe(k))
    rec.nt(bool(tried))
    rec.label(*tried)


SUBS = [
    Sub("refused", case, check, 360, "up to 4 valid operations, 1-5 refused calls of 35 kinds with every state, result and parameter "
        "compared before and after each, then 1-3 measurements against untouched objects; non-trivial = a call refused", shards=4),
]
