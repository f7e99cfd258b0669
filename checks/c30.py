"""C30 Nothing is shared by accident: inputs stay as they were, results are the caller's, devices do not influence each other."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, same, sut

FIELDS = ["input_field", "output_field", "image_plane_field", "input_intensity", "output_intensity",
          "image_plane_intensity"]
GRIDS = ["fourier_plane_grid", "image_plane_grid"]


def op():
    k = st.integers(0, 3)
    beam = G.field(True)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("grids"), "k": k, "which": st.integers(0, 1), "scribble": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("simgrids"), "k": k, "which": st.integers(0, 1), "scribble": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("grating"), "k": k, "amp": G.field(real=True), "phase": beam,
                               "method": st.sampled_from(["ideal", "simple", "random"])}),
        st.fixed_dictionaries({"op": st.just("matched"), "k": k, "beam": beam, "w": G.fl(0.1, 0.5),
                               "method": st.sampled_from(["ideal", "simple", "random", "ifta"])}),
        st.fixed_dictionaries({"op": st.just("patch"), "k": k, "i": G.fl(0, 1), "j": G.fl(0, 1), "dia": G.fl(1, 8),
                               "phase": beam}),
        st.fixed_dictionaries({"op": st.just("assign"), "k": k, "mask": G.mask()}),
        st.fixed_dictionaries({"op": st.just("onoff"), "k": k, "on": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("lcos"), "k": k, "beam": beam, "w": G.fl(0.1, 0.5), "method": st.sampled_from(
            ["gs", "mraf"])}),
        st.fixed_dictionaries({"op": st.just("lcosreset"), "k": k}),
        st.fixed_dictionaries({"op": st.just("propagate"), "k": k, "beam": beam, "scribble": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("scribble"), "k": k, "which": st.integers(0, 5)}),
        st.fixed_dictionaries({"op": st.just("edit"), "k": k, "p": G.seeds}))


def case():
    dev = st.tuples(G.dmd_case(G.even(4, 10)), st.booleans(), st.integers(0, 2), st.integers(0, 2)).map(list)
    return st.fixed_dictionaries({"devs": st.lists(dev, min_size=2, max_size=3), "twin": st.booleans(), "tf": st.booleans(),
                                  "ops": st.lists(op(), min_size=2, max_size=9)})


def check(c, env, rec):
    env.fft(c["tf"])
    devs = list(c["devs"])
    if c["twin"]:
        # the same parameters again: equal devices are still different devices
        devs.append(devs[0])
    with sut("construct"):
        slms = [G.mk_dmd(env, d) if is_dmd else G.mk_lcos(env, d) for d, is_dmd, _, _ in devs]
        sims = [(env.p.DMDSimulation if is_dmd else env.p.SLMSimulation)(s, padding_x=px, padding_y=py)
                for s, (d, is_dmd, px, py) in zip(slms, devs)]

    def state(k):
        return np.array(slms[k].dmd_state if devs[k][1] else slms[k].slm_state)

    snap = [state(k) for k in range(len(slms))]
    results = [None] * len(slms)
    touched = set()
    scribbled = 0
    for n, o in enumerate(c["ops"]):
        k = o["k"] % len(slms)
        d, is_dmd, px, py = devs[k]
        slm, sim = slms[k], sims[k]
        Nx, Ny, pix, sf = d["Nx"], d["Ny"], d["pix"], d["wl"] * d["f"]
        what = "operation %d (%s)" % (n, o["op"])
        inputs = []

        def give(a):
            a = np.ascontiguousarray(a)
            inputs.append((a, a.copy()))
            return a

        kind, mine = o["op"], False
        if kind in ("grating", "matched", "patch", "assign", "onoff") and not is_dmd:
            kind = "lcos" if kind == "matched" else "lcosreset"
        elif kind in ("lcos", "lcosreset") and is_dmd:
            kind = "grids"
        with sut(what):
            if kind in ("grids", "simgrids"):
                w = o.get("which", 0)
                obj = slm if kind == "grids" else sim
                name = GRIDS[w] if kind == "grids" else ("fourier_plane_padded_grid", "image_plane_padded_grid")[w]
                qx, qy = (0, 0) if kind == "grids" else (px, py)
                for _ in range(2):
                    x, y = getattr(obj, name)
                    ex, ey = O.fourier_grid(Nx, Ny, pix, qx, qy) if w == 0 else O.image_grid(Nx + 2 * qx, Ny + 2 * qy, pix, sf)
                    close(x, ex, 20 * env.eps * np.abs(ex).max() + 1e-37, what + ": x of " + name)
                    close(y, ey, 20 * env.eps * np.abs(ey).max() + 1e-37, what + ": y of " + name)
                    if o.get("scribble"):
                        for a in (x, y):
                            if a.flags.writeable:
                                a[...] = 7
                        scribbled += 1
            elif kind == "grating":
                a = give(np.clip(np.abs(G.build_field(o["amp"], Ny, Nx)) / 4, 0, 1).astype(env.real))
                p = give(np.angle(G.build_field(o["phase"], Ny, Nx)).astype(env.real))
                q = give(np.zeros((Ny, Nx), env.real))
                slm.set_dmd_grating_state(amp=a, phase_in=q, phase_out=p, method=o["method"])
                mine = True
            elif kind == "matched":
                X, Y = O.image_grid(Nx, Ny, pix, sf)
                E = give(G.build_field(o["beam"], Ny, Nx).astype(env.cplx))
                T = give(np.exp(-(X ** 2 + Y ** 2) / (o["w"] * sf / pix) ** 2).astype(env.cplx))
                kw = {}
                if o["method"] == "ifta":
                    kw = {"signal_window": give(np.hypot(X, Y) < sf / pix / 3), "N": 2}
                kept = dict(kw)
                slm.calculate_dmd_state(E, T, method=o["method"], **kw)
                need(kw.keys() == kept.keys() and all(kw[q] is kept[q] for q in kw), "%s: the caller's options changed", what)
                mine = True
            elif kind == "patch":
                p = give(np.angle(G.build_field(o["phase"], Ny, Nx)).astype(env.real))
                old = slm.dmd_state
                oldcopy = old.copy()
                slm.circular_patch(o["i"] * Ny, o["j"] * Nx, 1.0, 0.0, p, o["dia"], method="simple")
                same(old, oldcopy, what + ": the state array held by the caller")
                mine = True
            elif kind == "assign":
                slm.dmd_state = G.build_mask(o["mask"], Ny, Nx)
                mine = True
            elif kind == "onoff":
                slm.set_dmd_state_on() if o["on"] else slm.set_dmd_state_off()
                mine = True
            elif kind == "lcos":
                X, Y = O.image_grid(Nx, Ny, pix, sf)
                E = give(G.build_field(o["beam"], Ny, Nx).astype(env.cplx))
                T = give(np.exp(-(X ** 2 + Y ** 2) / (o["w"] * sf / pix) ** 2).astype(env.real))
                kw = {"N": 2}
                method = "mraf" if o["method"] in ("mraf", "ifta") else "gs"
                if method == "mraf":
                    kw["signal_window"] = give((np.hypot(X, Y) < sf / pix / 3).astype(env.real))
                slm.calculate_hologram(E, T, method=method, **kw)
                mine = True
            elif kind == "lcosreset":
                slm.reset_slm_state()
                need(np.shape(slm.slm_state) == (Ny, Nx) and not np.any(slm.slm_state), "%s: state after the reset", what)
                mine = True
            elif kind == "edit":
                a = slm.dmd_state if is_dmd else slm.slm_state
                i, j = o["p"] % Ny, (o["p"] // 11) % Nx
                a[i, j] = not a[i, j] if is_dmd else 1.25
                mine = True
            elif kind == "scribble":
                # results belong to whoever asked for them
                a = getattr(sim, FIELDS[o["which"]])
                if a is not None and a.flags.writeable:
                    a[...] = 9
                    scribbled += 1
                    same(getattr(sim, FIELDS[o["which"]]), results[k][o["which"]], what + ": " + FIELDS[o["which"]])
            else:
                E = give(G.build_field(o["beam"], Ny, Nx).astype(env.cplx))
                sim.propagate_to_image(E)
                results[k] = [np.array(getattr(sim, q)) for q in FIELDS]
                if o["scribble"]:
                    E[...] = 5  # the buffer is reused
                    inputs.pop()
        for a, b in inputs:
            same(a, b, what + ": an array handed in")
        if mine:
            touched.add(k)
            snap[k] = state(k)
            need(snap[k].shape == (Ny, Nx), "%s: the state has shape %s", what, snap[k].shape)
        for q in range(len(slms)):
            with sut(what):
                same(state(q), snap[q], "%s on device %d: the state of device %d" % (what, k, q))
                if results[q] is not None:
                    for b, name in zip(results[q], FIELDS):
                        same(getattr(sims[q], name), b, "%s on device %d: the %s stored for device %d" % (what, k, name, q))
                dq = devs[q][0]
                need((slms[q].Nx, slms[q].Ny) == (dq["Nx"], dq["Ny"]), "%s: device %d changed its size", what, q)
    # at the end every device still has its own coordinates
    for q, (dq, is_dmd, px, py) in enumerate(devs):
        with sut("grids at the end"):
            x, y = slms[q].fourier_plane_grid
            u, v = sims[q].image_plane_padded_grid
        ex, ey = O.fourier_grid(dq["Nx"], dq["Ny"], dq["pix"])
        close(x, ex, 20 * env.eps * np.abs(ex).max() + 1e-37, "Fourier grid of device %d" % q)
        close(y, ey, 20 * env.eps * np.abs(ey).max() + 1e-37, "Fourier grid of device %d" % q)
        eu, ev = O.image_grid(dq["Nx"] + 2 * px, dq["Ny"] + 2 * py, dq["pix"], dq["wl"] * dq["f"])
        close(u, eu, 20 * env.eps * np.abs(eu).max() + 1e-37, "padded image grid of simulation %d" % q)
        close(v, ev, 20 * env.eps * np.abs(ev).max() + 1e-37, "padded image grid of simulation %d" % q)
    rec.nt(len(touched) > 1 or scribbled > 0)
    rec.label("identical twin" if c["twin"] else "", "scribbled" if scribbled else "", "mixed devices" if len(
        {q[1] for q in devs}) == 2 else "", "results held" if any(r is not None for r in results) else "")


def states_case():
    k = st.integers(0, 3)
    o = st.one_of(
        st.tuples(st.just("on"), k, st.just(0)), st.tuples(st.just("off"), k, st.just(0)),
        st.tuples(st.just("edit"), k, G.seeds), st.tuples(st.just("edit"), k, G.seeds), st.tuples(st.just("edit"), k, G.seeds),
        st.tuples(st.just("assign"), k, G.seeds), st.tuples(st.just("reset"), k, st.just(0)),
        st.tuples(st.just("pack"), k, st.just(0)), st.tuples(st.just("flat"), k, G.seeds)).map(list)
    # few sizes, so that devices often have the same one
    return st.fixed_dictionaries({"devs": st.lists(st.sampled_from([0, 1, 2, 3]), min_size=2, max_size=4),
                                  "ops": st.lists(o, min_size=2, max_size=8)})


def check_states(c, env, rec):
    """Only the modulator states: single mirrors edited, everything switched, other devices of the same size watched."""
    Nx, Ny = 4, 3
    with sut("construct"):
        dev = [env.p.LCOS_SLM(1e-6, 0.1, Nx, Ny, 1e-5) if d == 3 else
               env.p.DMD(1e-6, 0.1, 4, 0.1, Nx, Ny + (d == 1), 1e-5) for d in c["devs"]]
    lcos = [d == 3 for d in c["devs"]]
    get = lambda q: dev[q].slm_state if lcos[q] else dev[q].dmd_state
    model = [np.array(get(q)) for q in range(len(dev))]
    for q, m in enumerate(model):
        need(not np.any(m) and m.shape == (dev[q].Ny, Nx), "a new device starts with state %s", m)
    edited = 0
    for n, (op, k, v) in enumerate(c["ops"]):
        k %= len(dev)
        s = dev[k]
        what = "operation %d (%s) on device %d" % (n, op, k)
        with sut(what):
            if op == "edit":
                a = get(k)
                i, j = v % s.Ny, (v // 7) % Nx
                a[i, j] = 1 if not a[i, j] else 0
                model[k][i, j] = a[i, j]
                edited += 1
            elif op == "assign" and not lcos[k]:
                m = np.random.default_rng(v).random((s.Ny, Nx)) < 0.5
                s.dmd_state = m
                model[k] = m.copy()
            elif op in ("on", "off", "reset"):
                if lcos[k]:
                    s.reset_slm_state()
                    model[k] = np.zeros((s.Ny, Nx))
                elif op == "on":
                    s.set_dmd_state_on()
                    model[k] = np.ones((s.Ny, Nx), bool)
                else:
                    s.set_dmd_state_off()
                    model[k] = np.zeros((s.Ny, Nx), bool)
            elif op == "pack" and not lcos[k]:
                b = s.pack_dmd_state()
                need(np.array_equal(np.frombuffer(b, np.uint8) if isinstance(b, bytes) else np.ravel(b),
                                    np.packbits(model[k])), "%s: packed bits", what)
            elif op == "flat" and not lcos[k]:
                s.set_dmd_grating_state(amp=(v % 2) * 1.0, method="simple")
                model[k] = np.array(s.dmd_state)
        for q in range(len(dev)):
            same(get(q), model[q], what + ": the state of device %d" % q)
    rec.nt(edited > 0)


def prof_case():
    return st.fixed_dictionaries({"n": st.integers(5, 20), "seed": G.seeds, "kind": st.sampled_from(["hg", "zern", "const", "sum"]),
                                  "R": G.fl(2, 8)})


def check_prof(c, env, rec):
    """Arrays returned by profiles and by the analysis belong to the caller."""
    g = np.random.default_rng(c["seed"])
    x, y = (g.uniform(-2, 2, (c["n"], c["n"] + 1)).astype(env.real) for _ in "xy")
    kx, ky = x.copy(), y.copy()
    with sut("evaluate"):
        p = {"hg": lambda: env.p.HermiteGaussian(0, 0, 1, 1, n=1), "zern": lambda: env.p.Zernike(1, 2, 2, 2),
             "const": lambda: env.p.ConstantProfile(1.5) * env.p.SuperGaussian(0, 0, 1, 1),
             "sum": lambda: env.p.SuperGaussian(0, 0, 1, 1) + 2.0}[c["kind"]]()
        a = p(x, y)
        b = np.array(a)
        if a.flags.writeable:
            a[...] = -9
        same(p(x, y), b, "the profile after its last result was overwritten")
        same(x, kx, "x coordinates handed in")
        same(y, ky, "y coordinates handed in")
        p2 = p.shift(0.1, 0.2).rotate(0.3)
        p2(x, y)
        (p + p2)(x, y)
        (-p)(x, y)
        same(p(x, y), b, "the profile after others were derived from it")
        m = g.normal(size=(c["n"] + 6, c["n"] + 9))
        mk = m.copy()
        r = env.p.remove_trivial_phase(m, c["R"])
        need(not np.shares_memory(r, m), "the cleaned phase map shares memory with the original")
        env.p.zernike_decomposition(m, c["R"], 3, reconstruct=True)
        same(m, mk, "the phase map handed in")
    rec.nt(True)


def res_case():
    o = st.one_of(st.tuples(st.just("propagate"), st.integers(0, 1), st.integers(0, 2)),
                  st.tuples(st.just("scribble"), st.integers(0, 1), st.integers(0, 7)),
                  st.tuples(st.just("scribble"), st.integers(0, 1), st.integers(0, 7)),
                  st.tuples(st.just("read"), st.integers(0, 1), st.integers(0, 7)),
                  st.tuples(st.just("block"), st.integers(0, 1), st.integers(0, 2))).map(list)
    return st.fixed_dictionaries({
        "d": G.dmd_case(G.even(2, 8)), "beams": st.lists(G.field(True), min_size=3, max_size=3), "px": st.integers(0, 1),
        "tf": st.booleans(), "base": st.booleans(), "ops": st.lists(o, min_size=3, max_size=8)})


def check_res(c, env, rec):
    """Everything a simulation hands out may be overwritten: the next reading is the same as before."""
    d = c["d"]
    env.fft(c["tf"])
    names = FIELDS + ["fourier_plane_padded_grid", "image_plane_padded_grid"]
    with sut("construct"):
        slm = G.mk_dmd(env, d)
        slm.set_dmd_state_on()
        cls = env.p.SLMSimulation if c["base"] else env.p.DMDSimulation
        sims = [cls(slm, padding_x=c["px"]), cls(slm)]

    def read(k, n):
        v = getattr(sims[k], names[n])
        return v if n > 5 or v is None else (v,)

    snap = [{}, {}]
    hit = 0
    for n, (op, k, v) in enumerate([["propagate", 0, 0]] + c["ops"]):
        what = "operation %d (%s %d) on simulation %d" % (n, op, v, k)
        with sut(what):
            if op == "propagate" or (op == "block" and not c["base"] and snap[k]):
                if op == "block":
                    sims[k].block_zeroth_order()
                else:
                    sims[k].propagate_to_image(G.build_field(c["beams"][v], d["Ny"], d["Nx"]).astype(env.cplx))
                order = sorted(range(8), key=lambda q: (q * 5 + v) % 8)
                snap[k] = {q: [np.array(a) for a in read(k, q)] for q in order}
            elif op == "scribble":
                vals = read(k, v)
                if vals is not None:
                    for a in vals:
                        if a.flags.writeable:
                            a[...] = -3
                            hit += v in snap[k]
        for q in ([v] if op in ("scribble", "read") else []):
            with sut(what):
                vals = read(k, q)
            if q in snap[k]:
                for a, b in zip(vals, snap[k][q]):
                    same(a, b, what + ": " + names[q])
    for k in (0, 1):
        for q in snap[k]:
            with sut("reading at the end"):
                vals = read(k, q)
            for a, b in zip(vals, snap[k][q]):
                same(a, b, "at the end, %s of simulation %d" % (names[q], k))
    rec.nt(hit > 0)


SUBS = [
    Sub("results", res_case, check_res, 480, "histories of propagations, readings and overwritten results on two simulations of "
        "one modulator; non-trivial = a result overwritten"),
    Sub("devices", case, check, 360, "histories over 2-4 devices and their simulations, every state, result and input compared "
        "after every operation; non-trivial = two devices changed or a returned grid overwritten"),
    Sub("states", states_case, check_states, 1600, "histories of edits and switches over 2-4 devices, mostly of equal size; "
        "non-trivial = a mirror edited in place"),
    Sub("arrays", prof_case, check_prof, 80, "profiles and analysis; every case counts"),
]
