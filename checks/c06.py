"""C06 Zeroth-order block."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, must_raise, need, same, sut


def case():
    return st.fixed_dictionaries({
        "dmd": G.dmd_case(G.size(2, 26)), "beam": G.field(nonzero=True), "mask": G.mask(), "px": G.pad(8),
        "py": G.pad(8), "rs": st.lists(st.one_of(st.none(), G.fl(0.0, 1.2), st.sampled_from([0.0])), min_size=1,
                                               max_size=3), "tf": st.booleans()})


def check(c, env, rec):
    d = c["dmd"]
    env.fft(c["tf"])
    sf = d["wl"] * d["f"]
    with sut("construct"):
        dmd = G.mk_dmd(env, d)
        sim = env.p.DMDSimulation(dmd, padding_x=c["px"], padding_y=c["py"])
    must_raise("block before any propagation", lambda: sim.block_zeroth_order(), TypeError)
    with sut("propagate"):
        m = G.build_mask(c["mask"], d["Ny"], d["Nx"])
        if not m.any():
            m[0, 0] = True
        dmd.dmd_state = m
        sim.propagate_to_image(G.build_field(c["beam"], d["Ny"], d["Nx"]).astype(env.cplx))
        before = sim.image_plane_field
        ins, outs = sim.input_field, sim.output_field
        X, Y = sim.image_plane_padded_grid
    EX, EY = O.image_grid(d["Nx"] + 2 * c["px"], d["Ny"] + 2 * c["py"], d["pix"], sf)
    R = np.hypot(EX, EY)
    top = max(R.max(), 1e-30)
    cur = before
    hit = False
    for r in c["rs"]:
        radius = sf / (d["period"] * d["pix"]) / 2 if r is None else r * top
        with sut("block_zeroth_order(%s)" % r):
            sim.block_zeroth_order() if r is None else sim.block_zeroth_order(radius)
            after = sim.image_plane_field
        need(after.dtype == before.dtype and after.shape == before.shape, "the block changed the field to %s %s",
             after.dtype, after.shape)
        clear = np.abs(R - radius) > 2e-5 * radius
        inside, outside = (R < radius) & clear, (R > radius) & clear
        what = "block of radius %s x image half size" % (r if r is not None else "(half the first order distance)")
        bad = inside & (after != 0)
        need(not bad.any(), "%s left light at %s of the centre disc", what, np.argwhere(bad)[:1].tolist())
        same(after[outside], cur[outside], what + ": field outside the disc")
        edge = ~inside & ~outside
        need(((after == cur) | (after == 0))[edge].all(), "%s: value on the rim is neither kept nor removed", what)
        if radius > 0:
            i, j = np.unravel_index(np.argmin(R), R.shape)
            need(after[i, j] == 0 or R[i, j] > radius, "%s left the optical axis", what)
        else:
            same(after, cur, what + ": radius zero")
        # blocking again changes nothing
        with sut("second block"):
            sim.block_zeroth_order() if r is None else sim.block_zeroth_order(radius)
        same(sim.image_plane_field, after, what + ": repeated")
        hit = hit or (inside.any() and outside.any() and np.abs(cur[inside]).max() > 0)
        cur = after
    with sut("fields"):
        same(sim.input_field, ins, "input field after the block")
        same(sim.output_field, outs, "output field after the block")
        pw = float(sim.get_image_plane_power())
    e = (np.abs(cur.astype(complex)) ** 2).sum() * float(sim.image_plane_pixel_area)
    need(abs(pw - e) <= 200 * env.eps * max(e, 1e-300), "power after the block %g, field holds %g", pw, e)
    with sut("clear"):
        sim.clear()
    must_raise("block after clear", lambda: sim.block_zeroth_order(), TypeError)
    rec.nt(hit)
    rec.label("default radius" if None in c["rs"] else "explicit", "several" if len(c["rs"]) > 1 else "",
              "padded" if c["px"] + c["py"] else "")


def hist_case():
    o = st.one_of(
        st.tuples(st.just("propagate"), st.integers(0, 2)), st.tuples(st.just("propagate"), st.integers(0, 2)),
        st.tuples(st.just("block"), st.one_of(st.none(), G.fl(0.0, 1.2))),
        st.tuples(st.just("block"), st.one_of(st.none(), G.fl(0.0, 1.2))),
        st.tuples(st.just("clear"), st.just(0)), st.tuples(st.just("state"), G.seeds),
        st.tuples(st.just("read"), st.just(0)), st.tuples(st.just("fft"), st.booleans())).map(list)
    return st.fixed_dictionaries({
        "dmd": G.dmd_case(G.size(3, 12)), "px": st.integers(0, 3), "py": st.integers(0, 3), "twin": st.booleans(),
        "beams": st.lists(G.field(nonzero=True), min_size=1, max_size=3), "same": st.booleans(),
        "ops": st.lists(st.tuples(st.booleans(), o).map(list), min_size=2, max_size=9)})


def check_hist(c, env, rec):
    """Blocks between propagations of two simulations: every propagation is blocked anew, by its own blocks only."""
    d = c["dmd"]
    sf = d["wl"] * d["f"]
    with sut("construct"):
        dmds = [G.mk_dmd(env, d)]
        d2 = {**d, "period": d["period"] * 1.7}
        dmds.append(dmds[0] if c["same"] else G.mk_dmd(env, d2))
        sims = [env.p.DMDSimulation(q, padding_x=c["px"], padding_y=c["py"]) for q in dmds]
    period = [d["period"], d["period"] if c["same"] else d2["period"]]
    for q in dmds:
        q.set_dmd_state_on()
    EX, EY = O.image_grid(d["Nx"] + 2 * c["px"], d["Ny"] + 2 * c["py"], d["pix"], sf)
    R = np.hypot(EX, EY)
    top = max(R.max(), 1e-30)
    beams = [env.c(G.build_field(b, d["Ny"], d["Nx"])) for b in c["beams"]]
    model = [None, None]  # propagated field, then what the blocks left of it
    blocks = [0, 0]
    hit = 0
    for n, (other, (op, v)) in enumerate(c["ops"]):
        k = int(other and c["twin"])
        sim, dmd = sims[k], dmds[k]
        what = "operation %d (%s) on simulation %d" % (n, op, k)
        if op == "propagate":
            with sut(what):
                sim.propagate_to_image(beams[v % len(beams)].astype(env.cplx))
                m = np.asarray(dmd.dmd_state, float)
            E = beams[v % len(beams)] * m
            model[k] = [O.propagate(O.pad(E, c["px"], c["py"]), d["pix"], sf), np.abs(E).sum(), np.zeros(R.shape, int)]
            hit += blocks[k] > 0
        elif op == "block":
            if model[k] is None:
                must_raise(what, lambda: sim.block_zeroth_order(), TypeError)
                continue
            rad = sf / (period[k] * d["pix"]) / 2 if v is None else v * top
            with sut(what):
                sim.block_zeroth_order() if v is None else sim.block_zeroth_order(rad)
            near = np.abs(R - rad) <= 2e-5 * rad
            gone = model[k][2]
            gone[(R < rad) & ~near] = 2
            gone[near & (gone == 0)] = 1
            blocks[k] += 1
        elif op == "clear":
            with sut(what):
                sim.clear()
            model[k] = None
        elif op == "state":
            with sut(what):
                dmd.dmd_state = np.random.default_rng(v).random((d["Ny"], d["Nx"])) < 0.5
        elif op == "fft":
            env.fft(v)
        for q in (0, 1):
            with sut(what):
                f = sims[q].image_plane_field
            if model[q] is None:
                need(f is None, "%s: simulation %d reports a field", what, q)
                continue
            ref, tot, gone = model[q]
            need(not np.any(f[gone == 2]), "%s: light left in the disc blocked in simulation %d", what, q)
            tol = 40 * env.eps * max(tot, 1e-30) * d["pix"] ** 2 / sf
            keep = gone == 0
            bad = np.abs(f - ref) > tol
            need(not bad[keep].any(), "%s: field of simulation %d outside the disc differs at %s", what, q,
                 np.argwhere(bad & keep)[:1].tolist())
            need(not (bad & (f != 0))[gone == 1].any(), "%s: value on the rim is neither kept nor removed", what)
    rec.nt(hit > 0)
    rec.label("two simulations" if c["twin"] else "", "propagated again after a block" if hit else "",
              *{o for _, (o, _) in c["ops"]})


SUBS = [Sub("history", hist_case, check_hist, 700, "histories of propagations, blocks, clearing and new mirror states over one or "
            "two simulations; non-trivial = a propagation after a block"),
        Sub("block", case, check, 800, "random field, padding and radii; non-trivial = light inside the disc and pixels "
            "outside it")]
