"""C13 Mirror state and its packed bytes."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, must_raise, need, same, sut


def pack(m):
    """Row by row, first mirror in the most significant bit, zero padded to whole bytes."""
    bits = [bool(v) for row in m.tolist() for v in row]
    out = bytearray()
    for k in range(0, len(bits), 8):
        b = 0
        for q, v in enumerate(bits[k:k + 8]):
            if v:
                b |= 0x80 >> q
        out.append(b)
    return bytes(out)


def case():
    return st.fixed_dictionaries({
        "d": G.dmd_case(G.size(1, 20)), "mask": G.mask(), "layout": st.sampled_from(["C", "F", "view", "flip"]),
        "bad": st.sampled_from(["float32", "float64", "int8", "uint8", "int64", "complex64"]), "poke": G.seeds})


def laid_out(m, how):
    if how == "F":
        return np.asfortranarray(m)
    if how == "view":
        big = np.ones((m.shape[0] * 2, m.shape[1] * 3), bool)
        big[::2, ::3] = m
        return big[::2, ::3]
    if how == "flip":
        return np.ascontiguousarray(m[::-1, ::-1])[::-1, ::-1]
    return m.copy()


def check(c, env, rec):
    d = c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    with sut("construct"):
        dmd = G.mk_dmd(env, d)
    same(dmd.dmd_state, np.zeros((Ny, Nx), bool), "initial state")
    need(dmd.dmd_state.dtype == bool, "initial state has dtype %s", dmd.dmd_state.dtype)
    need(dmd.pack_dmd_state() == bytes(-(-Nx * Ny // 8)), "packed all-off state")
    m = G.build_mask(c["mask"], Ny, Nx)
    dmd.dmd_state = laid_out(m, c["layout"])
    with sut("pack_dmd_state"):
        b = dmd.pack_dmd_state()
    need(isinstance(b, bytes), "packed state is %s", type(b).__name__)
    need(b == pack(m), "packed bytes %s..., expected %s... (%d of %d bytes differ)", b[:8].hex(), pack(m)[:8].hex(),
         sum(p != q for p, q in zip(b, pack(m))), len(pack(m)))
    same(dmd.dmd_state, m, "state after packing")
    back = np.unpackbits(np.frombuffer(b, np.uint8))[:Nx * Ny].reshape(Ny, Nx).astype(bool)
    same(back, m, "unpacked bytes")
    # single mirrors can be switched in place
    i, j = c["poke"] % Ny, (c["poke"] // 7) % Nx
    with sut("switching everything on and off"):
        dmd.set_dmd_state_on()
        same(dmd.dmd_state, np.ones((Ny, Nx), bool), "all on")
        need(dmd.dmd_state.dtype == bool, "all on has dtype %s", dmd.dmd_state.dtype)
        dmd.dmd_state[i, j] = False
        e = np.ones((Ny, Nx), bool)
        e[i, j] = False
        need(dmd.pack_dmd_state() == pack(e), "packed state after switching mirror (%d, %d) off", i, j)
        dmd.set_dmd_state_off()
        same(dmd.dmd_state, np.zeros((Ny, Nx), bool), "all off")
        need(dmd.dmd_state.dtype == bool, "all off has dtype %s", dmd.dmd_state.dtype)
        dmd.dmd_state[i, j] = True
        need(dmd.pack_dmd_state() == pack(~e), "packed state after switching mirror (%d, %d) on", i, j)
        dmd.set_dmd_state_on()
        need(dmd.dmd_state.all(), "all on after switching one mirror")
    # only binary states can be packed
    dmd.dmd_state = m.astype(c["bad"])
    must_raise("packing a %s state" % c["bad"], dmd.pack_dmd_state, TypeError)
    with sut("greyscale grating"):
        dmd.set_dmd_grating_state(method="ideal")
    must_raise("packing a greyscale hologram", dmd.pack_dmd_state, TypeError)
    # switching every mirror gives a binary state whatever was there before
    with sut("switching all mirrors of a state that is not binary"):
        for before in ("hologram", c["bad"]):
            for turn, e in ((dmd.set_dmd_state_on, np.ones((Ny, Nx), bool)), (dmd.set_dmd_state_off, np.zeros((Ny, Nx), bool)))[
                    ::1 if Nx % 2 else -1]:
                if before == "hologram":
                    dmd.set_dmd_grating_state(method="ideal")
                else:
                    dmd.dmd_state = m.astype(before)
                turn()
                need(dmd.dmd_state.dtype == bool, "all on or off after a %s state has dtype %s", before, dmd.dmd_state.dtype)
                same(dmd.dmd_state, e, "all on or off after a %s state" % before)
                need(dmd.pack_dmd_state() == pack(e), "packed all on or off after a %s state", before)
    with sut("binary gratings"):
        for method in ("simple", "random"):
            dmd.set_dmd_grating_state(method=method)
            s = np.array(dmd.dmd_state)
            need(s.dtype == bool and s.shape == (Ny, Nx), "method %s gives %s %s", method, s.dtype, s.shape)
            need(dmd.pack_dmd_state() == pack(s), "packed %s grating", method)
            dmd.dmd_state[i, j] = not s[i, j]  # a hologram can be edited mirror by mirror
            s[i, j] = not s[i, j]
            need(dmd.pack_dmd_state() == pack(s), "packed %s grating after editing a mirror", method)
    rec.nt(0 < m.sum() < m.size and Nx != Ny)
    rec.label("whole bytes per row" if Nx % 8 == 0 else "bytes across rows", "padded" if Nx * Ny % 8 else "",
              c["layout"])


def dev_case():
    return st.fixed_dictionaries({"dev": st.sampled_from(["DLP7000", "DLP9500", "DLP9000"]), "mask": G.mask(),
                                  "period": G.fl(2, 8), "theta": G.angle})


def check_dev(c, env, rec):
    Nx, Ny, _ = G.DEVICES[c["dev"]]
    with sut(c["dev"]):
        dmd = getattr(env.p, c["dev"])(369e-9, 0.2, c["period"], c["theta"])
        m = G.build_mask(c["mask"], Ny, Nx)
        dmd.dmd_state = m
        b = dmd.pack_dmd_state()
    need(len(b) == Nx * Ny // 8, "%s packs to %d bytes", c["dev"], len(b))
    back = np.unpackbits(np.frombuffer(b, np.uint8)).reshape(Ny, Nx).astype(bool)
    same(back, m, c["dev"] + " unpacked bytes")
    rec.nt(0 < m.sum() < m.size)


SUBS = [
    Sub("pack", case, check, 700, "random masks, memory layouts, shapes; non-trivial = mixed mask on a non-square chip"),
    Sub("device", dev_case, check_dev, 24, "full-size chips; non-trivial = mixed mask", thorough=4),
]
