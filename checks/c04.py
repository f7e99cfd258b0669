"""C04 Energy accounting of a simulation."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G
from vlib.core import Sub, close, need, sut
from checks.c03 import build_state, state


def case():
    return st.fixed_dictionaries({
        "dmd": G.dmd_case(G.size(2, 20)), "lcos": st.booleans(), "state": state(), "beam": G.field(),
        "px": G.pad(8), "py": G.pad(8), "qx": G.pad(8), "qy": G.pad(8),
        "tf": st.booleans(), "base": st.booleans(), "scale": st.one_of(G.fl(0.2, 3.0), G.mag())})


def powers(sim):
    return float(sim.get_input_power()), float(sim.get_output_power()), float(sim.get_image_plane_power())


def check(c, env, rec):
    d = c["dmd"]
    Nx, Ny = d["Nx"], d["Ny"]
    s = build_state(c["state"], Ny, Nx)
    env.fft(c["tf"])
    with sut("construct"):
        if c["lcos"]:
            slm = G.mk_lcos(env, d)
            slm.slm_state = s.astype(float)
        else:
            slm = G.mk_dmd(env, d)
            slm.dmd_state = s
        cls = env.p.SLMSimulation if (c["lcos"] or c["base"]) else env.p.DMDSimulation
        sim = cls(slm, padding_x=c["px"], padding_y=c["py"])
        other = cls(slm, padding_x=c["qx"], padding_y=c["qy"])
    E = env.c(G.build_field(c["beam"], Ny, Nx))
    beam = E.astype(env.cplx)
    with sut("propagate"):
        sim.propagate_to_image(beam)
        pin, pout, pim = powers(sim)
        ii, oi, fi = sim.input_intensity, sim.output_intensity, sim.image_plane_intensity
        fpa, ipa = float(sim.fourier_plane_pixel_area), float(sim.image_plane_pixel_area)
    n = fi.size
    tol = 60 * env.eps * (1 + np.log2(n)) + 4 * env.eps * np.sqrt(n)
    mod2 = np.ones((Ny, Nx)) if c["lcos"] else env.r(s) ** 2
    e_in = (np.abs(E) ** 2).sum() * d["pix"] ** 2
    e_out = (np.abs(E) ** 2 * mod2).sum() * d["pix"] ** 2
    close(pin, e_in, tol * e_in, "input power")
    close(pout, e_out, tol * e_in, "output power")
    # Parseval: what leaves the modulator arrives in the image plane
    close(pim, e_out, tol * e_in, "image plane power against the power leaving the modulator")
    # the powers are the integrals of the reported intensities
    for got, i, a, what in ((pin, ii, fpa, "input"), (pout, oi, fpa, "output"), (pim, fi, ipa, "image plane")):
        t = i.astype(float).sum() * a
        close(got, t, tol * e_in, what + " power against its own intensity map")
    # mirrors transmit between nothing and everything
    need(mod2.max() > 1 or pout <= pin * (1 + tol) + 1e-300, "a passive modulator amplified %g to %g", pin, pout)
    if c["lcos"]:
        close(pout, pin, tol * e_in, "power conserved by a phase-only modulator")
    # padding is vacuum: it changes no power
    with sut("other padding"):
        other.propagate_to_image(beam)
        q = powers(other)
    close(q, (e_in, e_out, e_out), tol * e_in, "powers with another padding")
    # uniform scaling
    with sut("scaled beam"):
        sim.propagate_to_image((c["scale"] * E).astype(env.cplx))
        q = powers(sim)
    k = c["scale"] ** 2
    close(q, (k * e_in, k * e_out, k * e_out), 2 * tol * k * e_in, "powers of a scaled beam")
    rec.nt(0 < e_out and (c["lcos"] or e_out < e_in) and c["px"] + c["py"] > 0)
    rec.label("lcos" if c["lcos"] else "dmd", "tf fft" if c["tf"] else "numpy fft", c["state"]["k"],
              "odd" if (Nx % 2 or Ny % 2) else "even")


def pair_case():
    return st.fixed_dictionaries({"dmd": G.dmd_case(G.size(2, 20)), "mask": G.mask(), "beam": G.field(),
                                  "px": G.pad(6), "py": G.pad(6), "tf": st.booleans()})


def check_pair(c, env, rec):
    """Mirrors split the light between on and off: the fields of complementary states add up to the all-on field."""
    d = c["dmd"]
    m = G.build_mask(c["mask"], d["Ny"], d["Nx"])
    env.fft(c["tf"])
    E = G.build_field(c["beam"], d["Ny"], d["Nx"]).astype(env.cplx)
    f, p = [], []
    with sut("complementary states"):
        dmd = G.mk_dmd(env, d)
        sim = env.p.DMDSimulation(dmd, padding_x=c["px"], padding_y=c["py"])
        for k in range(4):
            if k < 2:
                dmd.dmd_state = m if k == 0 else ~m
            elif k == 2:
                dmd.set_dmd_state_on()
            else:
                dmd.set_dmd_state_off()
            sim.propagate_to_image(E)
            f.append(sim.image_plane_field.astype(complex))
            p.append(powers(sim))
    pin = p[0][0]
    top = max(np.abs(f[2]).max(), np.abs(f[0]).max())
    tol = 100 * env.eps * (np.log2(f[0].size) + 1)
    scale = np.abs(E.astype(complex)).sum() * d["pix"] ** 2 / (d["wl"] * d["f"])
    close(f[0] + f[1], f[2], tol * scale, "image fields of a state and its complement")
    close(p[0][1] + p[1][1], p[2][1], tol * pin, "output powers of a state and its complement")
    close(p[2][1], pin, tol * pin, "power with all mirrors on")
    close(p[3][1:], (0.0, 0.0), 0.0, "power with all mirrors off")
    close(f[3], np.zeros_like(f[3]), 0.0, "field with all mirrors off")
    rec.nt(0 < m.sum() < m.size and top > 0)
    rec.label(c["mask"]["k"])


SUBS = [
    Sub("power", case, check, 1000, "random beam, state, padding; non-trivial = padded and (phase-only or partly "
        "absorbing) with light left"),
    Sub("complement", pair_case, check_pair, 360, "complementary mirror masks; non-trivial = neither mask empty"),
]
