"""C02 Image-plane coordinates and pixel areas."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O
from vlib.core import Sub, close, need, sut


def case(n=None):
    return st.tuples(G.optics(n or G.size(1, 40)), G.pad(9), G.pad(9),
                     st.sampled_from(["SLM", "DMD", "LCOS_SLM"])).map(
        lambda t: {**t[0], "px": t[1], "py": t[2], "cls": t[3]})


def make(env, c):
    with sut("construct"):
        if c["cls"] == "SLM":
            return env.p.SLM(c["wl"], c["f"], c["Nx"], c["Ny"], c["pix"])
        if c["cls"] == "DMD":
            return env.p.DMD(c["wl"], c["f"], 3, -0.4, c["Nx"], c["Ny"], c["pix"])
        return G.mk_lcos(env, c)


def compare(env, got, Nx, Ny, pix, sf, what):
    x, y = got
    ex, ey = O.image_grid(Nx, Ny, pix, sf)
    close(x, ex, 8 * env.eps * np.abs(ex).max(), what + " x")
    close(y, ey, 8 * env.eps * np.abs(ey).max(), what + " y")
    need(x.dtype == env.real and y.dtype == env.real, "%s dtype %s, backend is %s", what, x.dtype, env.real)


def check(c, env, rec):
    slm = make(env, c)
    sf = c["wl"] * c["f"]
    with sut("image_plane_grid"):
        compare(env, slm.image_plane_grid, c["Nx"], c["Ny"], c["pix"], sf, "image plane")
        sim = env.p.SLMSimulation(slm, padding_x=c["px"], padding_y=c["py"])
        N, M = c["Nx"] + 2 * c["px"], c["Ny"] + 2 * c["py"]
        X, Y = sim.image_plane_padded_grid
        compare(env, (X, Y), N, M, c["pix"], sf, "padded image plane")
        a = sim.image_plane_pixel_area
        close(a, sf ** 2 / (N * M * c["pix"] ** 2), 1e-9 * a, "image_plane_pixel_area")
        close(sim.scaling_factor, sf, 1e-12 * sf, "simulation scaling_factor")
    if N > 1 and M > 1:
        dx = float(X[0, 1]) - float(X[0, 0])
        dy = float(Y[0, 0]) - float(Y[1, 0])
        close(a, dx * dy, 100 * env.eps * a * max(N, M), "pixel area against the grid spacing")
    need(abs(X[M // 2, N // 2]) <= 8 * env.eps * np.abs(X).max() and abs(Y[M // 2, N // 2]) <= 8 * env.eps * np.abs(Y).max(), "the optical axis is not at the centre of the image plane")
    rec.nt(N != M and c["px"] + c["py"] > 0)
    rec.label("odd" if N % 2 or M % 2 else "even", "unpadded" if c["px"] + c["py"] == 0 else "")


def check_history(c, env, rec):
    """Grids belong to their own object, however many objects exist and in whatever order they are read."""
    objs = []
    for s in c["slms"]:
        slm = make(env, s)
        with sut("simulation"):
            objs.append((s, slm, env.p.SLMSimulation(slm, padding_x=s["px"], padding_y=s["py"]),
                         env.p.SLMSimulation(slm)))
    for k in c["order"]:
        s, slm, sim, sim0 = objs[k % len(objs)]
        sf = s["wl"] * s["f"]
        with sut("grids"):
            compare(env, sim.image_plane_padded_grid, s["Nx"] + 2 * s["px"], s["Ny"] + 2 * s["py"], s["pix"], sf,
                    "padded image plane of one of several")
            compare(env, sim0.image_plane_padded_grid, s["Nx"], s["Ny"], s["pix"], sf, "unpadded simulation")
            compare(env, slm.image_plane_grid, s["Nx"], s["Ny"], s["pix"], sf, "image plane of one of several")
    rec.nt(len(c["slms"]) > 1)


SUBS = [
    Sub("grid", case, check, 1600, "random geometry and padding; non-trivial = padded and not square"),
    Sub("history", lambda: st.fixed_dictionaries({
        "slms": st.lists(case(st.integers(2, 6)), min_size=1, max_size=5).map(
            lambda l: [{**s, "Nx": l[0]["Nx"], "Ny": l[0]["Ny"]} if k % 2 else s for k, s in enumerate(l)]),
        "order": st.lists(st.integers(0, 4), min_size=1, max_size=8)}), check_history, 240,
        "several SLMs and simulations of equal shape; non-trivial = more than one SLM"),
]
