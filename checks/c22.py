"""C22 Every accepted form of a profile argument means the same field."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O, trees as T
from vlib.core import Sub, close, need, sut

SCALARS = ["int", "float", "np.float32", "np.float64", "np.int64", "np.int32", "array0", "tensor0", "tensor0_64", "const"]
CSCALARS = ["complex", "np.complex64", "np.complex128", "carray0", "ctensor0", "cconst"]


def scalar_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(1, 14)), "v": G.fl(-3, 3), "w": G.fl(-3, 3),
                                  "form": st.sampled_from(SCALARS + CSCALARS), "fp": st.booleans(), "complex": st.booleans(),
                                  "dmd": st.booleans()})


def mk(env, c):
    d = c["d"]
    if c.get("dmd"):
        return env.p.DMD(d["wl"], d["f"], 4, 0.3, d["Nx"], d["Ny"], d["pix"])
    return G.mk_lcos(env, d)


def check_scalar(c, env, rec):
    tf, f, v = env.tf, c["form"], c["v"]
    z = complex(v, c["w"])
    forms = {"int": lambda: int(v), "float": lambda: v, "np.float32": lambda: np.float32(v), "np.float64": lambda: np.float64(v),
             "np.int64": lambda: np.int64(v), "np.int32": lambda: np.int32(v), "array0": lambda: np.array(v),
             "tensor0": lambda: tf.constant(v, env.real), "tensor0_64": lambda: tf.constant(v, "float64"),
             "const": lambda: env.p.ConstantProfile(v), "complex": lambda: z, "np.complex64": lambda: np.complex64(z),
             "np.complex128": lambda: np.complex128(z), "carray0": lambda: np.array(z),
             "ctensor0": lambda: tf.constant(z, env.cplx), "cconst": lambda: env.p.ConstantProfile(z)}
    cplx = f in CSCALARS
    if f in ("int", "np.int64", "np.int32"):
        val = int(v)
    elif cplx:
        val = complex(np.complex64(z)) if f == "np.complex64" else complex(env.c(z))
    else:
        val = float(np.float32(v)) if f == "np.float32" else v
    want = cplx or c["complex"]
    with sut("profile_to_tensor(%s)" % f):
        t = mk(env, c).profile_to_tensor(forms[f](), at_fourier_plane=c["fp"], complex=want)
        need(isinstance(t, tf.Tensor), "profile_to_tensor(%s) gave %s", f, type(t).__name__)
        got = np.asarray(t)
    need(got.dtype == (env.cplx if want else env.real), "profile_to_tensor(%s) has dtype %s", f, got.dtype)
    close(got, np.full((c["d"]["Ny"], c["d"]["Nx"]), val), 2 * env.eps * abs(val) + 1e-37, "profile_to_tensor(%s)" % f)
    rec.nt(c["d"]["Nx"] != c["d"]["Ny"] and val != 0)
    rec.label(f, "complex" if want else "real")


ARR = ["array", "float32", "float64", "int", "list", "tensor", "tensor32", "tensor64", "fortran", "strided", "variable_free"]


def array_case():
    return st.fixed_dictionaries({"d": G.optics(G.size(1, 14)), "field": G.field(), "form": st.sampled_from(ARR),
                                  "fp": st.booleans(), "kind": st.sampled_from(["real", "real_as_complex", "complex"]),
                                  "dmd": st.booleans()})


def check_array(c, env, rec):
    tf, f, d = env.tf, c["form"], c["d"]
    a = G.build_field(c["field"], d["Ny"], d["Nx"])
    cplx = c["kind"] == "complex"
    a = a if cplx else a.real
    if f == "int":
        a = np.round(4 * a.real)
        cplx = False
    wide, narrow = ("complex128", "complex64") if cplx else ("float64", "float32")
    work = env.cplx if cplx else env.real
    give = {"array": lambda: a.astype(work), "float32": lambda: a.astype(narrow), "float64": lambda: a.astype(wide),
            "int": lambda: a.astype(np.int64), "list": lambda: a.tolist(), "tensor": lambda: tf.constant(a.astype(work)),
            "tensor32": lambda: tf.constant(a.astype(narrow)), "tensor64": lambda: tf.constant(a.astype(wide)),
            "fortran": lambda: np.asfortranarray(a.astype(work)), "strided": lambda: np.repeat(a.astype(work), 2, 1)[:, ::2],
            "variable_free": lambda: tf.convert_to_tensor(a.astype(work)) * 1}[f]()
    val = a.astype(narrow).astype(wide) if f in ("float32", "tensor32") else a
    want = cplx or c["kind"] == "real_as_complex"
    with sut("profile_to_tensor(%s array)" % f):
        got = np.asarray(mk(env, c).profile_to_tensor(give, at_fourier_plane=c["fp"], complex=want))
    need(got.dtype == (env.cplx if want else env.real), "profile_to_tensor(%s array) has dtype %s", f, got.dtype)
    close(got, val, 2 * env.eps * np.abs(val) + 1e-37, "profile_to_tensor(%s array)" % f)
    rec.nt(d["Nx"] != d["Ny"] and d["Nx"] > 1 and d["Ny"] > 1)
    rec.label(f, c["kind"], c["field"]["k"])


def profile_case():
    return st.fixed_dictionaries({"Nx": G.size(2, 12), "Ny": G.size(2, 12), "e": T.expr(1), "fp": st.booleans(),
                                  "force": st.booleans(), "dmd": st.booleans()})


def check_profile(c, env, rec):
    """A profile object is sampled at the pixel coordinates of the plane the argument belongs to."""
    c["d"] = {"wl": 1.0, "f": 2.0, "pix": 0.45, "Nx": c["Nx"], "Ny": c["Ny"]}
    with sut("construct"):
        slm = mk(env, c)
        o = T.build(c["e"], env)
    cp = T.is_complex(c["e"])
    want = cp or c["force"]
    with sut("profile_to_tensor(profile)"):
        got = np.asarray(slm.profile_to_tensor(o, at_fourier_plane=c["fp"], complex=want))
        gx, gy = slm.fourier_plane_grid if c["fp"] else slm.image_plane_grid
        direct = np.asarray(o(gx, gy))
    need(got.dtype == (env.cplx if want else env.real), "sampled profile has dtype %s", got.dtype)
    x, y = (O.fourier_grid if c["fp"] else lambda a, b, p: O.image_grid(a, b, p, 2.0))(c["Nx"], c["Ny"], 0.45)
    ex, ey = 8 * env.eps * (np.abs(x) + 0.1), 8 * env.eps * (np.abs(y) + 0.1)
    v, e = T.evaluate(c["e"], x, y, env, ex, ey)
    close(got, v, 4 * e, "profile sampled on the %s plane" % ("Fourier" if c["fp"] else "image"))
    v2, e2 = T.evaluate(c["e"], np.asarray(gx, float), np.asarray(gy, float), env)
    close(np.broadcast_to(direct, got.shape), got, 8 * e2 + 8 * env.eps * np.abs(v2), "sampling against calling the profile "
          "on the published grid")
    rec.nt(c["Nx"] != c["Ny"] and not T.is_constant(c["e"]) and float(np.mean(np.isfinite(e))) > 0.5)
    rec.label(*T.kinds(c["e"]))
    rec.label("Fourier" if c["fp"] else "image")


def end_case():
    return st.fixed_dictionaries({"d": G.dmd_case(G.even(4, 12)), "w": G.fl(0.3, 1.0), "tw": G.fl(0.1, 0.5),
                                  "x0": G.fl(-0.2, 0.2), "tx": G.fl(-0.2, 0.2), "win": G.fl(0.2, 0.6),
                                  "in": st.sampled_from(["array", "tensor", "list", "float64", "complex"]),
                                  "out": st.sampled_from(["array", "tensor", "list", "float64", "complex"]),
                                  "tf": st.booleans(), "use_win": st.booleans()})


def shape_as(env, a, how):
    tf = env.tf
    return {"array": lambda: a.astype(env.real), "tensor": lambda: tf.constant(a.astype(env.real)), "list": lambda: a.tolist(),
            "float64": lambda: a.astype("float64"), "complex": lambda: a.astype(env.cplx)}[how]()


def check_end(c, env, rec):
    """Hologram, efficiency and simulated image do not depend on how the profiles were handed over."""
    d = c["d"]
    env.fft(c["tf"])
    L, LI = d["pix"] * min(d["Nx"], d["Ny"]), d["wl"] * d["f"] / d["pix"]
    with sut("construct"):
        beam = env.p.HermiteGaussian(c["x0"] * L, 0.0, 1.0, c["w"] * L)
        target = env.p.SuperGaussian(c["tx"] * LI, 0.0, 1.0, c["tw"] * LI, p=1.0)
        win = env.p.RectangularWindowCircular(0.0, 0.0, c["win"] * L)
        dmd = G.mk_dmd(env, d)
        fx, fy = dmd.fourier_plane_grid
        ix, iy = dmd.image_plane_grid
        eb, et, ew = np.asarray(beam(fx, fy), float), np.asarray(target(ix, iy), float), np.asarray(win(fx, fy), float)
    if not (eb > 1e-12).all() or not et.any():
        return
    forms = [(beam, target, win), (shape_as(env, eb, c["in"]), shape_as(env, et, c["out"]), shape_as(env, ew, c["in"])),
             (beam, shape_as(env, et, c["out"]), win), (shape_as(env, eb, c["in"]), target, ew.astype(env.real))]
    if not ew.any():
        c["use_win"] = False
    ref = None
    # the phase of the target's transform is only as good as the rounding noise of the transform
    T = np.abs(O.back_propagate(et, d["pix"], d["wl"] * d["f"])) * (ew if c["use_win"] else 1)
    noise = 2e3 * env.eps * np.abs(et).sum() / (d["pix"] ** 2 * et.size) * d["wl"] * d["f"]
    if not T.any():
        return
    tol = noise / eb / (T / eb).max() + 1e4 * env.eps
    for k, (b, t, w) in enumerate(forms):
        with sut("form %d" % k):
            eta = dmd.calculate_dmd_state(b, t, method="ideal", **({"window": w} if c["use_win"] else {}))
            g = np.array(dmd.dmd_state, float)
            sim = env.p.DMDSimulation(dmd)
            sim.propagate_to_image(b)
            img = sim.image_plane_field
        if ref is None:
            ref = (eta, g, img)
            top = np.abs(img).max()
            continue
        close(eta, ref[0], 1e3 * env.eps * ref[0], "efficiency, form %d" % k)
        close(g, ref[1], tol, "greyscale hologram, form %d" % k)
        close(img, ref[2], 1e5 * env.eps * np.abs(eb).sum() * d["pix"] ** 2 / (d["wl"] * d["f"]), "image field, form %d" % k)
    rec.nt(d["Nx"] != d["Ny"])
    rec.label(c["in"], c["out"], "window" if c["use_win"] else "no window")


SUBS = [
    Sub("scalar", scalar_case, check_scalar, 1200, "all scalar forms, both planes, real and complex; non-trivial = non-square "
        "grid and a non-zero value"),
    Sub("array", array_case, check_array, 1200, "all array forms; non-trivial = non-square grid"),
    Sub("profile", profile_case, check_profile, 280, "random expressions sampled on both planes; non-trivial = non-square grid, "
        "shape varies, error bound finite"),
    Sub("scene", end_case, check_end, 64, "one scene, four ways to hand over its profiles; non-trivial = non-square grid"),
]
