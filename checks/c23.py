"""C23 The precision is chosen once, before first use, and everything follows it."""
import importlib
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, oracle as O, trees as T
from vlib.core import Sub, close, must_raise, need, sut

FRESH = True  # the precision is not selected by the harness
GOOD = {"tf32": 32, "tf64": 64, "const32": 32, "const64": 64, "np32": 32, "np64": 64, "dtype32": 32, "dtype64": 64,
        "str32": 32, "str64": 64}
BAD = ["int32", "complex64", "float16", "nonsense", "none", "number", "npint", "bfloat16", "complex128str"]
LOCK = ["dtype", "dtype_complex", "dtype_int", "slm", "dmd", "lcos", "profile", "window", "zernike", "constant"]


def fresh():
    """A new copy of the package, as a new process would see it."""
    for k in [k for k in sys.modules if k == "pySLM2" or k.startswith("pySLM2.")]:
        del sys.modules[k]
    return importlib.import_module("pySLM2")


def value(tf, p, name):
    b = p.BACKEND
    return {"tf32": tf.float32, "tf64": tf.float64, "const32": b.TENSOR_32BITS, "const64": b.TENSOR_64BITS,
            "np32": np.float32, "np64": np.float64, "dtype32": np.dtype("float32"), "dtype64": np.dtype("float64"),
            "str32": "float32", "str64": "float64", "int32": tf.int32, "complex64": tf.complex64, "float16": tf.float16,
            "nonsense": "double precision", "none": None, "number": 64, "npint": np.int64, "bfloat16": "bfloat16",
            "complex128str": "complex128"}[name]


def op():
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "v": st.sampled_from(sorted(GOOD))}),
        st.fixed_dictionaries({"op": st.just("set"), "v": st.sampled_from(sorted(GOOD))}),
        st.fixed_dictionaries({"op": st.just("bad"), "v": st.sampled_from(BAD)}),
        st.fixed_dictionaries({"op": st.just("fft"), "tf": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("use"), "how": st.sampled_from(LOCK)}))


def case():
    return st.fixed_dictionaries({"ops": st.lists(op(), max_size=7), "d": G.dmd_case(G.even(4, 8)), "beam": G.field(True),
                                  "seed": G.seeds, "final": st.booleans(), "e": T.expr(2, size=5), "pts": T.points()})


def use(p, how, d):
    if how == "slm":
        p.SLM(d["wl"], d["f"], d["Nx"], d["Ny"], d["pix"]).fourier_plane_grid
    elif how == "dmd":
        p.DMD(d["wl"], d["f"], 4, 0.1, d["Nx"], d["Ny"], d["pix"])
    elif how == "lcos":
        p.LCOS_SLM(d["wl"], d["f"], d["Nx"], d["Ny"], d["pix"]).image_plane_grid
    elif how == "profile":
        p.HermiteGaussian(0.0, 0.0, 1.0, 1.0)
    elif how == "window":
        p.RectangularWindowCircular(0.0, 0.0, 1.0)
    elif how == "zernike":
        p.Zernike(1.0, 1.0, 2, 0)
    elif how == "constant":
        p.ConstantProfile(1.0)
    else:
        getattr(p.BACKEND, how)


def check(c, env, rec):
    tf, d = env.tf, c["d"]
    with sut("import"):
        p = fresh()
    bits, locked, rejected, late, ft = 32, False, 0, 0, None
    for n, o in enumerate(c["ops"]):
        if o["op"] == "fft":
            with sut("choosing the FFT"):
                p.BACKEND.fft_backend = p.BACKEND.FFT_BACKEND_TENSORFLOW if o["tf"] else p.BACKEND.FFT_BACKEND_NUMPY
            ft = o["tf"]
        elif o["op"] == "use":
            with sut("use (%s)" % o["how"]):
                use(p, o["how"], d)
            locked = True
        else:
            v = value(tf, p, o["v"])
            what = "operation %d: setting the precision to %s %s first use" % (n, o["v"], "after" if locked else "before")
            if locked:
                must_raise(what, lambda: setattr(p.BACKEND, "dtype", v))
                late += 1
            elif o["op"] == "bad":
                must_raise(what, lambda: setattr(p.BACKEND, "dtype", v))
                rejected += 1
            else:
                with sut(what):
                    p.BACKEND.dtype = v
                bits = GOOD[o["v"]]
        if c["final"] and n == len(c["ops"]) - 1:
            break
    real, cplx, integer = (np.float32, np.complex64, np.int32) if bits == 32 else (np.float64, np.complex128, np.int64)
    eps = float(np.finfo(real).eps)
    with sut("reading the configuration"):
        b = p.BACKEND
        need(b.dtype == tf.as_dtype(real), "precision is %s, expected %s", b.dtype, real)
        need(b.dtype_complex == tf.as_dtype(cplx), "complex type is %s, expected %s", b.dtype_complex, cplx)
        need(b.dtype_int == tf.as_dtype(integer), "integer type is %s, expected %s", b.dtype_int, integer)
        need(tf.DType is type(b.dtype) or isinstance(b.dtype, tf.DType), "precision is reported as %r", b.dtype)
        if ft is not None:
            need(int(b.fft_backend) == (b.FFT_BACKEND_TENSORFLOW if ft else b.FFT_BACKEND_NUMPY), "FFT backend reads %s",
                 b.fft_backend)
    # everything computed from now on has that precision
    Nx, Ny, pix, sf = d["Nx"], d["Ny"], d["pix"], d["wl"] * d["f"]
    with sut("a small experiment"):
        dmd = p.DMD(d["wl"], d["f"], d["period"], d["theta"], Nx, Ny, pix, negative_order=d["neg"])
        x, y = dmd.fourier_plane_grid
        u, v = dmd.image_plane_grid
        beam = p.HermiteGaussian(0.0, 0.0, 1.0, 3 * pix * Nx)
        s = beam(x, y)
        z = (beam * p.LaguerreGaussian(0.0, 0.0, 1.0, 3 * pix * Nx, l=1))(x, y)
        dmd.set_dmd_state_on()
        sim = p.DMDSimulation(dmd, padding_x=1)
        E = G.build_field(c["beam"], Ny, Nx)
        sim.propagate_to_image(E)
        img, it = sim.image_plane_field, sim.image_plane_intensity
        w = p.RectangularWindowCircular(0.0, 0.0, pix * 2)(x, y)
        zn = p.Zernike(1.0, pix * Nx, 3, 1)(x, y)
        dmd.set_dmd_grating_state(method="ideal", amp=0.7)
        g = dmd.dmd_state
        t = dmd.profile_to_tensor(E, complex=True)
        tr = dmd.profile_to_tensor(1)
    for name, a, want in (("Fourier grid x", x, real), ("Fourier grid y", y, real), ("image grid x", u, real),
                          ("image grid y", v, real), ("profile", s, real), ("complex profile", z, cplx),
                          ("image field", img, cplx), ("image intensity", it, real), ("window", w, real),
                          ("Zernike", zn, real), ("greyscale hologram", g, real), ("complex tensor", t, cplx),
                          ("real tensor", tr, real), ("input field", sim.input_field, cplx),
                          ("output field", sim.output_field, cplx)):
        need(np.asarray(a).dtype == want, "%s has type %s at %d bits", name, np.asarray(a).dtype, bits)
    # and carries it numerically
    X, Y = O.fourier_grid(Nx, Ny, pix)
    close(x, X, 8 * eps * np.abs(X), "Fourier grid at %d bits" % bits)
    ref = O.propagate(O.pad(E, 1, 0), pix, sf)
    close(img, ref, 80 * eps * np.abs(E).sum() * pix ** 2 / sf, "image field at %d bits" % bits)
    close(s, O.hg(X, Y, 0, 0, 1, 3 * pix * Nx), 60 * eps, "profile at %d bits" % bits)
    gx = O.lee(0.7, 0, 0, X, Y, d["period"] * pix, d["theta"], d["neg"])
    close(g, gx, 200 * eps * (1 + Nx + Ny), "grating at %d bits" % bits)
    # so do profile expressions of every kind
    loc = types.SimpleNamespace(p=p, tf=tf, eps=eps, real=real, cplx=cplx, is64=bits == 64,
                                r=lambda a: np.asarray(a, real).astype(np.float64),
                                c=lambda a: np.asarray(a, cplx).astype(np.complex128))
    e = T.scaled(c["e"], c["pts"]["u"])
    px, py = T.build_points(c["pts"], loc)
    with sut("a profile expression"):
        val = T.build(e, loc)(T.give(c["pts"]["form"], px, loc), T.give(c["pts"]["form"], py, loc))
    T.compare(val, e, px, py, loc, "an expression of %s at %d bits" % (sorted(T.kinds(e)), bits), close, need)
    must_raise("changing the precision after an experiment", lambda: setattr(p.BACKEND, "dtype", tf.float64))
    rec.nt(bool(late or rejected or bits == 64))
    rec.label("%d bits" % bits, "rejected value" if rejected else "", "too late" if late else "", "locked" if locked else "")


def gate_case():
    o = st.one_of(st.tuples(st.just("set"), st.sampled_from(sorted(GOOD))).map(list),
                  st.tuples(st.just("bad"), st.sampled_from(BAD)).map(list),
                  st.tuples(st.just("use"), st.sampled_from(LOCK)).map(list),
                  st.tuples(st.just("fft"), st.booleans()).map(list))
    return st.fixed_dictionaries({"ops": st.lists(o, min_size=2, max_size=6)})


SMALL = {"wl": 1e-6, "f": 0.1, "Nx": 4, "Ny": 2, "pix": 1e-5}


def check_gate(c, env, rec):
    """Only the gate: every way of reading the precision closes it, nothing else does."""
    tf = env.tf
    with sut("import"):
        p = fresh()
    bits, locked, late, early = 32, False, 0, 0
    for n, (op, v) in enumerate(c["ops"]):
        if op == "fft":
            with sut("choosing the FFT"):
                p.BACKEND.fft_backend = p.BACKEND.FFT_BACKEND_TENSORFLOW if v else p.BACKEND.FFT_BACKEND_NUMPY
                p.BACKEND.fft_backend
        elif op == "use":
            with sut("use (%s)" % v):
                use(p, v, SMALL)
            locked = True
        else:
            what = "operation %d: setting the precision to %s %s first use" % (n, v, "after" if locked else "before")
            if locked or op == "bad":
                must_raise(what, lambda: setattr(p.BACKEND, "dtype", value(tf, p, v)))
                late += locked
            else:
                with sut(what):
                    p.BACKEND.dtype = value(tf, p, v)
                bits = GOOD[v]
                early += 1
    with sut("reading the configuration"):
        got = np.dtype(p.BACKEND.dtype_complex.as_numpy_dtype), np.dtype(p.BACKEND.dtype.as_numpy_dtype), np.dtype(
            p.BACKEND.dtype_int.as_numpy_dtype)
        x = p.SLM(1e-6, 0.1, 2, 2, 1e-5).fourier_plane_grid[0]
    want = ((np.complex64, np.float32, np.int32) if bits == 32 else (np.complex128, np.float64, np.int64))
    need(got == tuple(np.dtype(w) for w in want), "types are %s at %d bits", got, bits)
    need(np.asarray(x).dtype == want[1], "a grid has type %s at %d bits", np.asarray(x).dtype, bits)
    rec.nt(late > 0 or early > 1)
    rec.label("too late" if late else "", "set twice" if early > 1 else "", "%d bits" % bits,
              *["locked by " + v for o, v in c["ops"] if o == "use"][:1])


def two_case():
    return st.fixed_dictionaries({"d": G.dmd_case(G.even(4, 10)), "beam": G.field(True), "w": G.fl(0.1, 0.4), "n": st.integers(0, 3),
                                  "m": st.integers(0, 3), "tf": st.booleans()})


def check_two(c, env, rec):
    """The same scene at both precisions agrees to single precision."""
    tf, d = env.tf, c["d"]
    Nx, Ny = d["Nx"], d["Ny"]
    LI = d["wl"] * d["f"] / d["pix"]
    out = []
    E = G.build_field(c["beam"], Ny, Nx).astype(np.complex64)
    for bits in (32, 64):
        with sut("%d bit scene" % bits):
            p = fresh()
            p.BACKEND.dtype = tf.float32 if bits == 32 else tf.float64
            p.BACKEND.fft_backend = p.BACKEND.FFT_BACKEND_TENSORFLOW if c["tf"] else p.BACKEND.FFT_BACKEND_NUMPY
            dmd = p.DMD(d["wl"], d["f"], d["period"], d["theta"], Nx, Ny, d["pix"], negative_order=d["neg"])
            t = p.HermiteGaussian(0.0, 0.0, 1.0, c["w"] * LI, n=c["n"], m=c["m"])
            eta = dmd.calculate_dmd_state(E, t, method="ideal")
            g = np.asarray(dmd.dmd_state, float)
            sim = p.DMDSimulation(dmd)
            sim.propagate_to_image(E)
            ts = np.asarray(dmd.profile_to_tensor(t, at_fourier_plane=False), float)
            out.append((eta, g, sim.image_plane_field, ts, np.asarray(dmd.first_order_origin, float)))
    a, b = out
    e = 2.0 ** -23
    T = np.abs(O.back_propagate(b[3], d["pix"], d["wl"] * d["f"]))
    M = (T / np.abs(E)).max()
    noise = 200 * e * np.abs(b[3]).sum() / (d["pix"] ** 2 * Nx * Ny) * d["wl"] * d["f"]
    close(a[3], b[3], 3e3 * e * max(1.0, np.abs(b[3]).max()), "target samples")
    if np.abs(b[3]).max() > 1e-3:
        tol = 40 * noise / np.abs(E).min() / M + 200 * e * (1 + Nx + Ny)
        close(a[1], b[1], tol, "greyscale hologram")
        close(a[0], b[0], b[0] * tol, "efficiency")
    close(a[2], b[2], 500 * e * np.abs(E).sum() * d["pix"] ** 2 / (d["wl"] * d["f"]), "image field")
    close(a[4], b[4], 20 * e * np.abs(b[4]).max(), "first order origin")
    rec.nt(Nx != Ny)


SUBS = [
    Sub("configure", case, check, 220, "histories of settings, invalid values, first uses; then an experiment checked for type "
        "and accuracy; non-trivial = rejected value, late change or 64 bits", dtypes=("float32",), shards=6),
    Sub("gate", gate_case, check_gate, 500, "histories of settings, invalid values and single uses; non-trivial = a late or a "
        "repeated setting", dtypes=("float32",), shards=6),
    Sub("both", two_case, check_two, 60, "the same scene in two copies of the package; non-trivial = non-square chip",
        dtypes=("float32",), shards=6),
]
