"""C29 Number images: binary, of the chip's size, readable, and different for different numbers."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as F, gens as G
from vlib.core import Sub, need, same, sut

_u = {}


def util():
    if "u" not in _u:
        _u["u"] = F.control()
    return _u["u"]


def ncase():
    num = st.one_of(st.integers(0, 9), st.integers(0, 99), st.integers(0, 9999), st.integers(-99, -1),
                    st.integers(10 ** 4, 10 ** 12))
    return st.fixed_dictionaries({"a": num, "b": num, "Ny": st.integers(16, 160), "wide": st.integers(0, 40),
                                  "flip": st.booleans(), "narrow": G.fl(0.05, 1.0)})


def check(c, env, rec):
    u = util()
    Ny = c["Ny"]
    f = u.number_image
    digits = max(len(str(c["a"])), len(str(c["b"])))
    # a digit is about 0.6 of the letter height (half the image) wide
    Nx = int(digits * Ny * 0.36) + 4 + c["wide"]
    with sut("number_image"):
        A, B = f(c["a"], Nx, Ny), f(c["b"], Nx, Ny)
        again = f(c["a"], Nx, Ny)
    for n, img in ((c["a"], A), (c["b"], B)):
        need(isinstance(img, np.ndarray) and img.shape == (Ny, Nx), "image of %d has shape %s, expected %s", n, np.shape(img),
             (Ny, Nx))
        need(img.dtype == bool, "image of %d has type %s", n, img.dtype)
        need(img.any() and not img.all(), "image of %d is blank", n)
        ys, xs = np.nonzero(img)
        need(np.ptp(ys) + 1 >= Ny * 0.15 or n < 0, "the digits of %d are only %d of %d rows high", n, np.ptp(ys) + 1, Ny)
        need(ys.min() > 0 and ys.max() < Ny - 1, "the digits of %d touch the upper or lower rim", n)
        w = np.ptp(xs) + 1
        need(w <= len(str(n)) * Ny * 0.33 + 2, "the digits of %d are %d pixels wide", n, w)
        if len(str(n)) > 1:
            need(w >= (len(str(n)) - 1) * Ny * 0.22, "%d is only %d pixels wide: digits are missing", n, w)
        # upright glyphs start at the left
        need(xs.min() < Ny * 0.2, "the image of %d starts at column %d", n, xs.min())
    same(again, A, "the image of %d made again" % c["a"])
    if c["a"] != c["b"]:
        need(not np.array_equal(A, B), "the images of %d and %d are the same", c["a"], c["b"])
    else:
        same(A, B, "the images of the same number")
    # a wider chip shows the same picture with more dark columns
    with sut("number_image on a wider chip"):
        W = f(c["a"], Nx + 17, Ny)
    same(W[:, :Nx], A, "the image on a wider chip")
    need(not W[:, Nx:].any(), "a wider chip lights columns right of the number")
    # leading digits look the same whatever follows
    sa = str(c["a"])
    with sut("number_image with one more digit"):
        L = f(int(sa + "7"), int((len(sa) + 1) * Ny * 0.36) + 4, Ny)
    # up to the end of the last digit's ink: glyphs may touch
    cut = int(np.nonzero(again.any(0))[0].max()) - Ny // 40
    if c["a"] != 0:
        same(L[:, :cut], again[:, :cut], "the leading digits of %s7" % sa)
    # the image can be edited and does not alias the next one
    A[...] = True
    with sut("number_image"):
        same(f(c["a"], Nx, Ny), again, "the image after the caller changed an earlier one")
    # chips too narrow for the number still get an image of their size
    nx = max(1, int(c["narrow"] * Nx))
    with sut("number_image on a narrow chip"):
        N = f(c["a"], nx, Ny)
    same(N, again[:, :nx], "the image on a narrow chip")
    rec.nt(c["a"] != c["b"] and digits > 1)
    rec.label("%d characters" % digits, "negative" if min(c["a"], c["b"]) < 0 else "")


def ctl_case():
    return st.fixed_dictionaries({"i": st.integers(0, 999), "Nx": st.integers(30, 90), "Ny": st.integers(16, 60), "alp": st.booleans(),
                                  "invert": st.booleans()})


def check_ctl(c, env, rec):
    """A controller makes the image for its own chip, and it can be loaded."""
    u = util()
    with sut("controller"):
        if c["alp"]:
            dev = F.ALP_PLUG.device = F.ALPDevice(c["Nx"], c["Ny"])
            ctl = u.ALPController(invert=c["invert"])
        else:
            dev = F.LUX_PLUG.device = F.LuxDevice(c["Nx"], c["Ny"])
            ctl = u.LuxbeamController("10.0.0.2", invert=c["invert"])
        ctl.initialize()
        img = ctl.number_image(c["i"])
        ctl.load_single(img)
    same(img, u.number_image(c["i"], c["Nx"], c["Ny"]), "the controller's number image")
    shown = dev.frames()[0].astype(bool) if c["alp"] else dev.display()
    same(shown, img ^ c["invert"], "the number on the mirrors")
    rec.nt(c["Nx"] != c["Ny"])


SUBS = [
    Sub("image", ncase, check, 1600, "random numbers and chip sizes; non-trivial = two different numbers of several digits",
        dtypes=("float32",), shards=4),
    Sub("controller", ctl_case, check_ctl, 300, "number images through both controllers; non-trivial = non-square chip",
        dtypes=("float32",), shards=4),
]
