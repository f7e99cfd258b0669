"""C28 Visitech (Luxbeam) controller: the k-th trigger shows image k modulo N."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as F, gens as G
from vlib.core import Sub, must_raise, need, same, sut

_u = {}


def util():
    if "u" not in _u:
        _u["u"] = F.control()
    return _u["u"]


def many():
    return st.fixed_dictionaries({"many": st.integers(7, 130), "seed": G.seeds})


def op():
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("single"), "mask": G.mask()}),
        st.fixed_dictionaries({"op": st.just("multiple"), "masks": st.lists(G.mask(), min_size=1, max_size=6)}),
        st.fixed_dictionaries({"op": st.just("multiple"), "masks": G.seldom(st.lists(G.mask(), min_size=2, max_size=6), many(), 8)}),
        st.fixed_dictionaries({"op": st.just("fire"), "n": st.integers(1, 9)}),
        st.fixed_dictionaries({"op": st.just("fire"), "n": G.seldom(st.integers(1, 9), st.integers(10, 150), 6)}),
        st.fixed_dictionaries({"op": st.just("external"), "src": st.sampled_from(["ELECTRICAL", "OPTICAL"]),
                               "n": st.integers(1, 5)}),
        st.fixed_dictionaries({"op": st.just("init")}),
        st.fixed_dictionaries({"op": st.just("size")}))


def case():
    return st.fixed_dictionaries({"Nx": st.integers(2, 16), "Ny": st.integers(2, 16), "invert": st.booleans(), "early": st.lists(
        st.sampled_from(["single", "multiple", "fire", "Nx", "Ny", "number"]), max_size=3),
        "ops": st.lists(op(), min_size=1, max_size=14), "timeout": st.one_of(st.none(), G.fl(0.1, 5))})


def check(c, env, rec):
    Nx, Ny, inv = c["Nx"], c["Ny"], c["invert"]
    u = util()
    dev = F.LUX_PLUG.device = F.LuxDevice(Nx, Ny)
    with sut("LuxbeamController"):
        ctl = u.LuxbeamController("192.168.0.10", invert=inv, timeout=c["timeout"])
        need(not ctl.is_initialized(), "a new controller reports to be initialized")
    need(dev.ip == "192.168.0.10" and dev.timeout == c["timeout"], "connection to %s, timeout %s", dev.ip, dev.timeout)
    z = np.ones((Ny, Nx), bool)
    before = dev.calls
    for e in c["early"]:
        fn = {"single": lambda: ctl.load_single(z), "multiple": lambda: ctl.load_multiple([z]), "Nx": lambda: ctl.Nx,
              "Ny": lambda: ctl.Ny, "fire": ctl.fire_software_trigger, "number": lambda: ctl.number_image(1)}[e]
        must_raise("%s before initialize" % e, fn)
    need(dev.calls == before, "the device was touched before initialize")
    with sut("initialize"):
        ctl.initialize()
        need(ctl.is_initialized(), "the controller does not report to be initialized")
    need(dev.display() is None, "something is displayed right after initialize")
    seq, pos, fired, shorter, wrapped = None, 0, 0, 0, 0

    def look(what):
        if seq is None:
            return
        d = dev.display()
        need(d is not None, "%s: nothing (or an image never loaded) is displayed, expected image %d of %d", what,
             pos % len(seq), len(seq))
        same(d, seq[pos % len(seq)] ^ inv, "%s: mirrors, expected image %d of %d" % (what, pos % len(seq), len(seq)))

    for n, o in enumerate(c["ops"]):
        what = "operation %d (%s)" % (n, o["op"])
        if o["op"] == "size":
            with sut(what):
                need((ctl.Nx, ctl.Ny) == (Nx, Ny), "size %s, the device has %s", (ctl.Nx, ctl.Ny), (Nx, Ny))
        elif o["op"] == "init":
            with sut(what):
                ctl.initialize()
            seq = None  # waits for the next load
        elif o["op"] in ("single", "multiple"):
            ms = o["masks"] if o["op"] == "multiple" else [o["mask"]]
            if isinstance(ms, dict):
                g = np.random.default_rng(ms["seed"])
                ms = [g.random((Ny, Nx)) < 0.5 for _ in range(ms["many"])]
            else:
                ms = [G.build_mask(m, Ny, Nx) for m in ms]
            keep = [m.copy() for m in ms]
            with sut(what):
                ctl.load_multiple(ms) if o["op"] == "multiple" else ctl.load_single(ms[0])
            need(len(ms) == len(keep), "%s changed the caller's list", what)
            for m, k in zip(ms, keep):
                same(m, k, what + ": the caller's image")
                m[...] = ~m  # the caller reuses the buffer
            shorter += seq is not None and len(keep) < len(seq) and pos > 0
            seq, pos = keep, 0
            look(what)
        else:
            for k in range(o["n"]):
                if o["op"] == "fire":
                    with sut(what):
                        ctl.fire_software_trigger()
                else:
                    s = F.LUX_CONST["TRIG_SOURCE_" + o["src"]]
                    dev.trigger(s, 1)
                    dev.trigger(s, 0)
                pos += 1
                fired += 1
                look("%s, trigger %d" % (what, k + 1))
            wrapped += seq is not None and pos >= len(seq) > 1
    rec.nt(wrapped > 0)
    rec.label("wrapped round" if wrapped else "", "fewer images after triggers" if shorter else "", "inverted" if inv else "",
              "triggers" if fired else "")


SUBS = [
    Sub("history", case, check, 4000, "histories of loads and triggers on a simulated device that interprets the uploaded "
        "sequencer program; non-trivial = wrapped round a sequence of several images", shards=3),
]
