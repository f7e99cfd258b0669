"""C27 Vialux (ALP) controller: what the mirrors show is what was loaded."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as F, gens as G
from vlib.core import Sub, must_raise, need, same, sut

_u = {}


def util():
    if "u" not in _u:
        _u["u"] = F.control()
    return _u["u"]


def op():
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("single"), "mask": G.mask(), "lay": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("multiple"), "masks": G.seldom(st.lists(G.mask(), min_size=1, max_size=5), st.lists(G.mask(), min_size=6, max_size=14), 5),
                               "lay": st.integers(0, 2)}),
        st.fixed_dictionaries({"op": st.just("number"), "i": st.integers(0, 99)}),
        st.fixed_dictionaries({"op": st.just("size")}),
        st.fixed_dictionaries({"op": st.just("reopen")}))


def case():
    return st.fixed_dictionaries({"Nx": st.integers(4, 20), "Ny": st.integers(4, 20), "invert": st.booleans(),
                                  "mem": st.integers(20, 40), "time": st.integers(20, 400), "extra": st.integers(1, 300), "vary": st.sampled_from([0, 0, 7, -3]),
                                  "early": st.lists(st.sampled_from(["single", "multiple", "Nx", "Ny", "number"]), max_size=3),
                                  "ops": st.lists(op(), min_size=1, max_size=12), "close": st.booleans()})


def lay(m, k):
    if k == 1:
        return np.asfortranarray(m)
    if k == 2:
        return np.repeat(m, 2, axis=1)[:, ::2]
    return m


def check(c, env, rec):
    Nx, Ny, inv = c["Nx"], c["Ny"], c["invert"]
    u = util()
    dev = F.ALP_PLUG.device = F.ALPDevice(Nx, Ny, c["mem"], c["time"], c["time"] + c["extra"])
    K = F.ALP_CONST
    with sut("ALPController"):
        ctl = u.ALPController(invert=inv)
        need(not ctl.is_initialized(), "a new controller reports to be initialized")
    z = np.ones((Ny, Nx), bool)
    before = dev.calls
    for e in c["early"]:
        fn = {"single": lambda: ctl.load_single(z), "multiple": lambda: ctl.load_multiple([z]), "Nx": lambda: ctl.Nx,
              "Ny": lambda: ctl.Ny, "number": lambda: ctl.number_image(1)}[e]
        must_raise("%s before initialize" % e, fn)
    need(dev.calls == before, "the device was touched before initialize")
    with sut("initialize"):
        ctl.initialize()
        need(ctl.is_initialized(), "the controller does not report to be initialized")
    need(dev.frames() is None, "something is displayed right after initialize")
    kinds = []
    for n, o in enumerate(c["ops"]):
        what = "operation %d (%s)" % (n, o["op"])
        if o["op"] == "size":
            with sut(what):
                need((ctl.Nx, ctl.Ny) == (Nx, Ny), "size %s, the device has %s", (ctl.Nx, ctl.Ny), (Nx, Ny))
            continue
        if o["op"] == "reopen":
            # another session on the same device
            with sut("close"):
                ctl.close()
            need(not dev.open, "the device is still allocated after close")
            need(dev.running is None and not dev.seqs, "the board still holds sequences after close")
            with sut("a second session"):
                ctl = u.ALPController(invert=inv)
                ctl.initialize()
            kinds.append("open")
            continue
        # the minimum depends on the sequence
        dev.min_time = max(5, c["time"] + c["vary"] * n)
        if o["op"] == "multiple":
            ms = [G.build_mask(m, Ny, Nx) for m in o["masks"]]
            keep = [m.copy() for m in ms]
            give = [lay(m, o["lay"]) for m in ms]
            with sut(what):
                ctl.load_multiple(give)
            need(len(give) == len(keep), "%s changed the caller's list", what)
            for a, b in zip(give, keep):
                same(a, b, what + ": the caller's image")
        else:
            if o["op"] == "number":
                with sut(what):
                    m = ctl.number_image(o["i"])
                same(m, u.number_image(o["i"], Nx, Ny), what)
                k = 0
            else:
                m, k = G.build_mask(o["mask"], Ny, Nx), o["lay"]
            keep = [np.array(m, bool)]
            give = lay(m, k)
            with sut(what):
                ctl.load_single(give)
            same(give, keep[0], what + ": the caller's image")
        kinds.append("multiple" if o["op"] == "multiple" else "single")
        fr = dev.frames()
        need(fr is not None, "%s: nothing is displayed", what)
        need(len(fr) == len(keep), "%s: the running sequence has %d frames, loaded were %d", what, len(fr), len(keep))
        for q, (a, b) in enumerate(zip(fr, keep)):
            same(a, (b ^ inv).astype(int), "%s: frame %d on the mirrors%s" % (what, q, " (inverted)" if inv else ""))
        run, s = dev.running, dev.seqs[dev.running["seq"]]
        need(run["loop"], "%s: the sequence ends by itself", what)
        need(s["depth"] == 1, "%s: bit depth %d", what, s["depth"])
        need(s["control"].get(K["ALP_BIN_MODE"]) == K["ALP_BIN_UNINTERRUPTED"], "%s: mirrors go dark between frames", what)
        if o["op"] == "multiple":
            need(dev.mode() == "slave", "%s: frames advance without a trigger", what)
            need(dev.dev.get(K["ALP_TRIGGER_EDGE"]) == K["ALP_EDGE_RISING"], "%s: trigger edge is not rising", what)
            need(s["time"] == dev.min_time, "%s: picture time %s, the minimum is %s", what, s["time"], dev.min_time)
        else:
            need(dev.mode() == "master", "%s: the image waits for a trigger", what)
    if c["close"]:
        with sut("close"):
            ctl.close()
        need(not dev.open and dev.running is None, "the device is still in use after close")
    rec.nt(len(set(kinds)) > 1 and len(kinds) > 2)
    rec.label("inverted" if inv else "", "many loads" if len(kinds) > 6 else "", "single after multiple" if any(
        a == "multiple" and b == "single" for a, b in zip(kinds, kinds[1:])) else "", "reopened" if "open" in kinds else "")


def long_case():
    return st.fixed_dictionaries({"Nx": st.integers(4, 8), "Ny": st.integers(4, 8), "n": st.integers(20, 80), "mem": st.integers(6, 12),
                                  "seed": G.seeds, "share": G.fl(0, 1)})


def check_long(c, env, rec):
    """A feedback loop: any number of loads fits on the board as long as each of them does."""
    u = util()
    dev = F.ALP_PLUG.device = F.ALPDevice(c["Nx"], c["Ny"], c["mem"])
    g = np.random.default_rng(c["seed"])
    with sut("initialize"):
        ctl = u.ALPController()
        ctl.initialize()
    total = 0
    for k in range(c["n"]):
        many = g.random() < c["share"]
        ms = [g.random((c["Ny"], c["Nx"])) < 0.5 for _ in range(int(g.integers(1, 5)) if many else 1)]
        with sut("load number %d" % (k + 1)):
            ctl.load_multiple(ms) if many else ctl.load_single(ms[0])
        for a, b in zip(dev.frames(), ms):
            same(a, b.astype(int), "load number %d" % (k + 1))
        total += len(ms)
    with sut("close"):
        ctl.close()
    rec.nt(total > 2 * c["mem"])


def missing_case():
    return st.fixed_dictionaries({"alp": st.booleans(), "lux": st.booleans(), "invert": st.booleans()})


def check_missing(c, env, rec):
    """Without the vendor library the package still works and only the controller says what is missing."""
    try:
        with sut("importing the hardware package"):
            u = F.control(c["alp"], c["lux"])
        for have, fn in ((c["alp"], lambda: u.ALPController(invert=c["invert"])),
                         (c["lux"], lambda: u.LuxbeamController("10.0.0.1", invert=c["invert"]))):
            F.ALP_PLUG.device, F.LUX_PLUG.device = F.ALPDevice(4, 4), F.LuxDevice(4, 4)
            if have:
                with sut("controller"):
                    fn()
            else:
                must_raise("a controller without its vendor library", fn, ModuleNotFoundError)
        with sut("base class"):
            b = u.DMDControllerBase(invert=c["invert"])
            need(not b.is_initialized(), "base controller starts initialized")
            must_raise("loading before initialize", lambda: b.load_single(np.ones((2, 2), bool)))
            b.initialize()
            need(b.is_initialized(), "base controller not initialized")
        must_raise("loading with the base class", lambda: b.load_single(np.ones((2, 2), bool)), NotImplementedError)
        must_raise("loading with the base class", lambda: b.load_multiple([np.ones((2, 2), bool)]), NotImplementedError)
    finally:
        _u.clear()
    rec.nt(not (c["alp"] and c["lux"]))


SUBS = [
    Sub("history", case, check, 2400, "histories of loads, sessions and inversions on a simulated device; non-trivial = "
        "different kinds of operations, more than two", shards=3),
    Sub("long", long_case, check_long, 200, "20-80 loads on a small board; non-trivial = twice the memory of the board", shards=3),
    Sub("missing", missing_case, check_missing, 48, "vendor libraries absent; non-trivial = one absent", shards=1),
]
