"""C34 A device that refuses a call in the middle: nothing half loaded is shown, and trying again works."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as F, gens as G
from vlib.core import Sub, Violation, need, same, sut

_u = {}


def util():
    if "u" not in _u:
        _u["u"] = F.control()
    return _u["u"]


def fault():
    return st.one_of(st.none(), st.integers(0, 12))


def op(alp):
    k = [st.fixed_dictionaries({"op": st.just("load"), "masks": st.lists(G.mask(), min_size=1, max_size=5), "one": st.booleans(),
                                "fault": fault(), "bad": st.sampled_from([None, None, None, "shape", "last"]),
                                "retry": st.sampled_from(["same", "next"])})] * 3
    k.append(st.fixed_dictionaries({"op": st.just("init"), "fault": st.one_of(st.none(), st.integers(0, 5))}))
    if alp:
        k.append(st.fixed_dictionaries({"op": st.just("close"), "fault": st.one_of(st.none(), st.integers(0, 3))}))
    else:
        k.append(st.fixed_dictionaries({"op": st.just("fire"), "n": st.integers(1, 7), "fault": st.one_of(st.none(), st.just(0))}))
        k.append(st.fixed_dictionaries({"op": st.just("electrical"), "n": st.integers(1, 7)}))
    return st.one_of(*k)


def case(alp):
    return st.fixed_dictionaries({"Nx": st.integers(2, 12), "Ny": st.integers(2, 12), "invert": st.booleans(), "mem": st.integers(6, 12),
                                  "first": st.one_of(st.none(), st.integers(0, 5)), "ops": st.lists(op(alp), min_size=1, max_size=8)})


def attempt(dev, n, what, fn):
    """Runs fn with the n-th call refused; True if it went through.  A refused call has to reach the caller."""
    dev.fault, before = n, dev.faults
    try:
        fn()
    except Exception as e:
        hit = dev.faults > before
        dev.fault = None
        if hit:
            return False
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:200])) from e
    hit, dev.fault = dev.faults > before, None
    need(not hit, "%s: the device refused a call and nobody was told", what)
    return True


def start(dev, ctl, n, what):
    """Initialize, trying again after a failure as a user would: close the connection if it is open, and once more."""
    was = ctl.is_initialized()
    if attempt(dev, n, what, ctl.initialize):
        need(ctl.is_initialized(), "%s: the controller does not report to be initialized", what)
        return True
    need(was or not ctl.is_initialized(), "%s failed, but the controller reports to be initialized", what)
    return False


def images(o, Ny, Nx):
    return [G.build_mask(m, Ny, Nx) for m in (o["masks"][:1] if o["one"] else o["masks"])]


def check_alp(c, env, rec):
    Nx, Ny, inv = c["Nx"], c["Ny"], c["invert"]
    u = util()
    dev = F.ALP_PLUG.device = F.ALPDevice(Nx, Ny, c["mem"])
    with sut("ALPController"):
        ctl = u.ALPController(invert=inv)

    def again(n, what):
        if not start(dev, ctl, n, what):
            if dev.open:
                with sut(what + ": closing after the failure"):
                    ctl.close()
                need(not dev.open, "%s: the device is still allocated after close", what)
            with sut(what + ": second attempt"):
                ctl.initialize()
            return 1
        return 0

    hurt = again(c["first"], "initialize")
    now = None
    for n, o in enumerate(c["ops"]):
        what = "operation %d (%s)" % (n, o["op"])
        if o["op"] in ("init", "close"):
            # initialising needs a closed device: both end in a fresh session
            if not attempt(dev, o["fault"] if o["op"] == "close" else None, what + ": close", ctl.close):
                hurt += 1
                with sut(what + ": closing again after a failure"):
                    ctl.close()
            need(not dev.open and dev.running is None and not dev.seqs, "%s: the board is still in use after close", what)
            hurt += again(o["fault"] if o["op"] == "init" else None, what)
            now = None
            need(dev.frames() is None, "%s: something is displayed", what)
            continue
        ms = images(o, Ny, Nx)
        keep = [m.copy() for m in ms]

        def load(ms):
            ctl.load_single(ms[0]) if o["one"] else ctl.load_multiple(ms)
        if o["bad"]:
            wrong = [m.copy() for m in ms]
            wrong[-1 if o["bad"] == "last" else 0] = np.ones((Ny, Nx + 1), bool)
            try:
                load(wrong)
                raise Violation("%s: an image of another size was accepted" % what)
            except Violation:
                raise
            except Exception:
                pass
            hurt += 1
            fr = dev.frames()
            need(fr is None or now is not None and len(fr) == len(now) and all(np.array_equal(a, b ^ inv) for a, b in zip(fr, now)),
                 "%s: after a refused image the device shows something that was never loaded", what)
        if not attempt(dev, o["fault"], what, lambda: load(ms)):
            hurt += 1
            fr = dev.frames()
            if fr is not None:
                # the old images may go on, complete; nothing else
                need(now is not None and len(fr) == len(now) and all(np.array_equal(a, b ^ inv) for a, b in zip(fr, now)),
                     "%s: after a failure the device shows something that was never loaded", what)
            if o["retry"] == "next":
                now = None if fr is None else now
                continue
            with sut(what + ": second attempt"):
                load(ms)
        for m, k in zip(ms, keep):
            same(m, k, what + ": the caller's image")
        now = keep
        fr = dev.frames()
        need(fr is not None, "%s: nothing is displayed", what)
        need(len(fr) == len(keep), "%s: the running sequence has %d frames, loaded were %d", what, len(fr), len(keep))
        for q, (a, b) in enumerate(zip(fr, keep)):
            same(a, (b ^ inv).astype(int), "%s: frame %d on the mirrors" % (what, q))
        need(dev.mode() == ("master" if o["one"] else "slave"), "%s: the device is in %s mode", what, dev.mode())
        need(len(dev.seqs) == 1, "%s: the board holds %d sequences, one is in use", what, len(dev.seqs))
    with sut("close"):
        ctl.close()
    need(not dev.open and dev.running is None, "the device is still in use after close")
    rec.nt(hurt > 0 and now is not None)
    rec.label("a failure" if hurt else "", "several failures" if hurt > 2 else "", "inverted" if inv else "")


def check_lux(c, env, rec):
    Nx, Ny, inv = c["Nx"], c["Ny"], c["invert"]
    u = util()
    dev = F.LUX_PLUG.device = F.LuxDevice(Nx, Ny)
    with sut("LuxbeamController"):
        ctl = u.LuxbeamController("10.0.0.7", invert=inv)
    hurt = 0
    if not start(dev, ctl, c["first"], "initialize"):
        hurt += 1
        with sut("initialize again"):
            ctl.initialize()
    seq, pos, last, wild = None, 0, None, False

    def look(what):
        d = dev.display()
        if wild:
            return
        if seq is None:
            # nothing runs: the mirrors keep what they showed
            need(d is None if last is None else d is not None and np.array_equal(d, last),
                 "%s: the mirrors changed although no complete load is running", what)
            return
        need(d is not None, "%s: nothing (or an image never loaded) is displayed", what)
        same(d, seq[pos % len(seq)] ^ inv, "%s: mirrors, expected image %d of %d" % (what, pos % len(seq), len(seq)))

    for n, o in enumerate(c["ops"]):
        what = "operation %d (%s)" % (n, o["op"])
        if o["op"] == "init":
            if not start(dev, ctl, o["fault"], what):
                hurt += 1
                with sut(what + ": second attempt"):
                    ctl.initialize()
            last, seq = dev.display(), None
        elif o["op"] == "load":
            ms = images(o, Ny, Nx)
            keep = [m.copy() for m in ms]

            def load(ms):
                ctl.load_single(ms[0]) if o["one"] else ctl.load_multiple(ms)
            ok = True
            before = dev.display()
            if o["bad"]:
                wrong = [m.copy() for m in ms]
                wrong[-1 if o["bad"] == "last" else 0] = np.ones((Ny, Nx + 1), bool)
                try:
                    load(wrong)
                    raise Violation("%s: an image of another size was accepted" % what)
                except Violation:
                    raise
                except Exception:
                    hurt += 1
            elif not attempt(dev, o["fault"], what, lambda: load(ms)):
                ok = False
                hurt += 1
            if o["bad"] or not ok:
                d = dev.display()
                need((d is None) == (before is None) and (d is None or np.array_equal(d, before)),
                     "%s: after a failed load the mirrors changed", what)
                if dev.run and not dev.reset and dev.gen is not None:
                    # the very first call was refused: the old load goes on, complete
                    for k, m in enumerate(seq if seq is not None else []):
                        need(k in dev.images and np.array_equal(dev.images[k], m),
                             "%s: the failed load runs with a mixture of old and new images", what)
                    need(seq is not None and dev.regs.get(0) == len(seq), "%s: after a failed load the sequencer runs", what)
                else:
                    last, seq = dev.display(), None
                if o["retry"] == "next" and not o["bad"]:
                    look(what)
                    continue
                with sut(what + ": second attempt"):
                    load(ms)
            for m, k in zip(ms, keep):
                same(m, k, what + ": the caller's image")
                m[...] = ~m
            seq, pos = keep, 0
        elif o["op"] == "electrical":
            for _ in range(o["n"]):
                s = F.LUX_CONST["TRIG_SOURCE_ELECTRICAL"]
                dev.trigger(s, 1)
                dev.trigger(s, 0)
                pos += 1
                look(what)
        else:
            for k in range(o["n"]):
                if attempt(dev, o["fault"] if k == 0 else None, what, ctl.fire_software_trigger):
                    pos += 1
                else:
                    hurt += 1
                look("%s %d" % (what, k + 1))
        look(what)
    rec.nt(hurt > 0 and seq is not None)
    rec.label("a failure" if hurt else "", "several failures" if hurt > 2 else "", "inverted" if inv else "")


SUBS = [
    Sub("vialux", lambda: case(True), check_alp, 1800, "histories of loads and sessions with refused device calls and ill-sized "
        "images; non-trivial = a failure, and a complete load displayed in the end", shards=3),
    Sub("visitech", lambda: case(False), check_lux, 2400, "histories of loads and triggers with refused device calls and ill-sized "
        "images; non-trivial = a failure, and a complete load running in the end", shards=3),
]
