"""Stand-ins for the vendor libraries, with the device behind them: what the mirrors show is computed from the calls."""
import functools
import importlib
import sys
import types

import numpy as np


class DeviceError(Exception):
    """The device refuses the call."""


class Fault(DeviceError):
    """An injected failure: cable, time-out, busy board."""


def faulty(cls):
    """Every call of the library may be refused: the device's `fault` counts the calls down to the one that fails."""
    def wrap(f):
        def call(self, *a, **k):
            d = self._dev
            if d.depth == 0 and d.fault is not None:
                d.fault -= 1
                if d.fault < 0:
                    d.fault = None
                    d.faults += 1
                    raise Fault("the device does not answer")
            d.depth += 1
            try:
                return f(self, *a, **k)
            finally:
                d.depth -= 1
        return functools.wraps(f)(call)
    for name, f in list(vars(cls).items()):
        if not name.startswith("_") and callable(f):
            setattr(cls, name, wrap(f))
    return cls


# ---- ALP (Vialux) ------------------------------------------------------------------------------------------------

ALP_CONST = dict(
    ALP_DEFAULT=0, ALP_ENABLE=1, ALP_DEVICE_NUMBER=2000, ALP_VERSION=2001, ALP_DEV_STATE=2002, ALP_AVAIL_MEMORY=2003,
    ALP_SYNCH_POLARITY=2004, ALP_TRIGGER_EDGE=2005, ALP_LEVEL_HIGH=2006, ALP_LEVEL_LOW=2007, ALP_EDGE_FALLING=2008,
    ALP_EDGE_RISING=2009, ALP_TRIGGER_TIME_OUT=2014, ALP_TIME_OUT_ENABLE=0, ALP_TIME_OUT_DISABLE=1, ALP_USB_CONNECTION=2016,
    ALP_DEV_DMDTYPE=2021, ALP_DEV_DISPLAY_HEIGHT=2057, ALP_DEV_DISPLAY_WIDTH=2058, ALP_SEQ_REPEAT=2100, ALP_FIRSTFRAME=2101,
    ALP_LASTFRAME=2102, ALP_BITNUM=2103, ALP_BIN_MODE=2104, ALP_BIN_NORMAL=2105, ALP_BIN_UNINTERRUPTED=2106,
    ALP_PWM_MODE=2107, ALP_DATA_FORMAT=2110, ALP_DATA_MSB_ALIGN=0, ALP_DATA_LSB_ALIGN=1, ALP_BITPLANES=2200, ALP_PICNUM=2201,
    ALP_PICTURE_TIME=2203, ALP_ILLUMINATE_TIME=2204, ALP_SYNCH_DELAY=2205, ALP_SYNCH_PULSEWIDTH=2206,
    ALP_TRIGGER_IN_DELAY=2207, ALP_MIN_PICTURE_TIME=2211, ALP_MIN_ILLUMINATE_TIME=2212, ALP_MAX_PICTURE_TIME=2213,
    ALP_ON_TIME=2214, ALP_OFF_TIME=2215, ALP_PROJ_MODE=2300, ALP_MASTER=2301, ALP_SLAVE=2302, ALP_PROJ_SYNC=2303,
    ALP_SYNCHRONOUS=2304, ALP_ASYNCHRONOUS=2305, ALP_PROJ_INVERSION=2306, ALP_PROJ_UPSIDE_DOWN=2307, ALP_PROJ_STEP=2329,
    ALP_PROJ_STATE=2400, ALP_PROJ_ACTIVE=1200, ALP_PROJ_IDLE=1201)


class _Id:
    """Sequence handle; like the c_ulong of the library it has a value."""

    def __init__(self, v):
        self.value = v


class ALPDevice:
    """One DMD with a board of finite memory (in frames)."""

    def __init__(self, Nx, Ny, memory=64, min_time=50, min_time_normal=80):
        self.Nx, self.Ny, self.memory = Nx, Ny, memory
        self.min_time, self.min_time_normal = min_time, min_time_normal
        self.calls = self.faults = self.depth = 0
        self.fault = None
        self.reset()

    def reset(self):
        self.open = False
        self.seqs = {}
        self.next = 1
        self.running = None
        self.dev = {}
        self.proj = {}

    # what the experiment sees
    def mode(self):
        c = ALP_CONST
        return "slave" if self.proj.get(c["ALP_PROJ_MODE"], c["ALP_MASTER"]) == c["ALP_SLAVE"] else "master"

    def frames(self):
        """Mirror patterns of the running sequence in display order; None when idle."""
        if self.running is None:
            return None
        s = self.seqs[self.running["seq"]]
        inv = bool(self.proj.get(ALP_CONST["ALP_PROJ_INVERSION"], 0))
        return [np.where(f < 0, f, f ^ inv if inv else f) for f in s["frames"]]


def make_alp(plug):
    """plug(): the device a new library object talks to."""
    mod = types.ModuleType("ALP4")
    for k, v in ALP_CONST.items():
        setattr(mod, k, v)
    c = ALP_CONST

    class ALP4:
        def __init__(self, version="4.3", libDir=None):
            self._version = version
            self._dev = plug()
            self._lastDDRseq = None
            self.Seqs = {}

        def _check(self):
            self._dev.calls += 1
            if not self._dev.open:
                raise DeviceError("ALP_NOT_AVAILABLE: the device is not allocated")
            return self._dev

        def _seq(self, SequenceId):
            h = self._lastDDRseq if SequenceId is None else SequenceId
            if h is None:
                raise DeviceError("no sequence")
            k = h.value if isinstance(h, _Id) else int(h)
            if k not in self._dev.seqs:
                raise DeviceError("ALP_PARM_INVALID: unknown sequence")
            return k

        def Initialize(self, DeviceNum=None):
            self._dev.calls += 1
            if self._dev.open:
                raise DeviceError("ALP_NOT_READY: already allocated")
            self._dev.reset()
            self._dev.open = True
            self.nSizeX, self.nSizeY = self._dev.Nx, self._dev.Ny

        def DevInquire(self, inquireType):
            d = self._check()
            used = sum(s["n"] for s in d.seqs.values())
            table = {c["ALP_DEV_DISPLAY_WIDTH"]: d.Nx, c["ALP_DEV_DISPLAY_HEIGHT"]: d.Ny,
                     c["ALP_AVAIL_MEMORY"]: d.memory - used}
            if inquireType in table:
                return table[inquireType]
            return d.dev.get(inquireType, 0)

        def DevControl(self, controlType, value):
            d = self._check()
            if controlType in (c["ALP_TRIGGER_EDGE"], c["ALP_SYNCH_POLARITY"]) and d.running is not None:
                raise DeviceError("ALP_NOT_IDLE")
            d.dev[controlType] = value

        def ProjControl(self, controlType, value):
            d = self._check()
            if controlType == c["ALP_PROJ_MODE"]:
                if value not in (c["ALP_MASTER"], c["ALP_SLAVE"], 0):
                    raise DeviceError("ALP_PARM_INVALID: projection mode")
                if d.running is not None:
                    raise DeviceError("ALP_NOT_IDLE")
            d.proj[controlType] = value

        def ProjInquire(self, inquireType, SequenceId=None):
            return self._check().proj.get(inquireType, 0)

        def SeqAlloc(self, nbImg=1, bitDepth=1):
            d = self._check()
            nbImg, bitDepth = int(nbImg), int(bitDepth)
            if nbImg < 1 or bitDepth < 1:
                raise DeviceError("ALP_PARM_INVALID: allocation")
            if sum(s["n"] for s in d.seqs.values()) + nbImg * bitDepth > d.memory:
                raise DeviceError("ALP_MEMORY_FULL")
            k, d.next = d.next, d.next + 1
            # memory that was never written shows something else
            d.seqs[k] = {"n": nbImg * bitDepth, "img": nbImg, "depth": bitDepth, "control": {}, "time": None,
                         "frames": [np.full((d.Ny, d.Nx), -1) for _ in range(nbImg)]}
            self._lastDDRseq = _Id(k)
            return self._lastDDRseq

        def SeqControl(self, controlType, value, SequenceId=None):
            d = self._check()
            d.seqs[self._seq(SequenceId)]["control"][controlType] = value

        def SeqInquire(self, inquireType, SequenceId=None):
            d = self._check()
            s = d.seqs[self._seq(SequenceId)]
            fast = s["control"].get(c["ALP_BIN_MODE"]) == c["ALP_BIN_UNINTERRUPTED"]
            if inquireType == c["ALP_MIN_PICTURE_TIME"]:
                return d.min_time if fast else d.min_time_normal
            if inquireType == c["ALP_PICNUM"]:
                return s["img"]
            if inquireType == c["ALP_PICTURE_TIME"]:
                return s["time"]
            return s["control"].get(inquireType, 0)

        def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
            d = self._check()
            k = self._seq(SequenceId)
            s = d.seqs[k]
            if d.running is not None and d.running["seq"] == k:
                raise DeviceError("ALP_SEQ_IN_USE")
            a = np.asarray(imgData)
            a = a.astype(np.uint8).ravel()
            n = PicLoad or s["img"] - PicOffset
            if a.size != n * d.Nx * d.Ny:
                raise DeviceError("the data hold %d mirrors, the sequence needs %d" % (a.size, n * d.Nx * d.Ny))
            lsb = s["control"].get(c["ALP_DATA_FORMAT"], 0) == c["ALP_DATA_LSB_ALIGN"]
            bits = (a & 1 if lsb else a >> 7).astype(int).reshape(n, d.Ny, d.Nx)
            for q in range(n):
                s["frames"][PicOffset + q] = bits[q].copy()

        def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None,
                      synchPulseWidth=None, triggerInDelay=None):
            d = self._check()
            s = d.seqs[self._seq(SequenceId)]
            least = self.SeqInquire(c["ALP_MIN_PICTURE_TIME"], SequenceId)
            if pictureTime is not None and pictureTime != 0 and pictureTime < least:
                raise DeviceError("ALP_PARM_INVALID: picture time below the minimum")
            s["time"] = pictureTime or 33334

        def Run(self, SequenceId=None, loop=True):
            d = self._check()
            if d.running is not None:
                raise DeviceError("ALP_NOT_IDLE")
            k = self._seq(SequenceId)
            d.running = {"seq": k, "loop": loop}

        def Halt(self):
            self._check().running = None

        def Wait(self):
            self._check()

        def FreeSeq(self, SequenceId=None):
            d = self._check()
            k = self._seq(SequenceId)
            if d.running is not None and d.running["seq"] == k:
                raise DeviceError("ALP_SEQ_IN_USE")
            del d.seqs[k]
            if self._lastDDRseq is not None and self._lastDDRseq.value == k:
                self._lastDDRseq = None

        def Free(self):
            d = self._check()
            if d.running is not None:
                raise DeviceError("ALP_NOT_IDLE")
            d.open = False
            d.seqs = {}

    mod.ALP4 = faulty(ALP4)
    mod.__all__ = ["ALP4"] + list(ALP_CONST)
    return mod


# ---- Luxbeam (Visitech) -----------------------------------------------------------------------------------------

LUX_CONST = dict(DISABLE=0, ENABLE=1, SEQ_CMD_RUN=1, SEQ_CMD_RESET=2, TRIG_MODE_NEGATIVE_EDGE=0, TRIG_MODE_POSITIVE_EDGE=1,
                 TRIG_MODE_NEGATIVE_LEVEL=2, TRIG_MODE_POSITIVE_LEVEL=3, TRIG_SOURCE_SOFTWARE=1, TRIG_SOURCE_ELECTRICAL=2,
                 TRIG_SOURCE_OPTICAL=4)


class _Expr:
    def __init__(self, f):
        self.f = f

    def __add__(self, o):
        return _Expr(lambda r: self.f(r) + _val(o, r))

    __radd__ = __add__

    def __sub__(self, o):
        return _Expr(lambda r: self.f(r) - _val(o, r))

    def __rsub__(self, o):
        return _Expr(lambda r: _val(o, r) - self.f(r))


def _val(v, regs):
    return v.f(regs) if isinstance(v, _Expr) else v


class _Program(str):
    body = None


class LuxDevice:
    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows
        self.calls = self.faults = self.depth = 0
        self.fault = None
        self.images, self.regs = {}, {}
        self.program = None
        self.run = self.reset = False
        self.gen = None
        self.memory = self.shown = None
        self.level = 0
        self.inverse = False
        self.waiting = None
        self.steps = 0

    def _exec(self, body):
        for ins in body:
            if ins[0] == "jump":
                while True:
                    yield from self._exec(ins[1])
            elif ins[0] == "range":
                _, key, a, b, inner = ins
                self.regs[key] = _val(a, self.regs)
                while self.regs[key] < _val(b, self.regs):
                    yield from self._exec(inner)
                    self.regs[key] += 1
            elif ins[0] == "load":
                self.memory = self.images.get(_val(ins[1], self.regs))
            elif ins[0] == "show":
                self.shown = None if self.memory is None else self.memory.copy()
            elif ins[0] == "trig":
                yield ins[1:]
            self.steps += 1
            if self.steps > 100000:
                raise DeviceError("the sequencer program never waits for a trigger")

    def _advance(self):
        self.steps = 0
        try:
            self.waiting = next(self.gen)
        except StopIteration:
            self.waiting = None

    def update(self):
        if self.reset:
            self.gen = self.waiting = None
        elif self.run and self.program is not None and self.gen is None:
            self.gen = self._exec(self.program.body)
            self._advance()

    def trigger(self, source, edge):
        """An edge on one of the inputs."""
        if not self.run or self.reset or self.waiting is None:
            return
        mode, mask = self.waiting[0], self.waiting[1]
        want = {LUX_CONST["TRIG_MODE_POSITIVE_EDGE"]: 1, LUX_CONST["TRIG_MODE_NEGATIVE_EDGE"]: 0,
                LUX_CONST["TRIG_MODE_POSITIVE_LEVEL"]: 1, LUX_CONST["TRIG_MODE_NEGATIVE_LEVEL"]: 0}[mode]
        if edge == want and mask & source:
            self._advance()

    def display(self):
        return None if self.shown is None else self.shown ^ self.inverse


def make_lux(plug):
    mod = types.ModuleType("Luxbeam")
    for k, v in LUX_CONST.items():
        setattr(mod, k, v)

    class LuxbeamSequencer:
        def __init__(self):
            self._body = []
            self._stack = [self._body]
            self._n = 1000

        def assign_var_reg(self, regno=None):
            if regno is None:
                regno, self._n = self._n, self._n + 1
            return _Expr(lambda r, k=regno: r.get(k, 0))

        def jump_loop_iter(self):
            inner = []
            self._stack[-1].append(("jump", inner))
            self._stack.append(inner)
            yield 0
            self._stack.pop()

        def range_loop_iter(self, start, stop):
            inner, key = [], self._n
            self._n += 1
            self._stack[-1].append(("range", key, start, stop, inner))
            self._stack.append(inner)
            yield 0, _Expr(lambda r: r[key])
            self._stack.pop()

        def load_global(self, inum, wait=0):
            self._stack[-1].append(("load", inum))

        def reset_global(self, wait=0):
            self._stack[-1].append(("show",))

        def wait(self, *a):
            pass

        def trig(self, mode, source, timeout=0):
            self._stack[-1].append(("trig", mode, source, timeout))

        def dumps(self):
            if len(self._stack) != 1:
                raise DeviceError("unfinished loop")
            p = _Program("program %d" % id(self))
            p.body = self._body
            return p

    class Luxbeam:
        def __init__(self, dmd_ip=None, data_port=52986, inverse=False, timeout=None, **kw):
            self._dev = plug()
            self._dev.inverse = bool(inverse)
            self._dev.ip, self._dev.timeout = dmd_ip, timeout
            self.cols, self.rows = self._dev.cols, self._dev.rows

        def _d(self):
            self._dev.calls += 1
            return self._dev

        def set_sequencer_state(self, cmd, state):
            d = self._d()
            if cmd == LUX_CONST["SEQ_CMD_RUN"]:
                d.run = bool(state)
            elif cmd == LUX_CONST["SEQ_CMD_RESET"]:
                d.reset = bool(state)
            else:
                raise DeviceError("unknown sequencer command")
            d.update()

        def load_sequence(self, text):
            d = self._d()
            d.program = text
            d.gen = d.waiting = None
            d.update()

        def set_sequencer_reg(self, reg_no, reg_val):
            self._d().regs[reg_no] = int(reg_val)

        def load_image(self, inum, image):
            d = self._d()
            a = np.asarray(image)
            if a.shape != (d.rows, d.cols):
                raise DeviceError("image has shape %s" % (a.shape,))
            d.images[inum] = a.astype(bool).copy()

        def set_software_sync(self, level):
            d = self._d()
            level = int(level)
            if level != d.level:
                d.level = level
                d.trigger(LUX_CONST["TRIG_SOURCE_SOFTWARE"], level)

    mod.Luxbeam, mod.LuxbeamSequencer = faulty(Luxbeam), LuxbeamSequencer
    mod.__all__ = ["Luxbeam", "LuxbeamSequencer"] + list(LUX_CONST)
    return mod


# ---- installing --------------------------------------------------------------------------------------------------

class Plug:
    def __init__(self):
        self.device = None

    def __call__(self):
        return self.device


ALP_PLUG, LUX_PLUG = Plug(), Plug()


def control(alp=True, lux=True):
    """The hardware package of pySLM2, imported with (or without) the vendor libraries."""
    for k in [k for k in sys.modules if k == "pySLM2.util" or k.startswith("pySLM2.util.")]:
        del sys.modules[k]
    sys.modules["ALP4"] = make_alp(ALP_PLUG) if alp else None
    sys.modules["Luxbeam"] = make_lux(LUX_PLUG) if lux else None
    return importlib.import_module("pySLM2.util")
