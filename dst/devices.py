"""Simulated DMD hardware behind the vendor bindings (ALP4lib and Luxbeam), with a simulated clock.

The library imports the vendor bindings by name; that import is the seam.  Everything below the binding interface is a
stub: a device model that keeps the state a real device keeps (allocated device, sequences, image slots, program,
mirrors), advances in simulated microseconds, takes external trigger edges at any point of any command, and fails the
way bindings fail.  A `World` belongs to one run; which command fails, stalls or is interrupted is decided by the plan.
"""
import hashlib
import types

import numpy as np


class HostCrash(BaseException):
    """The host process dies here. Not an Exception: nothing in the library may handle it."""


class SimLimit(BaseException):
    """A call issued more device commands or waited longer than any correct call can."""


class DeviceError(Exception):
    """What the vendor bindings raise when a command fails (ALP4lib raises plain Exceptions)."""


class DeviceTimeout(TimeoutError):
    """socket.timeout of the Luxbeam binding."""


def digest(img):
    if img is None:
        return "dark"
    return hashlib.sha1(np.packbits(img).tobytes() + repr(img.shape).encode()).hexdigest()[:10]


class World:
    """Clock, log, fault plan and devices of one run."""
    MAX_COMMANDS_PER_CALL = 4000

    def __init__(self, width=16, height=8):
        self.width, self.height = width, height
        self.now = 0
        self.log = []
        self.stats = {}
        self.alp_device = AlpDevice(self)
        self.lux_device = LuxDevice(self)
        self.dead = False           # the host process is gone
        self.call_index = 0         # commands sent in the current library call
        self.call_faults = {}       # command index -> fault
        self.call_triggers = {}     # command index -> [(phase, n)]
        self.raised = []            # faults that surfaced as exceptions in the current call
        self.fired = []             # faults injected in the current call
        self.commands = 0           # commands that reached a device
        self.on_mirror = []         # callbacks(device, image, why)
        self.on_command = []        # callbacks(device, name)
        self.trigger_gap = 0

    # -- log and statistics
    def note(self, *what):
        self.log.append((self.now,) + tuple(what))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # -- clock
    def advance(self, dt):
        end = self.now + int(dt)
        while True:
            pending = [t for t in (self.alp_device.next_event(), self.lux_device.next_event()) if t is not None and t <= end]
            if not pending:
                break
            self.now = max(self.now, min(pending))
            self.alp_device.run_events()
            self.lux_device.run_events()
        self.now = end

    def pulse(self, source="electrical"):
        """One external trigger pulse: rising edge, then falling edge."""
        self.count("triggers")
        self.note("trigger", source)
        self.alp_device.edge(True, source)
        self.lux_device.edge(True, source)
        self.advance(5)
        self.alp_device.edge(False, source)
        self.lux_device.edge(False, source)
        self.advance(5)

    # -- library calls
    def begin_call(self, faults=(), triggers=()):
        self.call_index = 0
        self.call_faults = {}
        for f in faults:
            self.call_faults.setdefault(int(f["at"]), f)
        self.call_triggers = {}
        for t in triggers:
            self.call_triggers.setdefault(int(t["at"]), []).append(t)
        self.raised = []
        self.fired = []

    def restart_host(self):
        self.dead = False
        self.call_faults = {}
        self.call_triggers = {}

    def crash(self):
        self.count("fault:host_crash")
        self.note("host crash")
        self.dead = True
        self.alp_device.host_gone()
        raise HostCrash()

    def command(self, device, name, effect, cost=(10, 10), chunks=None, no_raise=False, error=None, may_hang=False):
        """One device command. `chunks`: number of steps of an upload, effect(j) does step j; otherwise effect()."""
        if self.dead:
            raise HostCrash()
        k = self.call_index
        self.call_index += 1
        if self.call_index > self.MAX_COMMANDS_PER_CALL:
            raise SimLimit("more than %d device commands in one call" % self.MAX_COMMANDS_PER_CALL)
        fault = self.call_faults.get(k)
        kind = fault["kind"] if fault else None
        error = error or (lambda msg: DeviceError(msg))
        trig = self.call_triggers.get(k, [])
        self.note("cmd", device, name)

        def triggers(phase):
            for t in trig:
                if t.get("phase", "before") == phase:
                    for _ in range(int(t.get("n", 1))):
                        self.pulse(t.get("source", "electrical"))
                        self.advance(int(t.get("gap", 700)))
                        self.count("triggers_during_calls")

        def fire():
            self.fired.append((k, kind, name))
            self.count("fault:" + kind)
            self.note("fault", kind, name)

        def fail(exc):
            if not no_raise or not isinstance(exc, Exception):
                self.raised.append((k, kind, name))
                raise exc

        def hang():
            # no timeout: the call never comes back, the operator kills the process
            self.count("fault:hang")
            self.crash()

        triggers("before")
        if kind == "slow":
            fire()
            self.advance(int(fault.get("dt", 50000)))
        if kind == "crash_before":
            fire()
            self.crash()
        if kind == "interrupt_before":
            fire()
            fail(KeyboardInterrupt())
        if kind == "err_before":
            fire()
            self.advance(cost[0])
            fail(error("injected: %s failed" % name))
            return None
        if kind == "lost_request":
            fire()
            if may_hang:
                hang()
            self.advance(1000000)
            fail(DeviceTimeout("injected: %s timed out (request lost)" % name))
            return None
        self.advance(cost[0])
        for cb in self.on_command:
            cb(device, name)
        self.commands += 1
        result = None
        if chunks is None:
            result = effect()
        else:
            stop = None
            if kind in ("partial", "partial_interrupt", "partial_crash"):
                stop = min(chunks - 1, int(fault.get("chunk", 0)))
            for j in range(chunks):
                if stop is not None and j == stop:
                    fire()
                    if kind == "partial_crash":
                        self.crash()
                    fail(KeyboardInterrupt() if kind == "partial_interrupt" else error("injected: %s broke off" % name))
                    return None
                result = effect(j)
                self.advance(7)
                for t in trig:
                    if t.get("phase") == "chunk" and int(t.get("chunk", 0)) == j:
                        for _ in range(int(t.get("n", 1))):
                            self.pulse(t.get("source", "electrical"))
                            self.advance(int(t.get("gap", 700)))
                            self.count("triggers_during_calls")
        self.advance(cost[1])
        triggers("after")
        if kind == "crash_after":
            fire()
            self.crash()
        if kind == "interrupt_after":
            fire()
            fail(KeyboardInterrupt())
        if kind in ("err_after", "partial", "partial_interrupt", "partial_crash") and (kind == "err_after"):
            fire()
            fail(error("injected: %s reported an error" % name))
            return result
        if kind == "lost_ack":
            fire()
            if may_hang:
                hang()
            self.advance(1000000)
            fail(DeviceTimeout("injected: %s timed out (acknowledgement lost)" % name))
            return result
        return result


class Mirrors:
    def __init__(self, world, name):
        self.world, self.name = world, name
        self.image = None

    def set(self, image, why):
        self.image = None if image is None else np.array(image, dtype=bool)
        self.world.count("mirror_updates")
        self.world.note("mirrors", self.name, digest(self.image), why)
        for cb in self.world.on_mirror:
            cb(self.name, self.image, why)


# ----------------------------------------------------------------------------------------------------------- ALP (Vialux)

ALP_CONST = dict(
    ALP_DEFAULT=0, ALP_OK=0, ALP_ENABLE=1, ALP_INVALID_ID=0xFFFFFFFF,
    ALP_DEVICE_NUMBER=2000, ALP_VERSION=2001, ALP_DEV_STATE=2002, ALP_AVAIL_MEMORY=2003,
    ALP_SYNCH_POLARITY=2004, ALP_TRIGGER_EDGE=2005, ALP_LEVEL_HIGH=2006, ALP_LEVEL_LOW=2007,
    ALP_EDGE_FALLING=2008, ALP_EDGE_RISING=2009,
    ALP_DEV_DMDTYPE=2021, ALP_DEV_DISPLAY_HEIGHT=2057, ALP_DEV_DISPLAY_WIDTH=2058,
    ALP_DEV_DMD_MODE=2064, ALP_PWM_LEVEL=2063, ALP_USB_CONNECTION=2016,
    ALP_DEV_BUSY=1100, ALP_DEV_READY=1101, ALP_DEV_IDLE=1102,
    ALP_SEQ_REPEAT=2100, ALP_SEQ_PUT_LOCK=2119, ALP_FIRSTFRAME=2101, ALP_LASTFRAME=2102, ALP_PICNUM=2200,
    ALP_BITPLANES=2200, ALP_BITNUM=2103, ALP_BIN_MODE=2104, ALP_BIN_NORMAL=2105, ALP_BIN_UNINTERRUPTED=2106,
    ALP_PWM_MODE=2107, ALP_DATA_FORMAT=2110, ALP_DATA_MSB_ALIGN=0, ALP_DATA_LSB_ALIGN=1, ALP_DATA_BINARY_TOPDOWN=2,
    ALP_MIN_PICTURE_TIME=2211, ALP_PICTURE_TIME=2203, ALP_ILLUMINATE_TIME=2204, ALP_MIN_ILLUMINATE_TIME=2212,
    ALP_MAX_PICTURE_TIME=2213, ALP_TRIGGER_IN_DELAY=2207, ALP_SYNCH_DELAY=2205, ALP_SYNCH_PULSEWIDTH=2206,
    ALP_PROJ_MODE=2300, ALP_MASTER=2301, ALP_SLAVE=2302, ALP_PROJ_STEP=2329, ALP_PROJ_SYNC=2303, ALP_SYNCHRONOUS=2304,
    ALP_ASYNCHRONOUS=2305, ALP_PROJ_INVERSION=2306, ALP_PROJ_UPSIDE_DOWN=2307, ALP_PROJ_STATE=2400,
    ALP_PROJ_ACTIVE=1200, ALP_PROJ_IDLE=1201, ALP_PROJ_QUEUE_MODE=2314, ALP_PROJ_LEGACY=0,
    ALP_PROJ_LEFT_RIGHT_FLIP=2346)
C = types.SimpleNamespace(**ALP_CONST)


class AlpSequence:
    def __init__(self, n, depth, shape):
        self.n, self.depth = n, depth
        self.frames = np.zeros((n,) + shape, dtype=bool)
        self.written = np.zeros(n * shape[0], dtype=bool)     # rows
        self.bin_mode = C.ALP_BIN_NORMAL
        self.picture_time = None
        self.repeat = 1
        self.put_lock = True
        self.first, self.last = 0, n - 1


class AlpDevice:
    """State of the device and its driver; survives handles (controller objects), not a host crash."""
    MIN_PICTURE = {C.ALP_BIN_NORMAL: 44, C.ALP_BIN_UNINTERRUPTED: 50}

    def __init__(self, world):
        self.world = world
        self.mirrors = Mirrors(world, "alp")
        self.memory = 64
        self.freeseq_warns = False       # some binding versions only print a warning when freeing fails
        self.free_drops_library = False  # some binding versions cannot be used again after Free
        self.freeseq_forgets = False     # some binding versions reset the last sequence after freeing it
        self.owner = None
        self.next_id = 1
        self.reset()

    def reset(self):
        self.seqs = {}
        self.proj_mode = C.ALP_MASTER
        self.step = C.ALP_DEFAULT
        self.trigger_edge = C.ALP_EDGE_FALLING
        self.inversion = False
        self.upside_down = False
        self.flip = False
        self.running = None      # sequence id
        self.loop = True
        self.pos = None
        self.next_frame_at = None
        self.dark_at = None
        self.busy_until = 0
        self.remaining = None

    def used(self):
        return sum(s.n * s.depth for s in self.seqs.values())

    def host_gone(self):
        if self.owner is not None:
            self.owner = None
            self.stop("host gone")
            self.reset()

    # -- projection
    def show(self, why):
        seq = self.seqs[self.running]
        img = seq.frames[self.pos]
        if self.inversion:
            img = ~img
        if self.upside_down:
            img = img[::-1]
        if self.flip:
            img = img[:, ::-1]
        self.world.count("alp_frames")
        self.mirrors.set(img, why)

    def start(self, seqid, loop):
        self.running, self.loop = seqid, loop
        self.pos = None
        self.remaining = None if loop else self.seqs[seqid].repeat * self.seqs[seqid].n
        self.next_frame_at = self.dark_at = None
        self.busy_until = self.world.now
        if self.proj_mode == C.ALP_MASTER:
            self.advance_frame("start")

    def picture_time(self, seq):
        return seq.picture_time if seq.picture_time is not None else 33334

    def advance_frame(self, why):
        seq = self.seqs[self.running]
        if self.remaining is not None:
            if self.remaining == 0:
                self.stop("sequence done")
                return
            self.remaining -= 1
        if self.pos is None or self.pos >= seq.last:
            self.pos = seq.first
        else:
            self.pos += 1
        pt = self.picture_time(seq)
        static = (self.proj_mode == C.ALP_MASTER and why == "cycle" and seq.first == seq.last
                  and seq.bin_mode == C.ALP_BIN_UNINTERRUPTED)
        if not static:
            self.show(why)
        self.busy_until = self.world.now + pt
        if self.proj_mode == C.ALP_MASTER:
            self.next_frame_at = self.world.now + pt
        self.dark_at = self.world.now + max(1, pt - 10) if seq.bin_mode == C.ALP_BIN_NORMAL else None

    def stop(self, why):
        if self.running is not None or self.mirrors.image is not None:
            self.running = None
            self.pos = None
            self.next_frame_at = self.dark_at = None
            self.mirrors.set(None, why)

    def next_event(self):
        if self.running is None:
            return None
        times = [t for t in (self.next_frame_at, self.dark_at) if t is not None]
        if self.remaining == 0 and self.proj_mode == C.ALP_SLAVE:
            times.append(self.busy_until)
        return min(times) if times else None

    def run_events(self):
        if self.running is None:
            return
        now = self.world.now
        if self.dark_at is not None and self.dark_at <= now:
            self.dark_at = None
            self.mirrors.set(None, "dark phase")
        if self.remaining == 0 and self.proj_mode == C.ALP_SLAVE and self.busy_until <= now:
            self.stop("sequence done")
            return
        if self.next_frame_at is not None and self.next_frame_at <= now:
            self.next_frame_at = None
            self.advance_frame("cycle")

    def edge(self, rising, source):
        if source != "electrical" or self.running is None:
            return
        if self.proj_mode != C.ALP_SLAVE and self.step == C.ALP_DEFAULT:
            return
        wanted = self.trigger_edge == C.ALP_EDGE_RISING
        if rising != wanted:
            return
        if self.pos is not None and self.world.now < self.busy_until:
            self.world.count("alp_triggers_missed")
            return                # picture time not over: the trigger is lost
        self.advance_frame("trigger")


def make_alp_module(get_world):
    """A stand-in for the ALP4 module (ALP4lib)."""
    mod = types.ModuleType("ALP4")
    for k, v in ALP_CONST.items():
        setattr(mod, k, v)

    class ALP4(object):
        def __init__(self, version="4.3", libDir=None):
            self._world = get_world()
            self._dev = self._world.alp_device
            self._lastDDRseq = None
            self._lib = True
            self.ALP_ID = None
            self.nSizeX = None
            self.nSizeY = None

        # plumbing
        def _cmd(self, name, effect, **kw):
            if not self._lib:
                raise AttributeError("'ALP4' object has no attribute '_ALPLib'")
            return self._world.command("alp", name, effect, **kw)

        def _check(self):
            if self.ALP_ID is None or self._dev.owner is not self.ALP_ID:
                raise DeviceError("The specified ALP device has not been found or is not ready (ALP_INVALID_ID).")

        def _seq(self, SequenceId):
            if SequenceId is None:
                SequenceId = self._lastDDRseq
            if SequenceId is None:
                raise DeviceError("No sequence to display.")
            if SequenceId not in self._dev.seqs:
                raise DeviceError("The sequence id is not valid (ALP_PARM_INVALID).")
            return SequenceId, self._dev.seqs[SequenceId]

        def Initialize(self, DeviceNum=None):
            d = self._dev

            def effect():
                if d.owner is not None:
                    raise DeviceError("Cannot open DMD. The specified ALP device is already allocated (ALP_NOT_AVAILABLE).")
                d.reset()
                d.owner = object()
                self.ALP_ID = d.owner
            self._cmd("DevAlloc", effect, cost=(200, 100))
            self._cmd("DevInquire", lambda: None)
            self.nSizeX, self.nSizeY = self._world.width, self._world.height

        def Free(self):
            d = self._dev

            def effect():
                self._check()
                d.stop("device freed")
                d.reset()
                d.owner = None
                self.ALP_ID = None
            self._cmd("DevFree", effect, cost=(100, 50))
            if d.free_drops_library:
                self._lib = False

        def Halt(self):
            def effect():
                self._check()
                self._dev.stop("halt")
            self._cmd("Halt", effect)

        def Run(self, SequenceId=None, loop=True):
            def effect():
                self._check()
                sid, seq = self._seq(SequenceId)
                self._dev.start(sid, loop)
            self._cmd("Run", effect)

        def Wait(self):
            def effect():
                self._check()
                d = self._dev
                if d.running is not None and (d.remaining is None or d.proj_mode == C.ALP_SLAVE):
                    raise SimLimit("waiting for the end of a projection that never ends")
                while d.running is not None:
                    self._world.advance(1000)
            self._cmd("Wait", effect)

        def SeqAlloc(self, nbImg=1, bitDepth=1):
            def effect():
                self._check()
                d = self._dev
                n, b = int(nbImg), int(bitDepth)
                if n < 1 or b < 1 or b > 16:
                    raise DeviceError("Cannot allocate image sequence (ALP_PARM_INVALID).")
                if d.used() + n * b > d.memory:
                    raise DeviceError("Cannot allocate image sequence. The memory is full (ALP_MEMORY_FULL).")
                sid = d.next_id
                d.next_id += 1
                d.seqs[sid] = AlpSequence(n, b, (self._world.height, self._world.width))
                return sid
            sid = self._cmd("SeqAlloc", effect, cost=(100, 20))
            self._lastDDRseq = sid
            return sid

        def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
            if dataFormat not in ("Python", "C"):
                raise ValueError('dataFormat must be one of "Python" or "C"')
            data = np.asarray(imgData).astype(np.uint8).ravel() if dataFormat == "Python" else np.frombuffer(imgData, dtype=np.uint8)
            w, h = self._world.width, self._world.height
            if SequenceId is None:
                SequenceId = self._lastDDRseq
            known = self._dev.seqs.get(SequenceId)
            n = int(PicLoad) or (known.n - int(PicOffset) if known is not None else 1)
            chunks = max(1, min(n * 2, 8))

            def effect(j):
                self._check()
                sid, seq = self._seq(SequenceId)
                if seq.put_lock and self._dev.running == sid:
                    raise DeviceError("The sequence is currently in use (ALP_SEQ_IN_USE).")
                if int(PicOffset) < 0 or int(PicOffset) + n > seq.n:
                    raise DeviceError("Cannot send image sequence to device (ALP_PARM_INVALID).")
                if data.size < n * w * h:
                    # the driver reads beyond the buffer: garbage on the device
                    buf = np.concatenate([data, np.resize(np.array([255, 0, 255], np.uint8), n * w * h - data.size)])
                else:
                    buf = data[:n * w * h]
                bits = (buf >= 128).reshape(n * h, w)
                rows = np.array_split(np.arange(n * h), chunks)[j]
                flat = seq.frames.reshape(-1, w)
                flat[rows + int(PicOffset) * h] = bits[rows]
                seq.written[rows + int(PicOffset) * h] = True
            self._cmd("SeqPut", effect, cost=(100, 100), chunks=chunks)

        def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None,
                      synchPulseWidth=None, triggerInDelay=None):
            def effect():
                self._check()
                sid, seq = self._seq(SequenceId)
                if self._dev.running == sid:
                    raise DeviceError("The sequence is currently in use (ALP_SEQ_IN_USE).")
                lo = self._dev.MIN_PICTURE[seq.bin_mode]
                pt = pictureTime
                if pt is not None and pt != C.ALP_DEFAULT:
                    if pt < lo:
                        raise DeviceError("Cannot set timing (ALP_PARM_INVALID).")
                    seq.picture_time = int(pt)
                else:
                    it = illuminationTime
                    seq.picture_time = None if it in (None, C.ALP_DEFAULT) else max(lo, int(it))
            self._cmd("SeqTiming", effect)

        def SeqControl(self, controlType, value, SequenceId=None):
            def effect():
                self._check()
                sid, seq = self._seq(SequenceId)
                if self._dev.running == sid:
                    raise DeviceError("The sequence is currently in use (ALP_SEQ_IN_USE).")
                if controlType == C.ALP_BIN_MODE:
                    if value not in (C.ALP_BIN_NORMAL, C.ALP_BIN_UNINTERRUPTED):
                        raise DeviceError("ALP_PARM_INVALID")
                    seq.bin_mode = value
                elif controlType == C.ALP_SEQ_REPEAT:
                    seq.repeat = int(value)
                elif controlType == C.ALP_FIRSTFRAME:
                    seq.first = int(value)
                elif controlType == C.ALP_LASTFRAME:
                    seq.last = int(value)
                elif controlType == C.ALP_SEQ_PUT_LOCK:
                    seq.put_lock = value == C.ALP_DEFAULT
            self._cmd("SeqControl", effect)

        def SeqInquire(self, inquireType, SequenceId=None):
            def effect():
                self._check()
                sid, seq = self._seq(SequenceId)
                lo = self._dev.MIN_PICTURE[seq.bin_mode]
                return {C.ALP_MIN_PICTURE_TIME: lo, C.ALP_PICTURE_TIME: self._dev.picture_time(seq),
                        C.ALP_MAX_PICTURE_TIME: 10000000, C.ALP_PICNUM: seq.n, C.ALP_BITNUM: seq.depth,
                        C.ALP_BIN_MODE: seq.bin_mode, C.ALP_SEQ_REPEAT: seq.repeat, C.ALP_FIRSTFRAME: seq.first,
                        C.ALP_LASTFRAME: seq.last, C.ALP_ILLUMINATE_TIME: self._dev.picture_time(seq) - 2,
                        C.ALP_MIN_ILLUMINATE_TIME: lo - 2}.get(inquireType, 0)
            return self._cmd("SeqInquire", effect)

        def DevInquire(self, inquireType):
            def effect():
                self._check()
                d = self._dev
                return {C.ALP_DEV_DISPLAY_WIDTH: self._world.width, C.ALP_DEV_DISPLAY_HEIGHT: self._world.height,
                        C.ALP_AVAIL_MEMORY: d.memory - d.used(), C.ALP_TRIGGER_EDGE: d.trigger_edge,
                        C.ALP_DEV_STATE: C.ALP_DEV_BUSY if d.running is not None else C.ALP_DEV_IDLE}.get(inquireType, 0)
            return self._cmd("DevInquire", effect)

        def ProjInquire(self, inquireType, SequenceId=None):
            def effect():
                self._check()
                d = self._dev
                return {C.ALP_PROJ_MODE: d.proj_mode, C.ALP_PROJ_INVERSION: int(d.inversion),
                        C.ALP_PROJ_STATE: C.ALP_PROJ_ACTIVE if d.running is not None else C.ALP_PROJ_IDLE}.get(inquireType, 0)
            return self._cmd("ProjInquire", effect)

        def ProjControl(self, controlType, value):
            def effect():
                self._check()
                d = self._dev
                if controlType in (C.ALP_PROJ_MODE, C.ALP_PROJ_STEP) and d.running is not None:
                    raise DeviceError("The device is not idle (ALP_NOT_IDLE).")
                if controlType == C.ALP_PROJ_MODE:
                    if value not in (C.ALP_MASTER, C.ALP_SLAVE):
                        raise DeviceError("ALP_PARM_INVALID")
                    d.proj_mode = value
                elif controlType == C.ALP_PROJ_INVERSION:
                    d.inversion = value != C.ALP_DEFAULT
                elif controlType == C.ALP_PROJ_UPSIDE_DOWN:
                    d.upside_down = value != C.ALP_DEFAULT
                elif controlType == C.ALP_PROJ_LEFT_RIGHT_FLIP:
                    d.flip = value != C.ALP_DEFAULT
                elif controlType == C.ALP_PROJ_STEP:
                    d.step = value
            self._cmd("ProjControl", effect)

        def DevControl(self, controlType, value):
            def effect():
                self._check()
                d = self._dev
                if controlType == C.ALP_TRIGGER_EDGE:
                    if d.running is not None:
                        raise DeviceError("The device is not idle (ALP_NOT_IDLE).")
                    if value == C.ALP_DEFAULT:
                        value_ = C.ALP_EDGE_FALLING
                    else:
                        value_ = value
                    if value_ not in (C.ALP_EDGE_FALLING, C.ALP_EDGE_RISING):
                        raise DeviceError("ALP_PARM_INVALID")
                    d.trigger_edge = value_
            self._cmd("DevControl", effect)

        def FreeSeq(self, SequenceId=None):
            if SequenceId is None:
                SequenceId = self._lastDDRseq
            if SequenceId is None:
                raise DeviceError("No sequence to free.")
            d = self._dev

            def effect():
                self._check()
                problem = None
                if SequenceId not in d.seqs:
                    problem = "Unable to free the image sequence (ALP_PARM_INVALID)."
                elif d.running == SequenceId:
                    problem = "Unable to free the image sequence (ALP_SEQ_IN_USE)."
                if problem:
                    if d.freeseq_warns:
                        self._world.note("warning", problem)
                        return
                    raise DeviceError(problem)
                del d.seqs[SequenceId]
            self._cmd("SeqFree", effect, no_raise=d.freeseq_warns)
            if d.freeseq_forgets and self._lastDDRseq == SequenceId:
                self._lastDDRseq = None

    mod.ALP4 = ALP4
    return mod


# ------------------------------------------------------------------------------------------------------ Luxbeam (Visitech)

LUX_CONST = dict(
    SEQ_CMD_RUN=1, SEQ_CMD_RESET=2, ENABLE=1, DISABLE=0,
    TRIG_MODE_POSITIVE_EDGE=1, TRIG_MODE_NEGATIVE_EDGE=2, TRIG_MODE_POSITIVE_LEVEL=3, TRIG_MODE_NEGATIVE_LEVEL=4,
    TRIG_SOURCE_SOFTWARE=1, TRIG_SOURCE_ELECTRICAL=2, TRIG_SOURCE_OPTICAL=4, TRIG_SOURCE_INTERNAL=8)
L = types.SimpleNamespace(**LUX_CONST)


class Var:
    """A sequencer variable, possibly with an offset (inum + 1)."""
    def __init__(self, name, offset=0):
        self.name, self.offset = name, offset

    def __add__(self, k):
        return Var(self.name, self.offset + int(k))
    __radd__ = __add__

    def __sub__(self, k):
        return Var(self.name, self.offset - int(k))

    def encode(self):
        return ["var", self.name, self.offset]


def _enc(v):
    return v.encode() if isinstance(v, Var) else ["const", int(v)]


class LuxDevice:
    SLOTS = 64

    def __init__(self, world):
        self.world = world
        self.mirrors = Mirrors(world, "lux")
        self.dmd_memory = None
        self.writes = 0          # rows written so far
        self.power_on()

    def power_on(self):
        self.slots = [None] * self.SLOTS
        self.writes += 1
        self.program = None
        self.regs = {}
        self.run = False
        self.reset_line = True
        self.soft = 0
        self.dmd_memory = None
        self.pc = 0
        self.vars = {}
        self.wake = None
        self.waiting = None
        self.mirrors.image = None

    def power_cycle(self):
        self.power_on()
        self.mirrors.set(None, "power cycle")

    # -- sequencer
    def value(self, e):
        if e[0] == "const":
            return e[1]
        if e[0] == "var":
            name = e[1]
            v = self.regs.get(int(name[1:]), 0) if name.startswith("r") else self.vars.get(name, 0)
            return v + e[2]
        raise AssertionError(e)

    def active(self):
        return self.run and not self.reset_line and self.program is not None

    def do_reset(self):
        self.pc = 0
        self.vars = {}
        self.wake = None
        self.waiting = None

    def kick(self):
        if self.active() and self.waiting is None and self.wake is None:
            self.wake = self.world.now + 1

    def next_event(self):
        return self.wake if self.active() and self.waiting is None else None

    def run_events(self):
        steps = 0
        while self.active() and self.waiting is None and self.wake is not None and self.wake <= self.world.now:
            steps += 1
            if steps > 100:
                # a program that never waits: let simulated time pass between its steps
                self.wake = self.world.now + 50
                return
            self.wake = None
            self.step()
            if self.waiting is None and self.wake is None:
                self.wake = self.world.now + 1

    def step(self):
        if not 0 <= self.pc < len(self.program):
            self.run = False
            return
        ins = self.program[self.pc]
        op = ins[0]
        self.pc += 1
        if op == "load":
            slot = self.value(ins[1])
            img = self.slots[slot] if 0 <= slot < self.SLOTS else None
            self.dmd_memory = None if img is None else img.copy()
            self.wake = self.world.now + max(1, int(ins[2]))
        elif op == "reset":
            self.world.count("lux_frames")
            self.mirrors.set(self.dmd_memory, "sequencer")
            self.wake = self.world.now + max(1, int(ins[1]))
        elif op == "trig":
            self.waiting = (ins[1], ins[2])
            level_high = {L.TRIG_MODE_POSITIVE_LEVEL: True, L.TRIG_MODE_NEGATIVE_LEVEL: False}.get(ins[1])
            if level_high is not None and (bool(self.soft) == level_high or not level_high):
                self.waiting = None
                self.wake = self.world.now + 1
        elif op == "jump":
            self.pc = ins[1]
        elif op == "set":
            self.vars[ins[1]] = self.value(ins[2])
        elif op == "inc":
            self.vars[ins[1]] = self.vars.get(ins[1], 0) + 1
        elif op == "jge":                      # jump if var >= stop
            if self.vars.get(ins[1], 0) >= self.value(ins[2]):
                self.pc = ins[3]
        elif op == "wait":
            self.wake = self.world.now + max(1, int(ins[1]))

    def edge(self, rising, source):
        if not self.active():
            return
        if self.waiting is None:
            self.world.count("lux_triggers_missed")
            return
        mode, sources = self.waiting
        bit = {"software": L.TRIG_SOURCE_SOFTWARE, "electrical": L.TRIG_SOURCE_ELECTRICAL, "optical": L.TRIG_SOURCE_OPTICAL}[source]
        if not sources & bit:
            return
        if (mode in (L.TRIG_MODE_POSITIVE_EDGE, L.TRIG_MODE_POSITIVE_LEVEL)) == rising:
            self.waiting = None
            self.wake = self.world.now + 1


class LuxbeamSequencer(object):
    def __init__(self):
        self.code = []
        self.nvar = 0

    def assign_var_reg(self, regno=0):
        return Var("r%d" % regno)

    def load_global(self, inum, lines_or_delay=0, *a):
        self.code.append(["load", _enc(inum), int(lines_or_delay)])

    def reset_global(self, delay=0, *a):
        self.code.append(["reset", int(delay)])

    def load_single(self, inum, blknum=0, delay=0):
        self.load_global(inum, delay)

    def reset_single(self, blknum=0, delay=0):
        self.reset_global(delay)

    def trig(self, mode, source, delay=0):
        self.code.append(["trig", int(mode), int(source), int(delay)])

    def wait(self, delay):
        self.code.append(["wait", int(delay)])

    def jump_loop_iter(self):
        start = len(self.code)
        yield start
        self.code.append(["jump", start])

    def range_loop_iter(self, start, stop):
        name = "v%d" % self.nvar
        self.nvar += 1
        self.code.append(["set", name, _enc(start)])
        top = len(self.code)
        test = ["jge", name, _enc(stop), None]
        self.code.append(test)
        yield top, Var(name)
        self.code.append(["inc", name])
        self.code.append(["jump", top])
        test[3] = len(self.code)

    def dumps(self):
        return [list(i) for i in self.code]


def make_luxbeam_module(get_world):
    """A stand-in for the Luxbeam module."""
    mod = types.ModuleType("Luxbeam")
    for k, v in LUX_CONST.items():
        setattr(mod, k, v)
    mod.LuxbeamSequencer = LuxbeamSequencer

    class LuxbeamError(Exception):
        pass
    mod.LuxbeamError = LuxbeamError

    class LuxbeamBinding(object):
        def __init__(self, dmd_ip="192.168.0.10", network_interface_ip="", inverse=False, timeout=None):
            self._world = get_world()
            self._dev = self._world.lux_device
            self._inverse = inverse
            self._timeout = timeout
            self.ip = dmd_ip

        def _cmd(self, name, effect, **kw):
            return self._world.command("lux", name, effect, error=lambda m: LuxbeamError(m),
                                       may_hang=self._timeout is None, **kw)

        @property
        def cols(self):
            return self._world.width

        @property
        def rows(self):
            return self._world.height

        def set_sequencer_state(self, seq_cmd, enable):
            d = self._dev

            def effect():
                if seq_cmd == L.SEQ_CMD_RUN:
                    d.run = bool(enable)
                    if not enable and d.wake is not None:
                        d.wake = d.wake        # finishes its delay when it runs again
                elif seq_cmd == L.SEQ_CMD_RESET:
                    d.reset_line = bool(enable)
                    if enable:
                        d.do_reset()
                else:
                    raise LuxbeamError("bad sequencer command")
                d.kick()
            self._cmd("seq_state:%s%s" % ({1: "run", 2: "reset"}.get(seq_cmd, "?"), int(bool(enable))), effect)

        def set_sequencer_reg(self, reg_no, reg_val):
            def effect():
                self._dev.regs[int(reg_no)] = int(reg_val)
            self._cmd("seq_reg", effect)

        def load_sequence(self, sequence):
            d = self._dev
            code = [list(i) for i in sequence]
            chunks = max(1, min(4, len(code)))

            def effect(j):
                if d.active():
                    raise LuxbeamError("sequence file locked: sequencer is running")
                if j < chunks - 1:
                    d.program = None           # incomplete program: does not run
                else:
                    d.program = code
                    d.do_reset()
            self._cmd("load_sequence", effect, chunks=chunks)

        def load_image(self, inum, image, callback=None):
            d = self._dev
            img = np.asarray(image)
            if img.shape != (self._world.height, self._world.width):
                raise ValueError("image must have the size of the DMD")
            img = img.astype(bool)
            if self._inverse:
                img = ~img
            inum = int(inum)
            if not 0 <= inum < d.SLOTS:
                raise LuxbeamError("image number out of range")
            chunks = min(4, self._world.height)

            def effect(j):
                if d.slots[inum] is None:
                    d.slots[inum] = np.zeros((self._world.height, self._world.width), dtype=bool)
                rows = np.array_split(np.arange(self._world.height), chunks)[j]
                d.slots[inum][rows] = img[rows]
                d.writes += 1
            self._cmd("load_image", effect, cost=(20, 20), chunks=chunks)

        def set_software_sync(self, level):
            d = self._dev

            def effect():
                new = 1 if level else 0
                if new != d.soft:
                    d.soft = new
                    d.edge(bool(new), "software")
            self._cmd("soft_sync%d" % (1 if level else 0), effect, cost=(5, 5))

        def set_image_type(self, *a, **k):
            self._cmd("image_type", lambda: None)

        def get_picture_inum(self, *a, **k):
            return self._cmd("inum", lambda: 0)

    def Luxbeam(dmd_ip="192.168.0.10", network_interface_ip="", inverse=False, timeout=None):
        return LuxbeamBinding(dmd_ip, network_interface_ip, inverse=inverse, timeout=timeout)
    mod.Luxbeam = LuxbeamBinding
    return mod
