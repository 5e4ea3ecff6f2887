"""The simulated world: every source of nondeterminism bdld meets, behind seams.

One World is one simulated operating system + random source in which one or more
simulated processes run.  Everything it decides is a pure function of its plan.

plan = {
  "entropy": int,            # what default_rng(None) / the OS entropy pool yields
  "rng": {"p": float, "salt": int},   # rate of extreme draws ("buggify" of randomness)
  "bufsize": int,            # st_blksize seen by buffered writers
  "short": float,            # rate of short raw writes (benign fault)
  "clock": [t0, jump],       # simulated wall clock start and per-read jump
  "faults": [ {...}, ... ],  # see Fault kinds below
}

Fault kinds (each fires at most once unless sticky):
  {"kind": "crash",  "at": k, "torn": f}   process dies at seam event k; if the event is a raw write, fraction f lands
  {"kind": "sigint", "at": k}              the process gets SIGINT at seam event k (KeyboardInterrupt, or the handler it installed)
  {"kind": "sigterm" | "sighup", "at": k}  the process gets that signal (it dies, or its handler runs)
  {"kind": "io", "err": "ENOSPC|EIO|EACCES|...", "at": k, "keep": f, "sticky": bool}  storage operation k fails
  {"kind": "epipe", "at": k}               stdout closed from print k on
  {"kind": "nomem", "at": k}               MemoryError at seam event k
"""
import atexit
import builtins
import datetime
import errno
import functools
import importlib
import io
import logging
import os
import random
import shutil
import signal
import sys
import time
import weakref
import zlib

import numpy as np

_real_open = builtins.open
_real_io_open = io.open
_real = {n: getattr(os, n) for n in ("rename", "replace", "remove", "unlink")}
_real_default_rng = np.random.default_rng
_real_clock = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
                                              "process_time_ns", "localtime", "gmtime", "ctime", "asctime", "strftime", "sleep")}
_real_signal = {n: getattr(signal, n) for n in ("signal", "getsignal")}
_real_atexit = {n: getattr(atexit, n) for n in ("register", "unregister")}
_real_urandom = os.urandom
_real_input = builtins.input

CURRENT = None  # the active world (single threaded simulator)


class SimCrash(BaseException):
    """The simulated process has been killed at this point."""


class StepLimit(BaseException):
    """The simulated process exceeded its event budget (bounded liveness)."""


def mix(*xs):
    """Small deterministic integer hash (independent of PYTHONHASHSEED)."""
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            x = zlib.crc32(x.encode())
        h ^= (int(x) & 0xFFFFFFFFFFFFFFFF) + 0x9E3779B97F4A7C15
        h = (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 32
    return h


def unit(*xs):
    return mix(*xs) / 2.0**64


# ------------------------------------------------------------------ randomness
EXTREME_NORMAL = [-9.0, -6.0, 6.0, 9.0, 0.0, -4.0, 4.0, 25.0, -25.0]
EXTREME_UNIT = [0.0, 2.0**-53, 1e-9, 0.5, 1 - 1e-9, 1 - 2.0**-53]


def ident_of(bitgen):
    """Which elements are bent depends on the initial state, however the generator was made."""
    st = bitgen.state.get("state", {})
    return mix(*[int(v) for k, v in sorted(st.items()) if isinstance(v, int)])


class SimGenerator(np.random.Generator):
    """numpy Generator whose draws the simulator can bend, element by element.

    Which elements are bent depends only on (salt, generator seed, ordinal of the
    scalar draw), so it does not matter in how many calls the numbers are drawn.
    """

    def __init__(self, bitgen, ident=None, conf=None):
        super().__init__(bitgen)
        if conf is None:
            conf = CURRENT.rngconf if CURRENT is not None else {}
            if CURRENT is not None:
                CURRENT.generators.append(self)
        self._ident = ident_of(bitgen) if ident is None else ident
        self._p = conf.get("p", 0.0)
        self._salt = conf.get("salt", 0)
        self._mute = bool(conf.get("mild"))
        self._n = 0
        self._log = True
        self._noise = False  # has given normal deviates

    def clone(self):
        """Independent generator that will produce the same future draws (not logged)."""
        bg = type(self.bit_generator)()
        bg.state = self.bit_generator.state
        g = SimGenerator(bg, self._ident, {"p": self._p, "salt": self._salt, "mild": self._mute})
        g._n = self._n
        g._log = False
        return g

    def __deepcopy__(self, memo):
        return self.clone()

    def _bend(self, arr, kind, lo=0, hi=0):
        scalar = np.ndim(arr) == 0
        out = np.array(arr)
        flat = out.reshape(-1)
        n0 = self._n
        self._n += flat.size
        if self._p > 0:
            for j in range(flat.size):
                u = unit(self._salt, self._ident, n0 + j)
                if u < self._p:
                    k = mix(self._salt, self._ident, n0 + j, 7)
                    if kind == "normal":
                        tab = EXTREME_NORMAL[: 7 if self._mute else 9]
                        flat[j] = tab[k % len(tab)]
                    elif kind == "unit":
                        flat[j] = EXTREME_UNIT[k % len(EXTREME_UNIT)]
                    elif kind == "int":
                        flat[j] = lo if k % 2 else hi - 1
                    if self._log and CURRENT is not None:
                        CURRENT.fired["rng-" + kind] = CURRENT.fired.get("rng-" + kind, 0) + 1
        if self._log and CURRENT is not None:
            if kind == "normal":
                self._noise = True
                CURRENT.normals.extend(float(x) for x in flat)
            CURRENT.draws += int(flat.size)
            CURRENT.event("rng", kind)
        if scalar:
            return out.dtype.type(out[()])
        return out

    @staticmethod
    def _into(out, values):
        if out is None:
            return values
        out[...] = values
        return out

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._into(out, self._bend(super().standard_normal(size if out is None else out.shape, dtype), "normal"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if np.ndim(loc) or np.ndim(scale):
            size = np.broadcast(np.empty(size or ()), loc, scale).shape if size is None else size
        return loc + scale * self._bend(super().standard_normal(size), "normal")

    def random(self, size=None, dtype=np.float64, out=None):
        return self._into(out, self._bend(super().random(size if out is None else out.shape, dtype), "unit"))

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape if size is None else size
        return low + (np.asarray(high) - low) * self._bend(super().random(size), "unit")

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        v = super().integers(low, high, size, dtype, endpoint)
        if np.ndim(low) or np.ndim(high if high is not None else 0):
            return v
        lo, hi = (0, low) if high is None else (low, high)
        return self._bend(v, "int", lo, hi + (1 if endpoint else 0))

    def shuffle(self, x, axis=0):
        super().shuffle(x, axis)
        if self._log and CURRENT is not None:
            CURRENT.event("rng", "shuffle")

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        r = super().choice(a, size, replace, p, axis, shuffle)
        if self._log and CURRENT is not None:
            CURRENT.event("rng", "choice")
        return r


def _sim_default_rng(seed=None):
    w = CURRENT
    if w is None:
        return _real_default_rng(seed)
    if isinstance(seed, np.random.Generator):
        return seed
    if isinstance(seed, np.random.BitGenerator):
        bg = seed
    elif seed is None:
        w.unseeded += 1
        bg = np.random.PCG64(mix(w.plan.get("entropy", 1), w.unseeded))
    else:
        bg = np.random.PCG64(seed)
    return SimGenerator(bg)


def seeded_generator(seed, rngconf):
    """What a process in a world with this rng configuration gets from default_rng(seed)."""
    g = SimGenerator(np.random.PCG64(seed), None, rngconf or {})
    g._log = False
    return g


# ------------------------------------------------------------------ storage
class SimRaw(io.FileIO):
    """Raw file: the device below Python's user-space buffers."""

    def __init__(self, world, path, mode, closefd=True, opener=None):
        self._w = world
        self._path = world.fds.get(path, "?") if isinstance(path, int) else os.path.basename(os.fspath(path))
        super().__init__(path, mode, closefd, opener)
        world.fds.pop(self.fileno(), None)  # (a descriptor that is wrapped is closed through the wrapper)
        world.handles += 1

    def write(self, b):
        return self._w.raw_write(self, b, super().write)

    def readinto(self, b):
        w = self._w
        if not w.dead:
            w.event("read", self._path)
        n = super().readinto(b)
        w.bytes_moved += n or 0
        return n

    def readall(self):
        w = self._w
        if not w.dead:
            w.event("read", self._path)
        b = super().readall()
        w.bytes_moved += len(b or b"")
        return b

    def close(self):
        if self.closed:
            return
        writable = self.writable()
        super().close()
        self._w.handles -= 1
        if writable and not self._w.dead and CURRENT is self._w:
            self._w.event("close", self._path)

    def truncate(self, size=None):
        if self._w.dead:
            return size or 0
        return super().truncate(size)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = CURRENT
    if w is None or (file not in w.fds if isinstance(file, int) else not w.owns(file)):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return w.open(file, mode, buffering, encoding, errors, newline, closefd, opener)


class _Fd:
    def __init__(self, path):
        self._path = path


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = CURRENT
    if w is None or isinstance(path, int) or dir_fd is not None or not w.owns(path):
        return _real_os["open"](path, flags, mode, dir_fd=dir_fd)
    if w.dead:
        raise SimCrash()
    name = os.path.basename(os.fspath(path))
    w.event("open", name)
    if flags & (os.O_WRONLY | os.O_RDWR):
        w.made.add(w.rel(path))
    fd = _real_os["open"](path, flags, mode)
    w.fds[fd] = name
    w.handles += 1
    return fd


def _os_write(fd, data):
    w = CURRENT
    if w is None or fd not in w.fds:
        return _real_os["write"](fd, data)
    return w.raw_write(_Fd(w.fds[fd]), data, lambda b: _real_os["write"](fd, b))


def _os_read(fd, n):
    w = CURRENT
    if w is not None and fd in w.fds and not w.dead:
        w.event("read", w.fds[fd])
    return _real_os["read"](fd, n)


def _os_close(fd):
    w = CURRENT
    if w is None or fd not in w.fds:
        return _real_os["close"](fd)
    name = w.fds.pop(fd)
    _real_os["close"](fd)
    w.handles -= 1
    if not w.dead:
        w.event("close", name)


_real_os = {n: getattr(os, n) for n in ("open", "write", "read", "close")}
_sim_os = {"open": _os_open, "write": _os_write, "read": _os_read, "close": _os_close}


def _wrap_os(name):
    real = _real[name]

    def f(*a, **k):
        w = CURRENT
        if w is None or not a or not isinstance(a[0], (str, os.PathLike)) or not w.owns(a[0]):
            return real(*a, **k)
        if w.dead:
            return None
        w.event("dirop", os.path.basename(os.fspath(a[0])))
        if name in ("rename", "replace") and len(a) > 1:
            w.made.add(w.rel(a[1]))
        r = real(*a, **k)
        w.event("dirop-done", os.path.basename(os.fspath(a[0])))
        return r

    f.__name__ = name
    return f


class SimStdout(io.TextIOBase):
    def __init__(self, world):
        self.w = world
        self.buf = []

    def writable(self):
        return True

    def write(self, s):
        w = self.w
        if not w.dead:
            self.w.event("print", "")
            if not w.pipe_broken:
                self.buf.append(s)
        return len(s)

    def flush(self):
        pass

    def getvalue(self):
        return "".join(self.buf)


class SimStdin(io.TextIOBase):
    def __init__(self, world):
        self.w = world

    def readable(self):
        return True

    def _hit(self):
        self.w.stdin_reads += 1
        raise EOFError("simulated stdin: end of file")

    def read(self, *a):
        self.w.stdin_reads += 1
        return ""

    readline = read


class World:
    def __init__(self, root, plan=None):
        self.root = os.path.realpath(root)
        self.plan = dict(plan or {})
        self.rngconf = self.plan.get("rng", {}) or {}
        self.bufsize = int(self.plan.get("bufsize", 8192))
        self.short = float(self.plan.get("short", 0.0))
        self.starts = 0
        self.begin_process()
        self.clock = float((self.plan.get("clock") or [1.6e9, 0])[0])

    def begin_process(self, faults=None):
        """Reset per-process state (a new simulated process in the same directory)."""
        self.faults = [dict(f) for f in (self.plan.get("faults", []) if faults is None else faults)]
        self.dead = False
        self.fds = {}  # descriptors opened by os.open: name of the file
        self.pipe_broken = False
        self.events = 0
        self.io_events = 0
        self.kinds = []
        self.trace_hash = 0
        self.fired = {}
        self.fired_at = []
        self.unseeded = 0
        self.generators = []
        self.handles = 0  # files currently open
        self.files = weakref.WeakValueDictionary()  # ... in the order of opening
        self.opened = 0
        self.bytes_moved = 0  # written to and read from files
        self.normals = []
        self.draws = 0
        self.stdin_reads = 0
        self.max_events = int(self.plan.get("max_events", 2_000_000))
        self.keep_trace = bool(self.plan.get("keep_trace"))
        self.trace = []
        self.stdout = SimStdout(self)
        self.stderr = io.StringIO()
        self.stage = 0  # set by probes: number of dynamics steps entered
        self.handlers = {}  # signal handlers the process installed
        self.at_exit = []  # functions the process wants to be called at its end
        self.entropy_reads = 0
        self.made = set()  # files the process opened for writing or renamed something to

    # -------------------------------------------------------------- events
    IO = ("open", "write", "dirop", "read", "close")

    def event(self, kind, what, payload=None):
        """A point where the simulator may act.  Returns a directive for raw writes."""
        if self.dead:
            return None
        k = self.events
        self.events += 1
        isio = kind in self.IO
        kio = self.io_events
        if isio:
            self.io_events += 1
        self.trace_hash = zlib.crc32(f"{kind}:{what}".encode(), self.trace_hash)
        if self.keep_trace:
            self.trace.append((k, kind, what, self.stage))
        if k >= self.max_events:
            raise StepLimit(f"more than {self.max_events} seam events")
        for f in self.faults:
            if f.get("done") and not f.get("sticky"):
                continue
            fk = f["kind"]
            if fk == "crash" and (f["at"] == k or ("at_io" in f and isio and f["at_io"] == kio)):
                self._fire(f, "crash", k, kind, what)
                if kind == "write":
                    return ("crash", f.get("torn", 0.0))
                self.dead = True
                raise SimCrash()
            if fk in SIGNALS and f["at"] == k:
                self._fire(f, fk, k, kind, what)
                self._signal(SIGNALS[fk])
            if fk == "nomem" and f["at"] == k:
                self._fire(f, "nomem-" + kind, k, kind, what)
                raise MemoryError()
            if fk == "io" and isio and (kio == f["at"] or (f.get("done") and f.get("sticky") and kind in f.get("on", self.IO))):
                if kind == "read" and f["err"] == "ENOSPC":
                    continue
                self._fire(f, "io-" + f["err"] + "-" + kind, k, kind, what)
                if kind == "write":
                    return ("err", f["err"], f.get("keep", 0.0) if not f.get("again") else 0.0, f)
                raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])), what)
            if fk == "epipe" and kind == "print" and (k >= f["at"]):
                self._fire(f, "epipe", k, kind, what)
                self.pipe_broken = True
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        return None

    def _signal(self, num):
        h = self.handlers.get(int(num), signal.SIG_DFL)
        if h == signal.SIG_IGN:
            return
        if callable(h) and h is not signal.default_int_handler:
            h(int(num), sys._getframe())
        elif num == signal.SIGINT:
            raise KeyboardInterrupt()
        else:
            self.dead = True
            raise SimCrash()

    def end_process(self):
        """What the interpreter does at the end of a process that was not killed."""
        while self.at_exit and not self.dead:
            f, a, k = self.at_exit.pop()
            try:
                f(*a, **k)
            except Exception:  # (reported on the screen, no effect on the exit status)
                pass
        for f in list(self.files.values()):  # files that are still open: what is buffered is written now
            try:
                f.close()
            except Exception:
                pass
        for fd in list(self.fds):
            _sim_os["close"](fd)

    def _fire(self, f, name, k, kind, what):
        f["done"] = True
        self.fired[name] = self.fired.get(name, 0) + 1
        if len(self.fired_at) < 20:
            self.fired_at.append({"fault": name, "event": k, "kind": kind, "file": what, "step": self.stage})

    def raw_write(self, raw, b, really):
        if self.dead:
            return len(b)
        b = bytes(b)
        self.bytes_moved += len(b)
        d = self.event("write", raw._path)
        if d is not None:
            if d[0] == "crash":
                n = int(d[1] * len(b))
                if n:
                    really(b[:n])
                self.dead = True
                raise SimCrash()
            n = int(d[2] * len(b))
            if 0 < n < len(b) and not d[3].get("again"):
                # a real device first reports a short count, the error comes with the next call
                d[3]["again"] = True
                d[3]["done"] = True
                if not d[3].get("sticky"):
                    d[3]["done"] = False
                    d[3]["at"] = self.io_events
                return really(b[:n])
            raise OSError(getattr(errno, d[1]), os.strerror(getattr(errno, d[1])), raw._path)
        if self.short and len(b) > 1:
            if unit(self.plan.get("entropy", 1), "short", self.events) < self.short:
                self.fired["short-write"] = self.fired.get("short-write", 0) + 1
                return really(b[: 1 + mix(self.events, 3) % (len(b) - 1)])
        return really(b)

    # -------------------------------------------------------------- files
    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            return True  # cwd is the scratch directory while a world is active
        return os.path.realpath(p).startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.realpath(os.fsdecode(os.fspath(path))), self.root)

    def open(self, file, mode, buffering, encoding, errors, newline, closefd=True, opener=None):
        f = self._open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opened += 1
        self.files[self.opened] = f
        return f

    def _open(self, file, mode, buffering, encoding, errors, newline, closefd, opener):
        if self.dead:
            raise SimCrash()
        if isinstance(file, int):
            self.handles -= 1  # (counted when the descriptor was opened)
        elif opener is None:  # (an opener comes through os.open)
            self.event("open", os.path.basename(os.fspath(file)))
        if not isinstance(file, int) and any(c in mode for c in "wax+"):
            self.made.add(self.rel(file))
        text = "b" not in mode
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        raw = SimRaw(self, file, rawmode or "r", closefd, opener)
        if opener is not None:
            self.handles -= 1
        line_buffering = False
        if buffering == 1 and text:
            line_buffering = True
            buffering = -1
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering < 0 else buffering
        if raw.readable() and raw.writable():
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, max(size, 512))
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        t.mode = mode
        return t

    # -------------------------------------------------------------- activation
    def __enter__(self):
        global CURRENT
        if CURRENT is not None:
            raise RuntimeError("a world is already active")
        self._cwd = os.getcwd()
        os.chdir(self.root)
        CURRENT = self
        self._std = (sys.stdout, sys.stderr, sys.stdin)
        sys.stdout, sys.stderr, sys.stdin = self.stdout, self.stderr, SimStdin(self)
        builtins.open = _sim_open
        io.open = _sim_open
        for n in _real:
            setattr(os, n, _os_wrappers[n])
        for n, f in _sim_os.items():
            setattr(os, n, f)
        dso = getattr(np.lib, "_datasource", None)
        if dso is not None:
            dso._file_openers._load()
            self._dso = dso._file_openers._file_openers.get(None)
            dso._file_openers._file_openers[None] = _sim_open
        builtins.input = self._input
        self._sendfile = getattr(shutil, "_USE_CP_SENDFILE", None)
        shutil._USE_CP_SENDFILE = False  # (copies go through the same seam)
        self._pyrandom = random.getstate()
        random.seed(mix(self.plan.get("entropy", 1), "python", self.starts))
        self._nprandom = np.random.get_state()
        np.random.seed(mix(self.plan.get("entropy", 1), "numpy", self.starts) % 2**32)
        self.starts += 1
        return self

    def _time(self):
        j = (self.plan.get("clock") or [0, 0])[1]
        self.clock += 0.001 + (j if mix(self.events, int(self.clock)) % 3 == 0 else 0)
        return self.clock

    def ticks(self):
        """Monotonic clock: every reading is later than the one before."""
        self.tick = getattr(self, "tick", 1000.0) + 0.001 + abs((self.plan.get("clock") or [0, 0])[1]) * (mix(self.events, 5) % 3 == 0)
        return self.tick

    def _input(self, prompt=""):
        self.stdin_reads += 1
        raise EOFError("simulated stdin: end of file")

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = None
        shutil._USE_CP_SENDFILE = self._sendfile
        random.setstate(self._pyrandom)
        np.random.set_state(self._nprandom)
        builtins.input = _real_input
        builtins.open = _real_open
        io.open = _real_io_open
        for n, f in _real.items():
            setattr(os, n, f)
        for n, f in _real_os.items():
            setattr(os, n, f)
        for fd in self.fds:  # descriptors the process left open
            try:
                _real_os["close"](fd)
            except OSError:
                pass
        self.fds = {}
        dso = getattr(np.lib, "_datasource", None)
        if dso is not None:
            dso._file_openers._file_openers[None] = self._dso
        sys.stdout, sys.stderr, sys.stdin = self._std
        os.chdir(self._cwd)
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        return False


_os_wrappers = {n: _wrap_os(n) for n in _real}


# ------------------------------------------------------------------ clock, signals, process end, entropy
SIGNALS = {"sigint": signal.SIGINT, "sigterm": signal.SIGTERM, "sighup": signal.SIGHUP}


def _seam(real, sim):
    @functools.wraps(real)
    def f(*a, **k):
        return real(*a, **k) if CURRENT is None else sim(CURRENT, *a, **k)

    return f


def _sim_signal(w, num, handler):
    old = w.handlers.get(int(num), signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL)
    w.handlers[int(num)] = handler
    return old


def _sim_register(w, f, *a, **k):
    w.at_exit.append((f, a, k))
    return f


def _sim_unregister(w, f):
    w.at_exit = [x for x in w.at_exit if x[0] != f]


def _sim_urandom(w, n):
    w.entropy_reads += 1
    g = random.Random(mix(w.plan.get("entropy", 1), "urandom", w.entropy_reads))
    return g.randbytes(n)


def _sim_sleep(w, sec):
    w.clock += max(0.0, float(sec))


def _stamp(w):
    """Time of calendar functions (within what the C library can express)."""
    return min(max(w._time(), 0.0), 2.0**33)


_clock = {
    "time": lambda w: w._time(), "time_ns": lambda w: int(w._time() * 1e9),
    "monotonic": lambda w: w.ticks(), "monotonic_ns": lambda w: int(w.ticks() * 1e9),
    "perf_counter": lambda w: w.ticks(), "perf_counter_ns": lambda w: int(w.ticks() * 1e9),
    "process_time": lambda w: w.ticks(), "process_time_ns": lambda w: int(w.ticks() * 1e9),
    "localtime": lambda w, t=None: _real_clock["localtime"](_stamp(w) if t is None else t),
    "gmtime": lambda w, t=None: _real_clock["gmtime"](_stamp(w) if t is None else t),
    "ctime": lambda w, t=None: _real_clock["ctime"](_stamp(w) if t is None else t),
    "asctime": lambda w, t=None: _real_clock["asctime"](_real_clock["localtime"](_stamp(w)) if t is None else t),
    "strftime": lambda w, f, t=None: _real_clock["strftime"](f, _real_clock["localtime"](_stamp(w)) if t is None else t),
    "sleep": _sim_sleep,
}


class SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return super().now(tz) if CURRENT is None else cls.fromtimestamp(_stamp(CURRENT), tz)

    @classmethod
    def utcnow(cls):
        return cls.now(datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(datetime.date):
    @classmethod
    def today(cls):
        return super().today() if CURRENT is None else cls.fromtimestamp(_stamp(CURRENT))


def install_seams():
    """Seams that bdld may bind at import time: installed for good, transparent outside of a world."""
    if getattr(time.time, "__wrapped__", None) is not None:
        return
    for m in ("matplotlib.pyplot", "matplotlib.dates", "scipy.signal", "scipy.spatial.distance", "scipy.interpolate"):
        try:
            importlib.import_module(m)  # (keep the real names)
        except ImportError:
            pass
    weakref.finalize(SimDate, int)  # (registers its function for the end of the real process)
    for n, f in _clock.items():
        setattr(time, n, _seam(_real_clock[n], f))
    signal.signal = _seam(_real_signal["signal"], _sim_signal)
    signal.getsignal = _seam(_real_signal["getsignal"],
                             lambda w, num: w.handlers.get(int(num), signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL))
    atexit.register = _seam(_real_atexit["register"], _sim_register)
    atexit.unregister = _seam(_real_atexit["unregister"], _sim_unregister)
    os.urandom = _seam(_real_urandom, _sim_urandom)
    datetime.datetime, datetime.date = SimDatetime, SimDate


# installed for good: modules that bind the names at import time get the seam, too (outside of a world it is transparent)
np.random.default_rng = _sim_default_rng
np.random.Generator = SimGenerator
