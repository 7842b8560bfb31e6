"""The simulated world: clocks, child processes, disk, random sources. One World = one run.

install() replaces the seams once per interpreter, before switss or PuLP are imported; outside a World they pass through.
"""
import os, sys, io, errno, time, builtins, subprocess, tempfile, shutil, ctypes, uuid, random, signal, threading
from rng import stream, derive

REAL = {}
CUR = None            # the active World
SHIM = None


class Violation(BaseException):
    """The property is broken in this run. kind: short stable class of the failure; msg: what was seen."""
    def __init__(self, kind, msg=""):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class SimCrash(BaseException):
    """The simulated process dies here; only what reached the simulated disk survives."""


class Interrupt(KeyboardInterrupt):
    """The user's Ctrl-C, or a signal handler that raises."""


class SimHang(BaseException):
    """The simulated process would wait forever."""


class Harness(BaseException):
    """Something the harness does not model: an error of the check, never a verdict."""


class Skip(Harness):
    """The reference solver has no answer for this problem: the run decides nothing."""


def install(shim_path=None):
    global SHIM
    if REAL:
        return
    if shim_path:
        SHIM = ctypes.CDLL(shim_path)
        SHIM.sim_rand_setup.argtypes = [ctypes.c_int, ctypes.c_uint64]
        SHIM.sim_set_time.argtypes = [ctypes.c_long]
        SHIM.sim_rand_calls.restype = ctypes.c_long
        SHIM.sim_srand_calls.restype = ctypes.c_long
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        REAL[n] = getattr(time, n)
        REAL[n + "_ns"] = getattr(time, n + "_ns")
    REAL["sleep"] = time.sleep
    REAL["open"] = builtins.open
    REAL["Popen"] = subprocess.Popen
    REAL["uuid4"] = uuid.uuid4
    for n in ("unlink", "remove", "rmdir", "rename", "replace", "mkdir", "link", "symlink", "truncate", "fsync"):
        REAL["os." + n] = getattr(os, n)

    def clk(name, which):
        real, real_ns = REAL[name], REAL[name + "_ns"]

        def f():
            return real() if CUR is None else CUR.read_clock(which) / 1e9

        def fns():
            return real_ns() if CUR is None else CUR.read_clock(which)
        setattr(time, name, f)
        setattr(time, name + "_ns", fns)
    clk("time", "wall")
    clk("monotonic", "mono")
    clk("perf_counter", "mono")
    clk("process_time", "cpu")
    clk("thread_time", "cpu")

    def sleep(s):
        if CUR is None:
            return REAL["sleep"](s)
        CUR.advance(s)
    time.sleep = sleep

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if CUR is None or not CUR.owns(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        return CUR.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = sim_open
    io.open = sim_open
    subprocess.Popen = SimPopen

    def uuid4():
        if CUR is None:
            return REAL["uuid4"]()
        return uuid.UUID(int=CUR.name_rng.getrandbits(128), version=4)
    uuid.uuid4 = uuid4

    def guard(n):
        real = REAL["os." + n]

        def f(*a, **k):
            w = CUR
            if w is not None and w.dead:
                return None
            return real(*a, **k)
        f.__name__ = n
        setattr(os, n, f)
        for group in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real in group:
                group.add(f)
    for n in ("unlink", "remove", "rmdir", "rename", "replace", "mkdir", "link", "symlink", "truncate"):
        guard(n)


class World:
    """faults: list of {"at": [site, index], "kind": ..., ...}; a fault fires when the index-th event of that site occurs."""

    def __init__(self, seed, scratch, faults=(), plain=False, rand=(0, 1), start=1.7e9, adapter=None):
        self.seed = seed
        self.scratch = os.path.realpath(scratch)
        self.tmp = os.path.join(self.scratch, "tmp")
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f["at"][0], f["at"][1]), []).append(f)
        self.plain = plain
        self.log = []                 # the run's event log (digest = identity of the run)
        self.counts = {}              # site -> events so far
        self.fired = {}               # fault kind -> times fired
        self.probes = {}
        self.mono = 1000 * 10**9
        self.cpu = 10**9
        self.wall_offset = int(start * 1e9) - self.mono
        self.elapsed0 = self.mono
        self.dead = False
        self.epoch = 0                # number of restarts
        self.bufsize = io.DEFAULT_BUFFER_SIZE
        self.hang = False
        self.name_rng = stream(seed, "names")
        self.choice_rng = stream(seed, "choices")
        self.programs = {}
        self.solves = []              # records of solver runs
        self.spawns = []
        self.rand = rand
        self.sched = None             # thread scheduler (C11)
        self.enospc_left = 0
        self.enospc_on = False
        self.touched = []
        self.read_faults = any(k[0] in ("read", "openr") for k in self.faults)
        self.sync_clock = True
        self.line_faults = any(k[0] == "line" for k in self.faults)

    # ---- interruptions
    def cut(self, kind, frame=None):
        if kind != "interrupt":
            raise MemoryError("injected")
        h = signal.getsignal(signal.SIGINT)
        if h is signal.SIG_IGN:
            return
        if callable(h) and h is not signal.default_int_handler:        # the program's own handler
            h(signal.SIGINT, frame)
            return
        raise Interrupt("injected")

    def stoppable(self, fn, src):
        """fn, interrupted (or out of memory) before the source lines the faults name; lines are counted inside of it only."""
        if not self.line_faults:
            return fn

        def line(frame, event, arg):
            if event == "line" and not self.dead and CUR is self:
                k, f = self.site("line")
                if f is not None:
                    self.fire(f["kind"], k)
                    self.cut(f["kind"], frame)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(src) else None

        def run(*a, **k):
            sys.settrace(call)
            try:
                return fn(*a, **k)
            finally:
                sys.settrace(None)
        return run

    # ---- life cycle
    def __enter__(self):
        global CUR
        if CUR is not None:
            raise Harness("nested worlds")
        os.makedirs(self.tmp, exist_ok=True)
        os.environ["TMPDIR"] = self.tmp
        tempfile.tempdir = self.tmp
        seq = tempfile._RandomNameSequence()
        seq._rng, seq._rng_pid = stream(self.seed, "tempnames"), os.getpid()
        tempfile._name_sequence = seq
        random.seed(derive(self.seed, "pyrandom"))
        try:
            import numpy
            numpy.random.seed(derive(self.seed, "nprandom") % 2**32)
        except ImportError:
            pass
        if SHIM is not None:
            SHIM.sim_rand_setup(self.rand[0], self.rand[1] & (2**64 - 1))
            SHIM.sim_set_time((self.mono + self.wall_offset) // 10**9)
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGINT, signal.default_int_handler)
        CUR = self
        return self

    def __exit__(self, *a):
        global CUR
        CUR = None
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGINT, signal.default_int_handler)
        return False

    def revive(self):
        """Restart after a crash: a fresh process on the surviving disk (files still open in the dead one stay dead)."""
        self.dead = False
        self.epoch += 1

    # ---- events
    def ev(self, *a):
        self.log.append(list(a))

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def site(self, name):
        """Count one event at a site; returns (index, fault or None)."""
        i = self.counts.get(name, 0)
        self.counts[name] = i + 1
        fs = self.faults.get((name, i))
        return i, (fs[0] if fs else None)

    def fire(self, kind, *info):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.ev("fault", kind, *info)
        if self.sched is not None and self.sched.cur is not None:
            self.sched.fires[self.sched.cur] += 1

    # ---- time
    def read_clock(self, which):
        self.mono += 1000
        self.cpu += 1000
        if which == "wall":
            return self.mono + self.wall_offset
        return self.cpu if which == "cpu" else self.mono

    def advance(self, seconds, cpu=0.0):
        self.mono += int(seconds * 1e9)
        self.cpu += int(cpu * 1e9)
        if SHIM is not None and self.sync_clock:
            SHIM.sim_set_time((self.mono + self.wall_offset) // 10**9)

    def jump_wall(self, seconds):
        self.wall_offset += int(seconds * 1e9)
        if SHIM is not None:
            SHIM.sim_set_time((self.mono + self.wall_offset) // 10**9)

    def sim_elapsed(self):
        return (self.mono - self.elapsed0) / 1e9

    # ---- disk
    def owns(self, file):
        if isinstance(file, int):
            return False
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(file)))
        except TypeError:
            return False
        return p.startswith(self.scratch + os.sep)

    def rel(self, path):
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
        return os.path.relpath(p, self.scratch)

    def die(self, why):
        self.dead = True
        raise SimCrash(why)

    def open(self, file, mode, buffering, encoding, errors, newline, closefd, opener):
        writing = any(c in mode for c in "wax+")
        if self.dead:
            raise SimCrash("already dead")
        if writing:
            i, f = self.site("openw")
            if f is not None:
                if f["kind"] == "crash":
                    self.fire("crash_before_open", self.rel(file))
                    self.die("crash at open")
                if f["kind"] in ("enospc", "eacces", "emfile", "eio"):
                    self.fire("open_" + f["kind"])
                    raise OSError(getattr(errno, f["kind"].upper()), os.strerror(getattr(errno, f["kind"].upper())), str(file))
        else:
            i, f = self.site("openr")
            if f is not None and f["kind"] in ("eacces", "emfile", "eio"):
                self.fire("openr_" + f["kind"])
                raise OSError(getattr(errno, f["kind"].upper()), os.strerror(getattr(errno, f["kind"].upper())), str(file))
        if not writing and not self.read_faults:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
        fio = io.FileIO(file, raw_mode, closefd, opener)
        raw = SimRaw(self, fio, file)
        if writing:
            self.touched.append(os.path.abspath(os.fsdecode(os.fspath(file))))
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else self.bufsize
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)

    def read_bytes(self, path):
        """Harness access to a file, bypassing faults."""
        with REAL["open"](path, "rb") as f:
            return f.read()

    def write_bytes(self, path, data):
        with REAL["open"](path, "wb") as f:
            f.write(data)


class SimRaw(io.RawIOBase):
    """The disk below Python's buffering."""

    def __init__(self, world, fio, name):
        self._w, self._f = world, fio
        self._epoch = world.epoch
        self.name = name
        self.mode = fio.mode

    def readable(self): return self._f.readable()
    def writable(self): return self._f.writable()
    def seekable(self): return self._f.seekable()
    def fileno(self): return self._f.fileno()
    def isatty(self): return False
    def tell(self): return self._f.tell()
    def seek(self, *a): return self._f.seek(*a)
    def truncate(self, *a):
        if self._w.dead or self._epoch != self._w.epoch:
            return 0
        return self._f.truncate(*a)

    def readinto(self, b):
        w = self._w
        i, f = w.site("read")
        if f is not None:
            if f["kind"] == "eio":
                w.fire("read_eio")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if f["kind"] == "short" and len(b) > 1:
                w.fire("read_short")
                n = max(1, int(len(b) * f.get("frac", 0.5)) % max(1, min(len(b), 64)))
                return self._f.readinto(memoryview(b)[:n])
        return self._f.readinto(b)

    def write(self, b):
        w = self._w
        if w.dead or self._epoch != w.epoch:
            return len(b)
        b = bytes(b)
        i, f = w.site("write")
        if w.enospc_on:
            if w.enospc_left <= 0:
                w.fire("write_enospc")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            n = min(len(b), w.enospc_left)
            w.enospc_left -= n
            return self._f.write(b[:n])
        if f is not None:
            k = f["kind"]
            if k == "short" and len(b) > 1:
                w.fire("write_short")
                return self._f.write(b[:max(1, int(len(b) * f.get("frac", 0.5)))])
            if k == "eio":
                w.fire("write_eio")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if k == "enospc":      # the disk is full from here on; a prefix still fits
                w.enospc_on = True
                w.enospc_left = int(len(b) * f.get("frac", 0.5))
                if w.enospc_left == 0:
                    w.fire("write_enospc")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                n = w.enospc_left
                w.enospc_left = 0
                return self._f.write(b[:n])
            if k == "crash":
                n = int(len(b) * f.get("frac", 0.5))
                self._f.write(b[:n])
                w.fire("crash_in_write", w.rel(self.name), n)
                if f.get("zero") and n > 8:      # power failure: a block of the written data comes back as zeros
                    a = int((n - 4) * f["zero"])
                    self._f.seek(a)
                    self._f.write(b"\0" * min(n - a, 1 + n // 3))
                w.die("crash in write")
        return self._f.write(b)

    def close(self):
        if self.closed:
            return
        w = self._w
        fault = None
        if self._f.writable() and not w.dead and self._epoch == w.epoch and not self._f.closed:
            _, fault = w.site("closew")
        try:
            super().close()
        finally:
            self._f.close()
        if fault is not None and fault["kind"] == "eio":
            w.fire("close_eio")
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        if fault is not None and fault["kind"] == "crash":
            w.fire("crash_after_close", w.rel(self.name))
            w.die("crash after close")


# --------------------------------------------------------------------------------------------- processes

class Outcome:
    """What a simulated program does: after `duration` simulated seconds (None: never ends) it applies `effect`."""
    def __init__(self, exit=0, stdout=b"", stderr=b"", duration=0.05, effect=None):
        self.exit, self.stdout, self.stderr, self.duration, self.effect = exit, stdout, stderr, duration, effect


class SimPopen:
    _pids = 4000

    def __new__(cls, *a, **k):
        if CUR is None:
            return REAL["Popen"](*a, **k)
        return super().__new__(cls)

    def __class_getitem__(cls, x):
        return cls

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        w = CUR
        if shell or isinstance(args, (str, bytes)):
            import shlex
            args = shlex.split(args if isinstance(args, str) else os.fsdecode(args))
        argv = [os.fsdecode(os.fspath(a)) for a in args]
        self.args, self.returncode, self._w = args, None, w
        self._text = bool(text or universal_newlines or encoding or errors)
        self._encoding = encoding or "utf-8"
        SimPopen._pids += 1
        self.pid = SimPopen._pids
        self._kill = None
        prog = os.path.basename(argv[0])
        if w.sched is not None:
            w.sched.point("spawn")
        i, f = w.site("spawn:" + prog)
        _, f2 = w.site("spawn")
        f = f or f2
        self.fault = f
        w.spawns.append({"prog": prog, "argv": argv, "index": i, "t": w.sim_elapsed()})
        handler = w.programs.get(prog)
        if f is not None and f["kind"] == "crash":
            w.fire("killed_while_program_runs")
            w.die("killed while %s runs" % prog)
        if f is not None and f["kind"] == "missing":
            w.fire("program_missing")
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        if f is not None and f["kind"] == "noexec":
            w.fire("program_noexec")
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), argv[0])
        if f is not None and f["kind"] == "eagain":
            w.fire("fork_failed")
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        if handler is None:
            w.ev("spawn", prog, "unknown")
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        self._cwd = cwd
        self.outcome = handler(w, self, argv, f)
        self._left = self.outcome.duration
        w.ev("spawn", prog, i, self.outcome.exit, None if self._left is None else round(self._left, 6))
        self._outs = {"stdout": stdout, "stderr": stderr}
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        self.stdout = self._pipe() if stdout == subprocess.PIPE else None
        self.stderr = self._pipe() if stderr == subprocess.PIPE else None
        self._merge = stderr == subprocess.STDOUT

    def _pipe(self):
        return io.StringIO() if self._text else io.BytesIO()

    def _finish(self):
        o, w = self.outcome, self._w
        if o.effect is not None:
            o.effect()
        self._deliver("stdout", o.stdout + (o.stderr if self._merge else b""))
        if not self._merge:
            self._deliver("stderr", o.stderr)
        self.returncode = o.exit

    def _deliver(self, name, data):
        tgt = self._outs[name]
        if not data or tgt in (None, subprocess.DEVNULL, subprocess.STDOUT):
            return
        if tgt == subprocess.PIPE:
            p = getattr(self, name)
            p.write(data.decode(self._encoding, "replace") if self._text else data)
            p.seek(0)
            return
        try:
            fd = tgt if isinstance(tgt, int) else tgt.fileno()
            os.write(fd, data)
        except (OSError, ValueError, AttributeError):
            pass

    def _run(self, timeout):
        w = self._w
        if self.returncode is not None:
            return self.returncode
        if w.sched is not None:
            w.sched.point("wait")
        if self._left is None or (timeout is not None and timeout < self._left):
            if timeout is None:
                w.ev("hang", os.path.basename(str(self.args[0])))
                w.hang = True
                raise SimHang("waiting forever for %s" % os.path.basename(str(self.args[0])))
            w.advance(timeout)
            if self._left is not None:
                self._left -= timeout
            raise subprocess.TimeoutExpired(self.args, timeout)
        w.advance(self._left, 0.0)
        self._finish()
        if w.sched is not None:
            w.sched.point("waited")
        return self.returncode

    def wait(self, timeout=None):
        return self._run(timeout)

    def poll(self):
        if self.returncode is None and self._left is not None:
            self._w.advance(0.01)
            self._left -= 0.01
            if self._left <= 0:
                self._finish()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self._run(timeout)
        return (self.stdout.read() if self.stdout else None, self.stderr.read() if self.stderr else None)

    def send_signal(self, sig):
        if self.returncode is None:
            self._left, self.outcome = 0.0, Outcome(exit=-int(sig))

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a[0] is None or not issubclass(a[0], (SimHang, SimCrash)):
            self.wait()
        return False
