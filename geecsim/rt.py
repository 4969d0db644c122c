"""Runtime of the simulator: simulated processes, their operating system, interrupts.

Everything in this module runs in a worker (see worker.py), an interpreter started with the
LD_PRELOAD layer shim.c, which has already imported geec and compiled its numba functions.
Each simulated process is a fork of it, so that no state passes from one to another.
"""
import ctypes
import errno
import gc
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import threading
import traceback

from geecsim import process, tasks

REPO = os.environ.get("GEECSIM_REPO", "/repo")  # (another one: experiments with planted bugs only)
HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"

OPS = ["", "open", "read", "write", "close", "fsync", "rename", "unlink", "mkdir", "rmdir", "truncate",
       "chmod", "link", "symlink", "utime"]
OPNUM = {o: i for i, o in enumerate(OPS)}
OPNUM["any"] = 0
CLASSES = {"any": 0, "config": 1, "home": 2, "default": 3, "input": 4, "output": 5, "log": 6, "grid": 7, "tmp": 8,
           "world": 9, "term": 10, "outside": 99}
CLSNAME = {v: k for k, v in CLASSES.items()}
ACTIONS = {"err": 1, "short": 2, "crash": 3, "crash_after": 4, "torn": 5, "sigint": 6, "clock": 7, "sticky": 8, "swap": 9}
ACTNAME = {v: k for k, v in ACTIONS.items()}
MUTATING = {"write", "rename", "unlink", "mkdir", "rmdir", "truncate", "chmod", "link", "symlink", "utime"}

CRASHED = 137
TOO_LONG = 96

WALL = 60  # seconds a simulated process may take (real ones: well under 2)


class Violation(Exception):
    """A property does not hold."""


class HarnessError(Exception):
    """Something went wrong in the simulator itself."""


class Hang(Exception):
    """A simulated process did not end."""


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        try:
            _lib.sim_shared_size.restype = ctypes.c_long
        except AttributeError:
            raise HarnessError("not running under the simulated operating system layer")
        _lib.sim_shared.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_long]
        _lib.sim_shared_size.argtypes = [ctypes.c_int, ctypes.c_long]
        _lib.sim_plan.argtypes = [ctypes.c_int] * 4 + [ctypes.c_long]
        _lib.sim_clock.argtypes = [ctypes.c_int64] * 3
        _lib.sim_clock_advance.argtypes = [ctypes.c_int64]
        _lib.sim_clock_step.argtypes = [ctypes.c_int64]
        _lib.sim_clock_mono.restype = ctypes.c_int64
        _lib.sim_guard.argtypes = [ctypes.c_int, ctypes.c_int64]
        _lib.sim_ident.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _lib.sim_limit.argtypes = [ctypes.c_long]
    return _lib


CAP = 3000
ARENA = 1 << 20
ENTRY = struct.Struct("<8i3q256s256s")


def memfd(name):
    fd = lib().memfd_create(name.encode(), 1)  # close on exec
    if fd < 0:
        raise HarnessError("memfd_create")
    lib().sim_forget(fd)
    return fd


def pipe():
    p = os.pipe()
    for fd in p:
        lib().sim_forget(fd)
    return p


class Slot:
    """Memory shared with one simulated process: its operation log."""

    _free = []
    mine = None

    def __init__(self, fd=None):
        size = lib().sim_shared_size(CAP, ARENA)
        self.fd = fd
        if fd is None:
            self.fd = memfd("slot")
            os.ftruncate(self.fd, size)
        self.mem = mmap.mmap(self.fd, size)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.mem))

    @classmethod
    def take(cls):
        return cls._free.pop() if cls._free else cls()

    def give(self):
        Slot._free.append(self)

    def clear(self):
        lib().sim_shared(self.addr, CAP, ARENA)

    def read(self):
        n, cap, nops, crashed, used, acap, clk = struct.unpack_from("<4i3q", self.mem, 0)
        entries = []
        base = 256 + CAP * ENTRY.size
        for i in range(n):
            idx, op, cls, fd, res, err, flags, fault, off, ln, ar, p1, p2 = ENTRY.unpack_from(self.mem, 256 + i * ENTRY.size)
            data = None
            if OPS[op] == "write" and res > 0 and ar >= 0:
                data = bytes(self.mem[base + ar : base + ar + res])
            entries.append(Op(idx, OPS[op], CLSNAME.get(cls, cls), fd, res, err, flags, ACTNAME.get(fault, ""), off, ln,
                              p1.split(b"\0")[0].decode(errors="replace"), p2.split(b"\0")[0].decode(errors="replace"), data))
        return entries, nops, crashed


def operations():
    """how many file operations this simulated process has done"""
    return struct.unpack_from("<4i", Slot.mine.mem, 0)[2] if Slot.mine else 0


class Op:
    __slots__ = ("idx", "op", "cls", "fd", "res", "err", "flags", "fault", "off", "len", "path", "path2", "data")

    def __init__(self, *a):
        for k, v in zip(self.__slots__, a):
            setattr(self, k, v)

    def __repr__(self):
        r = f"{self.idx:3d} {self.op:8s} {self.cls:8s} {self.path}"
        if self.path2:
            r += f" -> {self.path2}"
        if self.op in ("read", "write"):
            r += f" [{self.len}]"
        r += f" = {self.res}"
        if self.err:
            r += f" {errno.errorcode.get(self.err, self.err)}"
        if self.fault:
            r += f"   <== {self.fault}"
        return r


# ---------------------------------------------------------------- interrupts
class Count:
    """How many instants there were, and which of them at each place of the code."""

    def __init__(self):
        self.n, self.sites = 0, {}

    def add(self, n, site):
        s = self.sites.setdefault(site, [])
        if len(s) < 24:
            s.append(n)
        else:
            s[8 + n % 16] = n  # the first ones, and some of the others
        self.n = n


def at_event(it, count):
    """the instant an interruption is for, given those of an undisturbed execution"""
    if not count:
        return 1
    if it.get("site") is not None and count.sites:  # any place as likely as any other, however often it is passed
        sites = list(count.sites.values())
        s = sorted(sites[min(int(it["frac"] * len(sites)), len(sites) - 1)])
        return s[min(int(it["site"] * len(s)), len(s) - 1)]
    return 1 + int(it["frac"] * max(count.n - 1, 0) + 0.5)


class Interrupter:
    """Counts the instants at which Python may raise an interruption (or fail to get memory) in
    the code of geec, and raises one at the chosen instant.

    interrupt: when a function of geec is entered, or when a C function called by geec returns:
    the interpreter looks for signals at these instants.
    memory: when geec calls a C function.
    """

    def __init__(self, kind, at=None, root=REPO + "/geec", limit=None):
        self.kind, self.at, self.root, self.limit = kind, at, root, limit
        self.n = 0
        self.where = None
        self.count = Count() if at is None else None
        self.exc = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "count": None}[kind]

    def _mine(self, frame):
        return frame is not None and frame.f_code.co_filename.startswith(self.root)

    def __call__(self, frame, event, arg):
        if event == "call":
            if self.kind == "memory" or not self._mine(frame):
                return
        elif event == "c_return":
            if self.kind == "memory" or not self._mine(frame):
                return
        elif event == "c_call":
            if self.kind != "memory" or not self._mine(frame):
                return
            if getattr(arg, "__name__", "") in ("setprofile", "__exit__", "__enter__", "release", "acquire"):
                return
        else:
            return
        self.n += 1
        if self.count:
            c = frame.f_code
            self.count.add(self.n, (c.co_filename, c.co_firstlineno, c.co_name, frame.f_lasti, event))
        elif self.n == self.at and self.where is None and self.exc:
            sys.setprofile(None)
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {event} {getattr(arg, '__name__', frame.f_code.co_name)}"
            self.ops = operations()
            self.fire()

    def fire(self):
        if self.kind == "interrupt" and signal.getsignal(signal.SIGINT) is not signal.default_int_handler and threading.current_thread() is threading.main_thread():
            signal.raise_signal(signal.SIGINT)  # the program has its own way
        else:
            raise self.exc(f"simulated at {self.where}")

    def start(self):
        self.n = 0
        sys.setprofile(self)

    def stop(self):
        sys.setprofile(None)


def _checks():
    import dis

    return frozenset(i for i, n in enumerate(dis.opname) if n in ("CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD") or n.startswith("POP_JUMP_BACKWARD"))


class Tracer:
    """Calls tick(frame) at every instant at which the interpreter, running code of geec, looks for
    signals and lets other threads run: on entering a function, after a call of a function that
    is not geec's, on jumping backwards."""

    CHECKS = _checks()

    def __init__(self, tick, root=REPO + "/geec"):
        self.tick, self.root = tick, root
        self.check = False
        self.codes = {}

    def glob(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(self.root):
            return None
        if code not in self.codes:
            self.codes[code] = code.co_code
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        self.check = False
        self.tick(frame)
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            was = self.check
            self.check = self.codes[frame.f_code][frame.f_lasti] in self.CHECKS
            if was:
                self.tick(frame)
        else:
            self.check = False
        return self.local


class FineInterrupter:
    """An interruption at any instant at which one may come (see Tracer)."""

    kind, exc, fire = "interrupt", KeyboardInterrupt, Interrupter.fire

    def __init__(self, at=None, root=REPO + "/geec"):
        self.at, self.n, self.where = at, 0, None
        self.count = Count() if at is None else None
        self.tracer = Tracer(self.tick, root)

    def tick(self, frame):
        self.n += 1
        if self.count:
            c = frame.f_code
            self.count.add(self.n, (c.co_filename, c.co_firstlineno, c.co_name, frame.f_lasti))
        elif self.n == self.at and self.where is None:
            sys.settrace(None)
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name}+{frame.f_lasti}"
            self.ops = operations()
            self.fire()

    def start(self):
        self.n = 0
        sys.settrace(self.tracer.glob)

    def stop(self):
        sys.settrace(None)


def libraries():
    """code that geec calls, and in which it may be interrupted"""
    import confuse
    import pygeodesy
    import pymap3d

    return (REPO + "/geec",) + tuple(os.path.dirname(m.__file__) + "/" for m in (confuse, pygeodesy, pymap3d))


def interrupter(it, at=None, **k):
    if it.get("lib"):
        k["root"] = libraries()
    return FineInterrupter(at, **k) if it.get("fine") else Interrupter(it["kind"], at, **k)


def under(inter, f, *a, **k):
    """run f under an interrupter; return (value, exception)"""
    try:
        inter.start()
        try:
            v = f(*a, **k)
        finally:
            sys.setprofile(None)
            sys.settrace(None)
        return v, None
    except BaseException as e:  # noqa
        sys.setprofile(None)
        sys.settrace(None)
        return None, e


# ---------------------------------------------------------------- worlds
def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


class World:
    """Directories of a simulated machine."""

    DIRS = ("home", "cfg", "in", "out", "work", "log", "grids", "tmp")

    def __init__(self, base, name):
        self.root = os.path.join(base, name)
        self.fresh()

    def fresh(self):
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        for d in self.DIRS:
            if d not in ("log",):
                os.mkdir(os.path.join(self.root, d))

    def p(self, *a):
        return os.path.join(self.root, *a)

    def write(self, rel, data, mode=None):
        p = self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with open(p, "wb") as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def read(self, rel):
        try:
            with open(self.p(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError):
            return None
        except IsADirectoryError:
            return b"<directory>"

    def snapshot(self):
        """every file and directory with its content and permissions"""
        r = {}
        for d, dn, fn in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            r[rel + "/"] = ("dir", os.stat(d).st_mode & 0o7777)
            for f in fn:
                p = os.path.join(d, f)
                k = os.path.normpath(os.path.join(rel, f))
                if os.path.islink(p):
                    r[k] = ("link", os.readlink(p))
                else:
                    with open(p, "rb") as h:
                        r[k] = ("file", os.stat(p).st_mode & 0o7777, h.read())
            for f in dn:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    r[os.path.normpath(os.path.join(rel, f))] = ("link", os.readlink(p))
        return r

    def remove(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def rules(self):
        """managed paths: (prefix, class, redirected to)"""
        W = self.p
        return [
            (W("home"), "home", ""), (W("cfg"), "config", ""), (W("in"), "input", ""), (W("out"), "output", ""),
            (W("work"), "output", ""), (W("log"), "log", ""), (W("grids"), "grid", ""), (W("tmp"), "tmp", ""),
            (self.root, "world", ""),
            (REPO + "/log", "log", W("log")),
            (REPO + "/geec/data/geoids", "grid", W("grids")),
            (REPO + "/geec/cfg", "default", ""),
            ("/tmp", "tmp", W("tmp")), ("/var/tmp", "tmp", W("tmp")), ("/usr/tmp", "tmp", W("tmp")),
        ]


# ---------------------------------------------------------------- simulated processes
class Result:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return f"<exit {self.code}, {self.nops} operations>"


DEFAULT_OS = {"time": 1700000000.0, "mono": 5000.0, "pid": 4242, "entropy": 1, "tick": 1000, "op": 20000}


def _setup_os(slot, world, spec, sched):
    L = lib()
    L.sim_reset()
    if slot is not None:
        L.sim_shared(slot.addr, CAP, ARENA)
    for prefix, cls, to in world.rules() if world else []:
        # a rule of the world given under a path of the repository must not hide a fixed one
        if L.sim_rule(prefix.encode(), CLASSES[cls], to.encode()):
            raise HarnessError("path too long: " + prefix)
    for a, b in spec.get("swaps", []):
        if L.sim_swap(a.encode(), b.encode()) < 0:
            raise HarnessError("path too long: " + b)
    for f in spec.get("faults", []):
        L.sim_plan(OPNUM[f.get("op", "any")], CLASSES[f.get("cls", "any")], int(f.get("nth", 0)), ACTIONS[f["do"]],
                   int(getattr(errno, f["arg"]) if isinstance(f.get("arg"), str) else f.get("arg", 0)))
    o = dict(DEFAULT_OS, **spec.get("os", {}))
    L.sim_clock(int(o["time"] * 1e9), int(o["mono"] * 1e9), int(o["tick"]))
    L.sim_guard(1 if world else 0, int(o["op"]))
    L.sim_ident(int(o["pid"]), int(o["entropy"]) & (2**64 - 1))
    if spec.get("limit"):
        L.sim_limit(int(spec["limit"]))
    if spec.get("term"):  # what is shown may fail, too
        L.sim_fd(1, CLASSES["term"], b"standard output")
        L.sim_fd(2, CLASSES["term"], b"standard error")
    if sched:
        L.sim_sched(*sched)


def _say(x):
    """as the interpreter: what cannot be shown is lost"""
    try:
        print(x, file=sys.stderr)
    except BaseException:
        pass


def leave_error(e):
    """what the interpreter remembers of the error that ended a program"""
    sys.last_type, sys.last_value, sys.last_traceback = type(e), e, e.__traceback__


def run_program(argv, end=True):
    """what 'python -m geec ARGV' does; returns its exit status (end: and the interpreter ends)"""
    import atexit
    import runpy

    sys.argv = ["geec"] + list(argv)
    code = 0
    try:
        runpy.run_module("geec", run_name="__main__", alter_sys=True)
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            _say(e.code)
            code = 1
    except KeyboardInterrupt as e:
        sys.setprofile(None)
        sys.settrace(None)
        leave_error(e)
        _say(traceback.format_exc(limit=-3))
        code = 130
    except BaseException as e:
        sys.setprofile(None)
        sys.settrace(None)
        leave_error(e)
        _say(traceback.format_exc(limit=-4))
        code = 1
    sys.setprofile(None)
    if not end:
        return code
    try:
        atexit._run_exitfuncs()
    except BaseException:
        pass
    for f in (sys.stdout, sys.stderr):
        try:
            if f is not None:
                f.flush()
        except BaseException:
            code = 120  # as the interpreter does
    return code


def disturb_heap(seed):
    """other addresses for the objects created from now on"""
    import random

    r = random.Random(seed)
    keep = []
    for size in range(1, 480, 16):
        a = [bytes(size) for _ in range(r.choice([0, 20, 200]))]
        r.shuffle(a)
        del a[: len(a) // 2]
        keep.append(a)
    for n in (0, 1, 3, 7):
        a = [([None] * n, {}, object()) for _ in range(r.choice([0, 30, 300]))]
        r.shuffle(a)
        del a[: len(a) // 2]
        keep.append(a)
    return keep


def other_host(h):
    """another machine, for those who ask"""
    import platform
    import socket

    n = h["cpus"]
    os.cpu_count = lambda: n
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = os.cpu_count
    os.sched_getaffinity = lambda pid: set(range(n))
    os.getloadavg = lambda: (h["load"],) * 3
    u = os.uname()
    x = os.uname_result((u.sysname, h["name"], h["release"], u.version, u.machine))
    os.uname = lambda: x
    socket.gethostname = platform.node = lambda: h["name"]
    os.environ.update(USER=h["user"], LOGNAME=h["user"], HOSTNAME=h["name"])
    os.getlogin = lambda: h["user"]


def _child_cli(slot, world, spec, sched, report):
    Slot.mine = slot
    os.chdir(world.p(spec.get("cwd", "work")))
    os.environ["HOME"] = world.p("home")
    for k in ("XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "GEECDIR", "TMPDIR"):
        os.environ.pop(k, None)
    os.environ["XDG_CONFIG_DIRS"] = world.p("home/.xdg")
    if spec.get("env"):
        import time

        os.environ.update(spec["env"])
        time.tzset()
    os.umask(0o022)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    if "random" in spec:
        import random

        import numpy as np

        spec["heap"] = disturb_heap(spec["random"])
        random.seed(spec["random"])
        np.random.seed(spec["random"] % 2**32)
    if spec.get("host"):
        other_host(spec["host"])
    if "loguru" in sys.modules:  # it was imported before the clock was simulated
        import datetime

        sys.modules["loguru._logger"].start_time = datetime.datetime.fromtimestamp(dict(DEFAULT_OS, **spec.get("os", {}))["time"], datetime.timezone.utc)
    tasks.seed(spec.get("random", spec.get("os", {}).get("entropy", 1)))
    for put, sp in spec.get("before", ()):  # earlier runs in the same interpreter
        put()
        inter = None
        if sp.get("interrupt"):
            inter = interrupter(sp["interrupt"], sp["interrupt"]["at"])
        os.chdir(world.p(sp["cwd"]))
        err = sys.stderr
        if sp.get("no stderr"):  # as in a program without windows
            sys.stderr = None
        was = process.same() if spec.get("watch") else None
        argv = sys.argv
        _setup_os(slot, world, sp, None)
        lib().sim_arm(1)
        if inter:
            inter.start()
        try:
            code = sp["call"]() if "call" in sp else run_program(sp["argv"], end=False)
        except KeyboardInterrupt:
            code = 130
        if inter:
            inter.stop()
        lib().sim_arm(0)
        if was:
            sys.argv = argv
            sys.last_type = sys.last_value = sys.last_traceback = None
            for x in (sys.stdout, sys.stderr):
                if x is not None:
                    x.flush()
            report.setdefault("watch", []).append((was, process.state(), inter.count if inter else None))
        sys.stderr = err
        log, nops, crashed = slot.read()
        for o in log:
            o.data = None
        report.setdefault("before", []).append((code, log, inter and inter.where))
    if spec.get("before"):
        spec["put"]()
        os.chdir(world.p(spec.get("cwd", "work")))
    inter = None
    if spec.get("interrupt"):
        i = spec["interrupt"]
        inter = interrupter(i, i.get("at"))
    for fd in spec.get("closed", ()):  # started without these standard streams
        setattr(sys, ("stdin", "stdout", "stderr")[fd], None)
        setattr(sys, ("__stdin__", "__stdout__", "__stderr__")[fd], None)
        os.close(fd)
    _setup_os(slot, world, spec, sched)
    lib().sim_arm(1)
    if inter:
        inter.start()
    code = run_program(spec["argv"])
    lib().sim_arm(0)
    if inter:
        report["events"] = inter.count
        report["where"] = inter.where
        report["ops"] = getattr(inter, "ops", None)
    return code


def spawn(kind, slot, world, spec, sched=None):
    """start a simulated process; returns a handle"""
    slot.clear()
    err, out, rep = memfd("err"), memfd("out"), memfd("rep")
    sys.stdout.flush()
    sys.stderr.flush()
    er, ew = pipe()  # closed when the process ends
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(er)
            gc.freeze()
            os.dup2(out, 1)
            os.dup2(err, 2)
            if sched:
                for fd in sched.get("close", []):
                    os.close(fd)
            report = {}
            code = kind(slot, world, spec, sched and sched["fds"], report)
            os.write(rep, pickle.dumps(report))
        except BaseException:
            lib().sim_arm(0)
            sys.setprofile(None)
            os.write(rep, pickle.dumps({"harness": traceback.format_exc()}))
            code = 98
        finally:
            os._exit(code)
    os.close(ew)
    return {"pid": pid, "err": err, "out": out, "rep": rep, "slot": slot, "end": er}


def ended(fd, wall):
    """wait until the other end of the pipe is closed"""
    p = select.poll()
    p.register(fd, select.POLLIN | select.POLLHUP)
    ok = p.poll(wall * 1000)
    os.close(fd)
    return bool(ok)


def _readfd(fd):
    n = os.fstat(fd).st_size
    r = os.pread(fd, n, 0)
    os.close(fd)
    return r


def reap(h, wall=WALL, waited=None):
    """wait for a simulated process"""
    if waited is None:
        if not ended(h["end"], wall):
            os.kill(h["pid"], signal.SIGKILL)
            os.waitpid(h["pid"], 0)
            for k in ("err", "out", "rep"):
                os.close(h[k])
            raise Hang("a simulated process did not end")
        _, st = os.waitpid(h["pid"], 0)
    else:
        st = waited
    code = os.waitstatus_to_exitcode(st)
    log, nops, crashed = h["slot"].read()
    err, out, rep = (_readfd(h[k]) for k in ("err", "out", "rep"))
    report = pickle.loads(rep) if rep else {}
    if "harness" in report:
        raise HarnessError(report["harness"])
    return Result(code=code, log=log, nops=nops, crashed=crashed, err=err.decode(errors="replace"),
                  out=out.decode(errors="replace"), events=report.get("events"), where=report.get("where"), report=report)


def cli(world, spec):
    """run a command of geec in the world, under the faults of the spec"""
    slot = Slot.take()
    try:
        return reap(spawn(_child_cli, slot, world, spec))
    finally:
        slot.give()


def cli_fresh(world, spec):
    """the same in a new interpreter, which imports and compiles everything itself"""
    slot = Slot.take()
    try:
        slot.clear()
        err, out, rep = memfd("err"), memfd("out"), memfd("rep")
        er, ew = pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.set_inheritable(ew, True)
                os.dup2(out, 1)
                os.dup2(err, 2)
                os.set_inheritable(slot.fd, True)
                os.set_inheritable(rep, True)
                env = dict(os.environ, GEECSIM_BOOT=json.dumps([slot.fd, rep, world.root, spec]))
                env["PYTHONHASHSEED"] = str(spec.get("hashseed", env.get("PYTHONHASHSEED", "0")))
                os.execve(PYTHON, [PYTHON, os.path.join(HERE, "boot.py")], env)
            finally:
                os._exit(98)
        os.close(ew)
        return reap({"pid": pid, "err": err, "out": out, "rep": rep, "slot": slot, "end": er})
    finally:
        slot.give()


def boot():
    """entry of the new interpreter"""
    fd, rep, root, spec = json.loads(os.environ.pop("GEECSIM_BOOT"))
    world = World.__new__(World)
    world.root = root
    tasks.patch()
    report = {}
    code = 98
    try:
        slot = Slot(fd)
        code = _child_cli(slot, world, spec, None, report)
    except BaseException:
        lib().sim_arm(0)
        report = {"harness": traceback.format_exc()}
    os.write(rep, pickle.dumps(report))
    os._exit(code)


def isolated(f, *a, wall=WALL):
    """run f(*a) in a forked process and return what it returns (picklable)"""
    r = memfd("r")
    sys.stdout.flush()
    er, ew = pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(er)
            gc.freeze()
            try:
                v = ("ok", f(*a))
            except Violation as e:
                v = ("violation", e.args)
            except BaseException:
                sys.setprofile(None)
                v = ("harness", traceback.format_exc())
            os.write(r, pickle.dumps(v))
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    os.close(ew)
    ok = ended(er, wall)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    data = _readfd(r)
    if not ok:
        raise Hang("a simulated session did not end")
    if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT):
        raise Violation("crash", f"the process was ended by {signal.Signals(os.WTERMSIG(st)).name}")
    if not data:
        raise HarnessError(f"a session ended with status {st} and no report")
    kind, v = pickle.loads(data)
    if kind == "violation":
        raise Violation(*v)
    if kind == "harness":
        raise HarnessError(v)
    return v


class Group:
    """Several processes at the same time, one file operation at a time.

    choose(ready, count) picks the next one; kill maps (process, n) to a kill before its n-th operation."""

    def __init__(self, world, specs, choose, kill=None, kind=_child_cli):
        self.choose, self.kill = choose, kill or {}
        self.slots = [Slot.take() for _ in specs]
        self.state = ["running"] * len(specs)
        self.count = [0] * len(specs)
        self.results = [None] * len(specs)
        self.schedule = []
        self.hs, self.pipes = [], []
        for _ in specs:
            self.pipes.append((pipe(), pipe()))  # requests, grants
        allfds = [fd for q in self.pipes for pr in q for fd in pr]
        for i, spec in enumerate(specs):
            (qr, qw), (gr, gw) = self.pipes[i]
            mine = {qw, gr}
            self.hs.append(spawn(kind, self.slots[i], world, spec,
                                 sched={"fds": (qw, gr), "close": [fd for fd in allfds if fd not in mine]}))
            os.close(qw)
            os.close(gr)
            allfds = [fd for fd in allfds if fd not in (qw, gr)]
        self.started = False

    def _wait(self, i):
        """until process i asks for an operation or ends"""
        qr = self.pipes[i][0][0]
        p = select.poll()
        p.register(qr, select.POLLIN | select.POLLHUP)
        if not p.poll(WALL * 1000):
            raise Hang("a simulated process neither asks nor ends")
        b = os.read(qr, 1)
        if b:
            self.state[i] = {b"w": "waiting", b"i": "idle"}.get(b, "ready")
        else:
            self.results[i] = reap(self.hs[i])
            self.state[i] = "done"

    def wake(self, i, fd, token):
        """an idle process goes on"""
        self.state[i] = "running"
        os.write(fd, token)
        self._wait(i)

    def advance(self, n=None):
        """grant n operations (or all of them); returns whether there are more"""
        if not self.started:
            self.started = True
            for i in range(len(self.hs)):
                self._wait(i)
        while True:
            ready = [i for i, s in enumerate(self.state) if s == "ready"]
            if not ready:  # those who wait for another one ask again
                ready = [i for i, s in enumerate(self.state) if s == "waiting"]
            if not ready:
                return False
            if n is not None:
                if n <= 0:
                    return True
                n -= 1
            i = self.choose(ready, self.count)
            g = b"g"
            if self.kill.get(i) == self.count[i]:
                g = b"k"
            self.schedule.append(i if g == b"g" else -1 - i)
            self.count[i] += 1
            os.write(self.pipes[i][1][1], g)
            self._wait(i)

    def end(self):
        for i, h in enumerate(self.hs):
            os.close(self.pipes[i][0][0])
            os.close(self.pipes[i][1][1])
            if self.state[i] != "done":
                try:
                    os.kill(h["pid"], signal.SIGKILL)
                    os.waitpid(h["pid"], 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
        for s in self.slots:
            s.give()


def run_scheduled(world, specs, choose, kill=None):
    """Run several commands at the same time; returns the results and the schedule."""
    g = Group(world, specs, choose, kill)
    try:
        g.advance()
    finally:
        g.end()
    return g.results, g.schedule


def norm(world, text):
    return text.replace(world.root, "W")
