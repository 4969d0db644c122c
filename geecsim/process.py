"""What a process consists of, besides its memory: to see what a call has changed of it."""
import atexit
import gc
import locale
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings

SIGNALS = [s for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)]


def same():
    """what must be as before, by name"""
    import decimal

    import numpy as np
    import pandas as pd

    u = os.umask(0)
    os.umask(u)
    try:
        c = os.waitpid(-1, os.WNOHANG)
        children = f"a child process ({c})"
    except ChildProcessError:
        children = "none"
    return {
        "working directory": os.getcwd(),
        "umask": oct(u),
        "environment": dict(os.environ),
        "signal handlers": {int(s): repr(signal.getsignal(s)) for s in SIGNALS},
        "signals blocked": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "timers": [signal.getitimer(t) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "child processes": children,
        "threads": threading.active_count(),
        "numpy error handling": (np.geterr(), repr(np.geterrcall())),
        "numpy print options": repr(np.get_printoptions()),
        "state of numpy.random": hash(np.random.get_state()[1].tobytes()) ^ np.random.get_state()[2],
        "state of random": hash(random.getstate()),
        "pandas options": repr({k: v for k, v in sorted(flat(pd._config.config._global_config))}),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": (time.tzname, time.timezone),
        "decimal context": repr(decimal.getcontext()),
        "recursion limit": sys.getrecursionlimit(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "hooks of the interpreter": [repr(h) for h in (sys.displayhook, sys.unraisablehook, threading.excepthook, warnings.showwarning)],
        "standard streams": [id(f) for f in (sys.stdin, sys.stdout, sys.stderr)],
        "socket timeout": socket.getdefaulttimeout(),
        "limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_STACK)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
    }


def flat(d, prefix=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, prefix + k + ".")
        else:
            yield prefix + k, repr(v)


def files():
    """paths of the open files"""
    r = []
    for f in os.listdir("/proc/self/fd"):
        try:
            r.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    return sorted(r)


def piled():
    """what must not pile up, by name"""
    from loguru import logger

    gc.collect()
    n = {"Polyhedron": 0, "Station": 0, "Mass": 0}
    for o in gc.get_objects():
        t = type(o)
        if t.__module__.startswith("geec.") and t.__name__ in n:
            n[t.__name__] += 1
    return {"handlers of the log": len(logger._core.handlers), "exit handlers": atexit._ncallbacks(), "entries of sys.path": len(sys.path),
            "warning filters": len(warnings.filters), "import hooks": len(sys.meta_path) + len(sys.path_hooks), **{f"objects of the class {k}": v for k, v in n.items()}}


def state():
    sys.exc_info()
    return {"same": same(), "files": files(), "piled": piled()}
