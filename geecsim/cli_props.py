"""Properties of the commands: real command line programs on simulated machines."""
import copy
import errno
import functools
import os
import random
import re
import time

import numpy as np

from geecsim import gen, lib_props, model, rt, setups
from geecsim.lib_props import DAMAGES, damage, put_grids, sig
from geecsim.rt import CRASHED, TOO_LONG, Violation

REAL = ["geec command line (cli, api, config, mass, observer, dataset, crs, station, polyhedron)", "typer, confuse, PyYAML, loguru, pandas, numpy, "
        "scipy/qhull, numba, pymap3d, pygeodesy", "Python runtime", "kernel file system (tmpfs, paths of the world)"]
STUBS = ["faults, order and durability of file operations (LD_PRELOAD layer)", "clock, process id, entropy", "delivery of signals and memory failures",
         "geoid grids (small synthetic ones, same format)"]

# what the operating system may do to a healthy program
def transparent(r):
    cls = r.choice(["input", "input", "config", "home", "default", "grid", "output", "output", "log", "any"])
    k = r.random()
    if k < 0.4:
        op = r.choice(["open", "read", "read", "write", "fsync"])
        return {"op": op, "cls": cls, "nth": r.choice([0, 0, 0, 1, 2, 5]), "do": "err", "arg": "EINTR"}
    if k < 0.85:
        op = r.choice(["read", "write", "write"]) if cls in ("output", "log", "any") else "read"
        return {"op": op, "cls": cls, "nth": r.choice([0, 0, 0, 1, 3]), "do": "short", "arg": r.choice([1, 2, 7, 40, 100])}
    return {"op": "any", "cls": "any", "nth": r.randrange(90), "do": "clock", "arg": r.choice([-3600, 3600, -1, 100000, -40000000, 2000000])}


def os_params(r, pid=None):
    return {"time": r.choice([1.7e9, 1.7e9, 1.6e9 + r.uniform(0, 1e8), 4.1e9]), "mono": r.uniform(1, 1e6), "pid": pid or r.randrange(300, 32000),
            "entropy": r.getrandbits(62), "tick": r.choice([100, 1000, 1000, 30000]), "op": r.choice([0, 20000, 20000, 3000000])}


HARD = ["EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EDQUOT", "EROFS"]
# (operation, class, errors) that really happen
SITES = [
    ("open", "input", ["EACCES", "EMFILE", "EIO", "ENOENT"]), ("read", "input", ["EIO"]), ("read", "input", ["EIO"]), ("close", "input", ["EIO"]),
    ("open", "config", ["EACCES", "EMFILE", "EIO", "ENOENT"]), ("read", "config", ["EIO"]), ("open", "home", ["EACCES", "EIO", "EMFILE"]), ("read", "home", ["EIO"]),
    ("open", "default", ["EACCES", "EMFILE"]), ("read", "default", ["EIO"]), ("open", "grid", ["EACCES", "ENOENT", "EMFILE"]), ("read", "grid", ["EIO"]),
    ("open", "output", ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EDQUOT"]), ("write", "output", ["ENOSPC", "EIO", "EDQUOT"]), ("write", "output", ["ENOSPC", "EIO"]),
    ("fsync", "output", ["EIO", "ENOSPC", "EDQUOT"]), ("fsync", "output", ["EIO"]), ("close", "output", ["EIO", "ENOSPC", "EDQUOT"]),
    ("rename", "output", ["EIO", "ENOSPC", "EACCES", "EXDEV", "EROFS"]), ("chmod", "output", ["EIO", "EPERM"]), ("mkdir", "output", ["ENOSPC", "EACCES", "EROFS"]),
    ("mkdir", "home", ["EACCES", "ENOSPC", "EROFS"]), ("open", "tmp", ["ENOSPC", "EACCES", "EMFILE"]), ("write", "home", ["ENOSPC"]), ("rename", "home", ["EIO"]),
]
OUTSITES = [s for s in SITES if s[1] == "output"]


def hard(r, sites=SITES):
    """an error, once or from then on"""
    op, cls, errs = r.choice(sites)
    f = {"op": op, "cls": cls, "nth": r.choice([0, 0, 0, 0, 1, 1, 2, 3]), "do": r.choice(["err", "err", "sticky"]), "arg": r.choice(errs)}
    if op == "write" and r.random() < 0.4:  # a part gets through, then the disk is full
        return [{"op": "write", "cls": cls, "nth": f["nth"], "do": "short", "arg": r.choice([1, 10, 100, 300])}, dict(f, nth=f["nth"], do="sticky")]
    return [f]


def stop(r):
    """the end of the process, or of the run, at some instant (resolved against an undisturbed run)"""
    k = r.random()
    frac = round(r.random(), 4)
    if k < 0.35:
        return {"how": r.choice(["crash", "crash_after"]), "cls": r.choice(["any", "output", "output", "output"]), "frac": frac}
    if k < 0.5:
        return {"how": "torn", "cls": r.choice(["output", "output", "log", "any"]), "frac": frac, "keep": round(r.random(), 3)}
    if k < 0.65:
        return {"how": "sigint", "cls": r.choice(["any", "output", "output", "input", "log"]), "frac": frac}
    site = {"site": round(r.random(), 3)} if r.random() < 0.45 else {}
    if k < 0.9:
        if r.random() < 0.15:
            site["fine"] = True
        return dict(site, how="interrupt", frac=frac if site else r.choice([frac, round(1 - 0.2 * frac, 4), round(1 - 0.02 * frac, 4)]))
    return dict(site, how="memory", frac=frac if site else r.choice([frac, round(1 - 0.2 * frac, 4)]))


def instants(st):
    """to count the instants of an interruption"""
    return {"kind": st["how"], "at": None, "fine": st.get("fine", False), "lib": st.get("lib", False)}


def resolve(st, dry):
    """faults and interruption of the spec, from an undisturbed run of the same"""
    if st is None:
        return {}
    if st["how"] in ("interrupt", "memory"):
        return {"interrupt": dict(instants(st), at=rt.at_event(st, dry.counts))}
    ops = [o for o in dry.log if (st["cls"] == "any" or o.cls == st["cls"]) and (st["how"] != "torn" or o.op == "write") and o.cls != "outside"]
    if not ops:
        ops = [o for o in dry.log if o.cls != "outside"]
    if not ops:
        return {}
    o = ops[min(int(st["frac"] * len(ops)), len(ops) - 1)]
    # the n-th operation of the whole run
    nth = sum(1 for x in dry.log if x.cls != "outside" and x.idx < o.idx)
    f = {"op": "any", "cls": "any", "nth": nth, "do": st["how"], "arg": 0}
    if st["how"] == "torn":
        if o.op != "write":
            f["do"] = "crash"
        else:
            f["arg"] = int(st["keep"] * max(o.len, 0))
    return {"faults": [f]}


def fired_of(res, extra=None):
    d = {}
    for o in res.log:
        if o.fault:
            k = f"{o.fault} {o.op} {o.cls}" + (f" {errno.errorcode.get(o.err, o.err)}" if o.fault in ("err", "sticky") and o.err else "")
            d[k] = d.get(k, 0) + 1
    if res.crashed and not any(o.fault in ("crash", "crash_after", "torn") for o in res.log):
        d["crash"] = d.get("crash", 0) + 1
    if res.where:
        k = (extra or {}).get("kind", "interrupt")
        d[k] = d.get(k, 0) + 1
    return d


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v
    return a


def trace_of(res):
    """what happened, without names that depend on the place"""
    return [(o.op, o.cls, o.res if o.op not in ("open",) else o.res >= 0, o.err, o.fault) for o in res.log] + [res.code, res.where]


def lines(world, res):
    return [rt.norm(world, repr(o)) for o in res.log] + [f"exit status {res.code}" + (f", {res.where}" if res.where else "")] + \
        [rt.norm(world, x) for x in res.err.strip().split("\n")[-6:]]


class Command:
    """common parts"""

    real, stubs = REAL, STUBS
    assumptions = ["the kernel implements the file operations; the layer in front of them decides faults and order",
                   "signals are delivered at instants at which CPython looks for them, memory failures at calls of C functions from geec",
                   "power cuts: names are durable in the order of their changes, data only once synchronised"]

    def start(self):
        self.heights = lib_props.Heights(self.base)
        self.w = rt.World(self.base, "a")
        self.w2 = rt.World(self.base, "b")
        setups.default_layer()

    def machine(self, s, world=None, old=True):
        w = world or self.w
        if isinstance(s.get("old"), dict):
            s["old"] = self.alike(s, w)
        w.fresh()
        put_grids(w)
        setups.put(w, s, old)
        return w

    def alike(self, s, w):
        """a former output that is much like the new one"""
        how, seed = s["old"]["like"], s["old"]["seed"]
        self.machine(dict(s, old=None), w)
        rt.cli(w, setups.spec(w, s))
        t = (w.read(s["target"]) or b"").decode()
        r = random.Random(seed)
        digits = [i for i, c in enumerate(t) if c in "123456789"]
        if not digits:
            return "older\n"
        if how == "digit":
            i = r.choice(digits[len(digits) // 2:])
            return t[:i] + str(10 - int(t[i])) + t[i + 1:] if t[i] != "5" else t[:i] + "6" + t[i + 1:]
        if how == "short":
            return t[:r.randrange(len(t))]
        if how == "long":
            return t + t.split("\n")[-2] + "\n"
        return t

    def dry(self, world, s, count=False, argv=None):
        """an undisturbed run"""
        sp = setups.spec(world, s)
        if argv:
            sp["argv"] = argv
        d = rt.cli(world, sp)
        if count:  # instants of interruption
            self.machine(s, world)
            d.counts = rt.cli(world, dict(sp, interrupt=instants(count))).events
        return d

    def right(self, world, s, res, what="run"):
        """the run must have succeeded and its output be right"""
        if res.code == TOO_LONG:
            raise Violation("endless", f"{what}: does not end within the limit of file operations")
        if res.code != 0:
            raise Violation("failed", f"{what}: exit status {res.code}: {rt.norm(world, res.err.strip()[-300:])}", lines(world, res))
        try:
            e = setups.expected(world, s, self.heights)
        except model.Invalid as x:
            raise Violation("accepted", f"{what}: succeeded, but must be refused: {x}", lines(world, res))
        bad = e.check(world.read(s["target"]))
        if bad:
            raise Violation("wrong", f"{what}: succeeded, but {bad}", lines(world, res))
        return e

    def shrink_setup(self, s):
        """smaller setups"""
        if s.get("old"):
            yield dict(s, old=None)
        if s.get("user"):
            yield dict(s, user=None)
        c = s.get("cfg")
        if isinstance(c, dict) and "masses" in c and "observers" in c:
            if len(c["masses"]) > 1:
                for i in range(len(c["masses"])):
                    yield dict(s, cfg=dict(c, masses=c["masses"][:i] + c["masses"][i + 1 :]))
            p = c["observers"].get("points")
            if p and len(p) > 1:
                yield dict(s, cfg=dict(c, observers=dict(c["observers"], points=p[:1])))
                yield dict(s, cfg=dict(c, observers=dict(c["observers"], points=p[1:])))
        if s["gradient"]:
            yield dict(s, gradient=False)
        if s["output"] not in ("@W/out/res.csv", "@W/out/t.yaml"):
            o = "out/t.yaml" if s["target"].endswith(".yaml") else "out/res.csv"
            yield dict(s, output="@W/" + o, target=o)

    def shrink(self, sc):
        for k in ("faults", "damage"):
            v = sc.get(k)
            if v:
                for i in range(len(v)):
                    yield dict(sc, **{k: v[:i] + v[i + 1 :]})
        if sc.get("stop"):
            yield dict(sc, stop=None)
        if sc.get("os"):
            yield dict(sc, os={})
        if sc.get("fresh"):
            yield dict(sc, fresh=False)
        if sc.get("setup"):
            for s in self.shrink_setup(sc["setup"]):
                yield dict(sc, setup=s)


SHOWN = ("density", "gravity_constant", "file_path", "ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin", "vdatum")


def shown(w):
    """the parameters that the log of the only run shows, in order, by name; None without a log"""
    logs = [f for f in os.listdir(w.p("log")) if f.startswith("geec_")] if os.path.isdir(w.p("log")) else []
    if len(logs) != 1:
        return None
    d = {}
    for line in (w.read("log/" + logs[0]) or b"").decode(errors="replace").split("\n"):
        m = re.search(r" - +(" + "|".join(SHOWN) + r") *: (.*)$", line)
        if m:
            d.setdefault(m[1], []).append(m[2].strip())
    return d


def not_shown(log, layers):
    """what the log shows and is not the value of the parameter (None: nothing; masses first, then observers)"""
    L = model.Layers(layers)
    n = len(L.get("masses"))
    for k in SHOWN:
        sub = () if k in ("density", "gravity_constant", "file_path") else ("crs",)
        want = [L.get("masses", i, *sub, k) for i in range(n)]
        if k not in ("density", "gravity_constant", "vdatum"):
            want.append(L.get("observers", *sub, k))
        got = log.get(k, [])
        if len(got) != len(want):
            continue  # shown in another way
        for i, (x, v) in enumerate(zip(got, want)):
            v = v if isinstance(v, str) else str(v)
            t = re.sub(r" (kg|m3) .*$", "", x) if k in ("density", "gravity_constant") else x
            try:
                same = abs(float(t) - float(v)) <= 1e-6 * abs(float(v))
            except ValueError:
                same = t == v.strip() or "\n" in v
            if not same:
                return f"{k} of {f'body {i}' if i < n else 'the observers'}: {t} instead of {v}"
    return None


# ---------------------------------------------------------------- C04
class C04(Command):
    id = "C04"
    runs = {"quick": 2600, "thorough": 110000}
    rule = ("seeded setups (1 to 3 bodies in any frame and datum, points inline, from files or grids, any output path), each run once on a machine "
            "that only does what a healthy one may do (short transfers, interrupted system calls, clock steps); non-trivial: at least one such "
            "event happened; distinct: by the sequence of file operations and events")

    def gen(self, r, tier):
        many = 0
        if r.random() < 0.025:  # near the sizes that programs like to cut at
            many = r.choice([16, 32, 50, 64, 64, 100, 100, 128, 200, 256, 500, 512]) + r.choice([-1, 0, 1, 1])
        s = setups.gen_setup(r, self.heights, many=many, links=0.06, **({"nmass": 1} if many else {}))
        if r.random() < 0.04:
            s["cfg"]["observers"]["points"] = (s["cfg"]["observers"]["points"] or []) * 12
        return {"setup": s, "faults": [transparent(r) for _ in range(r.choice([0, 1, 2, 3, 5]))], "os": os_params(r), "fresh": r.random() < 0.01}

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        sp = setups.spec(w, s, faults=sc["faults"], os=sc["os"])
        res = (rt.cli_fresh if sc.get("fresh") else rt.cli)(w, sp)
        e = self.right(w, s, res)
        f = fired_of(res)
        if "saved" not in res.err.lower():
            f["no message"] = 1
        return {"sig": sig(trace_of(res)), "digest": sig([w.read(s["target"]), res.code]), "nontrivial": bool(f), "fired": f, "worst": e.worst,
                "count": {"runs": 1, "observation points": len(e.pos), "file operations": res.nops, "runs in a new interpreter": int(bool(sc.get("fresh")))},
                "sim": simulated(res)}


def simulated(res):
    return res.nops * 2e-5


# ---------------------------------------------------------------- power cuts
class Disk:
    """What a disk may hold after a power cut, from the record of file operations.

    Inodes hold a list of versions of their content since they were last synchronised; names
    are changed in order, and any prefix of the changes may be durable."""

    def __init__(self, files):
        self.n = 0
        self.content = {}  # inode: bytes as seen by programs
        self.durable = {}  # inode: contents that may be found after a cut
        self.names = {}
        self.history = []  # changes of names: list of (name -> inode or None)
        self.fd = {}
        self.ok = True
        for p, data in files.items():
            i = self.new(data, True)
            self.names[p] = i
        self.first = dict(self.names)

    def new(self, data=b"", durable=False):
        self.n += 1
        self.content[self.n] = data
        self.durable[self.n] = [data]
        return self.n

    def change(self, i, data):
        self.content[i] = data
        self.durable[i].append(data)

    def apply(self, o):
        if o.res < 0:
            return
        if o.op == "open":
            if o.path not in self.names:
                if not o.flags & os.O_CREAT:
                    return
                self.names[o.path] = i = self.new()
                self.history.append({o.path: i})
            i = self.names[o.path]
            self.fd[o.fd] = i
            if o.flags & os.O_TRUNC and self.content[i]:
                self.change(i, b"")
        elif o.op == "write" and o.res > 0:
            i = self.fd.get(o.fd)
            if i is None:
                return
            if o.data is None:
                self.ok = False
                return
            c = self.content[i]
            off = len(c) if o.off < 0 else o.off
            c2 = c[:off].ljust(off, b"\0") + o.data + c[off + len(o.data) :]
            # torn: a part of it, or its space without its data
            half = len(o.data) // 2
            self.durable[i].append(c[:off].ljust(off, b"\0") + o.data[:half] + c[off + half :])
            self.durable[i].append(c[:off].ljust(off, b"\0") + b"\0" * len(o.data) + c[off + len(o.data) :])
            self.change(i, c2)
        elif o.op == "truncate":
            i = self.fd.get(o.fd) if o.fd >= 0 else self.names.get(o.path)
            if i is not None:
                self.change(i, self.content[i][: o.len].ljust(o.len, b"\0"))
        elif o.op == "fsync":
            i = self.fd.get(o.fd)
            if i is not None:
                self.durable[i] = [self.content[i]]
        elif o.op == "close":
            self.fd.pop(o.fd, None)
        elif o.op in ("rename", "link"):
            i = self.names.get(o.path)
            if i is None:
                if o.path2 in self.names:
                    self.ok = False  # something this model does not see
                return
            d = {o.path2: i}
            self.names[o.path2] = i
            if o.op == "rename":
                del self.names[o.path]
                d[o.path] = None
            self.history.append(d)
        elif o.op == "unlink":
            if self.names.pop(o.path, None) is not None:
                self.history.append({o.path: None})

    def visible(self, p):
        i = self.names.get(p)
        return None if i is None else self.content[i]

    def after_cut(self, p):
        """every content the file may have after a power cut now"""
        names = dict(self.first)
        seen = set()
        for d in [{}] + self.history:
            names.update(d)
            i = names.get(p)
            seen |= {None} if i is None else set(self.durable[i])
        return seen


def show(x):
    return "absent" if x is None else f"{len(x)} bytes"


# ---------------------------------------------------------------- C05
class C05(Command):
    id = "C05"
    runs = {"quick": 1500, "thorough": 80000}
    rule = ("seeded setups of the run and config commands, each run undisturbed and then stopped (crash before or after a file operation, torn write, "
            "interruption at an instant, memory failure, I/O error, full disk); the output file is examined after every file operation of both, for "
            "every content a power cut may leave, and at the end; non-trivial: the stop happened; distinct: by the sequence of operations and faults")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights, max_obs=r.choice([3, 3, 12]))
        if r.random() < 0.5 and s["old"] is None:
            s["old"] = setups.old_content(r)
        s["mode"] = r.choice([None, None, 0o600, 0o664])
        sc = {"setup": s, "os": os_params(r), "faults": [], "stop": None, "command": "run"}
        if r.random() < 0.2:
            sc["command"] = "config"
            s["output"], s["target"] = r.choice([("@W/out/t.yaml", "out/t.yaml"), ("@W/out/t", "out/t.yaml"), ("", "work/config_template.yaml")])
        k = r.random()
        if k < 0.65:
            sc["stop"] = stop(r)
        else:
            sc["faults"] = hard(r, OUTSITES)
        return sc

    def argv(self, w, sc):
        s = sc["setup"]
        if sc["command"] == "run":
            return setups.argv(w, s)
        return ["config"] + (["--output", setups.subst(w, s["output"])] if s["output"] else [])

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        target = w.p(s["target"])
        old = w.read(s["target"])
        a = self.argv(w, sc)
        st = sc.get("stop")
        d = self.dry(w, s, argv=a)
        if sc["command"] == "run":
            self.right(w, s, d, "undisturbed run")
        elif d.code:
            raise Violation("failed", f"config: exit status {d.code}: {d.err[-300:]}", lines(w, d))
        new = w.read(s["target"])
        if sc["command"] == "config":
            with open(setups.TEMPLATE, "rb") as f:
                if new is None or model.parse_yaml(new) != model.parse_yaml(f.read()):
                    raise Violation("template", "the template created is not the one of the package")
        images = self.examine(w, s, d, old, {old, new}, "undisturbed")
        if st and st["how"] in ("interrupt", "memory"):
            self.machine(s)
            d.counts = rt.cli(w, {"argv": a, "cwd": s["cwd"], "interrupt": instants(st)}).events
        self.machine(s)
        how = resolve(st, d)
        sp = {"argv": a, "cwd": s["cwd"], "os": sc["os"], "faults": sc["faults"] + how.get("faults", [])}
        if "interrupt" in how:
            sp["interrupt"] = how["interrupt"]
        res = rt.cli(w, sp)
        got = w.read(s["target"])
        if got not in (old, new):
            raise Violation("torn", f"the output file is neither as before ({show(old)}) nor complete ({show(new)}): {show(got)}, exit status {res.code}", lines(w, res))
        if res.code == 0 and got != new:
            raise Violation("success", f"exit status 0, but the output file is as before ({show(old)})", lines(w, res))
        images += self.examine(w, s, res, old, {old, new}, "disturbed")
        f = fired_of(res, how.get("interrupt"))
        return {"sig": sig(trace_of(res)), "digest": sig([got, res.code]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 2, "contents after a power cut examined": images, "outputs left as before": int(got == old), "outputs complete": int(got == new),
                          "of the config command": int(sc["command"] == "config")},
                "sim": simulated(res) + simulated(d)}

    def examine(self, w, s, res, old, allowed, what):
        target = w.p(s["target"])
        disk = Disk({target: old} if old is not None else {})
        n = 0
        for o in res.log:
            disk.apply(o)
            if not disk.ok:
                return n
            if o.op not in ("write", "open", "rename", "link", "unlink", "truncate", "fsync") or o.res < 0 or o.cls in ("log", "grid", "input"):
                continue
            v = disk.visible(target)
            if v not in allowed:
                raise Violation("instant", f"{what}: after {rt.norm(w, repr(o))} the output file is neither as before ({show(old)}) nor complete: {show(v)}", lines(w, res))
            for c in disk.after_cut(target):
                n += 1
                if c not in allowed:
                    raise Violation("power", f"{what}: a power cut after {rt.norm(w, repr(o))} may leave an output file neither as before ({show(old)}) nor complete: {show(c)}",
                                    lines(w, res))
        return n


# ---------------------------------------------------------------- C06
def tear_csv(r, text):
    k = r.random()
    if not text.strip():
        return text
    if k < 0.25:
        return text[: r.randrange(len(text))]
    L = text.rstrip("\n").split("\n")
    i = r.randrange(len(L))
    f = L[i].split(",")
    j = r.randrange(len(f))
    m = r.choice(["empty", "text", "nan", "fewer", "more", "inf", "blank", "lost", "semicolon", "nul", "merged", "na", "half", "comment", "header", "byte", "tabs", "decimal", "note"])
    if m == "empty":
        f[j] = ""
    elif m == "text":
        f[j] = r.choice(["abc", "1.2.3", "12x", "--1", "1e", "0x10", "1,5x"])
    elif m in ("nan", "na"):
        f[j] = r.choice(["nan", "NaN", "NA", "null", "None", "#N/A"])
    elif m == "inf":
        f[j] = r.choice(["inf", "-inf", "1e999"])
    elif m == "fewer":
        f = f[:2]
    elif m == "more":
        f = f + ["1.0"]
    elif m == "blank":
        return "\n".join(L[:i] + [""] + L[i:]) + "\n"
    elif m == "lost":
        return "\n".join(L[:i] + L[i + 1 :]) + "\n"
    elif m == "semicolon":
        return text.replace(",", ";")
    elif m == "nul":
        return "\n".join(L[:i] + ["\0" * len(L[i])] + L[i + 1 :]) + "\n"
    elif m == "merged":
        return text.replace("\n", "", 1)
    elif m == "comment":
        return "\n".join(L[:i] + [r.choice(["# a comment", "#" + L[i], "# 1.0,2.0,3.0", "% note"])] + L[i + r.choice([0, 1]) :]) + "\n"
    elif m == "note":
        f[-1] += r.choice([" # above sea level", "#", " m", "m", ";"])
    elif m == "header":
        return r.choice(["lon,lat,alt", "x,y,z", "x_mes,y_mes,z_mes", "(m),(m),(m)"]) + "\n" + text
    elif m == "byte":  # a character that no text has
        f[j] = f[j][:1] + r.choice(["\xff", "\xe9", "\xb0"]) + f[j][1:]
    elif m == "tabs":
        return text.replace(",", "\t")
    elif m == "decimal":
        return text.replace(",", ";").replace(".", ",") if r.random() < 0.5 else text.replace(".", ",")
    elif m == "half":  # the second half of the file is gone, in the middle of a row
        k = text.find(",", len(text) // 2)
        return text[: k + r.choice([0, 1])]
    return "\n".join(L[:i] + [",".join(f)] + L[i + 1 :]) + "\n"


def tear_yaml(r, text):
    m = r.random()
    if m < 0.35:
        return text[: r.randrange(len(text) + 1)]
    if m < 0.5:
        return text + r.choice(["\n  - ]", "\n{", "\n\t- x", "\n: :", "'", "\n- a\n"])
    if m < 0.6:
        return r.choice(["", "[]", "- 1\n- 2\n", "just text", "42", "\0\0\0\0", "masses:\n", "observers: 3\n", "masses: 7\n", "masses: abc\n"])
    L = text.split("\n")
    i = r.randrange(len(L))
    return "\n".join(L[:i] + L[i + 1 :])


class C06(Command):
    id = "C06"
    runs = {"quick": 2600, "thorough": 110000}
    rule = ("seeded setups with torn or malformed input or configuration files, I/O errors, full disks, crashes, interruptions and memory failures at "
            "seeded points; a run that exits with 0, or says that results are saved, must have written what the model computes from the files as they "
            "are; non-trivial: a fault happened or a file is damaged; distinct: by the sequence of operations, faults and outcome")

    def gen(self, r, tier):
        k = r.random()
        s = setups.gen_setup(r, self.heights, files_p=1 if k < 0.45 else None, grids=k >= 0.45)
        sc = {"setup": s, "os": os_params(r), "faults": [], "stop": None, "tear": None}
        if k < 0.4 and s["files"]:
            f = r.choice(sorted(s["files"]))
            for _ in range(r.choice([1, 1, 2])):
                s["files"][f] = tear_csv(r, s["files"][f])
            sc["tear"] = f
            if r.random() < 0.1:
                del s["files"][f]
        elif k < 0.5:
            sc["tear"] = "config"
            sc["tear_seed"] = r.getrandbits(32)
        elif k < 0.85:
            for _ in range(r.choice([1, 1, 2])):
                sc["faults"] += hard(r)
        else:
            sc["stop"] = stop(r)
        if r.random() < 0.2:
            sc["faults"].append(transparent(r))
        if r.random() < 0.15:  # points given inline and wrong
            m = r.choice(s["cfg"]["masses"] + [s["cfg"]["observers"]])
            if m.get("points") and sc["tear"] is None:
                p = m["points"][r.randrange(len(m["points"]))]
                p[r.randrange(3)] = r.choice([None, "abc", float("nan"), float("inf"), "x"])
                sc["tear"] = "points"
        return sc

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        if sc["tear"] == "config":
            text = tear_yaml(random.Random(sc["tear_seed"]), setups.dump(w, s["cfg"]).replace(w.root, "@W"))
            s = dict(s, cfg=text)
            self.machine(s)
        st = sc.get("stop")
        how = {}
        if st:
            d = self.dry(w, s, count=st if st["how"] in ("interrupt", "memory") else None)
            how = resolve(st, d)
            self.machine(s)
        old = w.read(s["target"])
        sp = setups.spec(w, s, os=sc["os"], faults=sc["faults"] + how.get("faults", []))
        if "interrupt" in how:
            sp["interrupt"] = how["interrupt"]
        res = rt.cli(w, sp)
        got = w.read(s["target"])
        verdict = "valid"
        try:
            e = setups.expected(w, s, self.heights)
        except model.Invalid as x:
            verdict, why = "invalid", str(x)
        except model.Unsure as x:
            verdict, why = "unsure", str(x)
        f = fired_of(res, how.get("interrupt"))
        said = "saved" in (res.err + res.out).lower()
        if verdict == "valid":
            bad = e.check(got)
            if res.code == 0 and bad:
                raise Violation("wrong", f"exit status 0, but {bad}", lines(w, res))
            if said and bad:
                raise Violation("message", f"results are said to be saved, but {bad} (exit status {res.code})", lines(w, res))
            hardly = [k for k in f if not ("EINTR" in k or k.startswith(("short", "clock")))]
            if res.code != 0 and not hardly:
                raise Violation("failed", f"exit status {res.code} though nothing is wrong: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
        elif verdict == "invalid":
            if res.code == 0:
                raise Violation("accepted", f"exit status 0, but must be refused: {why}", lines(w, res))
            if said:
                raise Violation("message", f"results are said to be saved, but must be refused: {why}", lines(w, res))
            if got != old:
                raise Violation("output", f"refused ({why}), but the output file has changed", lines(w, res))
        if got is not None and b"nan" in got.lower() and got != old:
            raise Violation("nan", "the output file holds missing values", lines(w, res))
        if sc["tear"]:
            f[f"damaged {sc['tear'].split('/')[0]} file: {verdict}"] = 1
        return {"sig": sig([trace_of(res), verdict]), "digest": sig([got, res.code]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, "exit 0": int(res.code == 0), "crashed": int(res.code == CRASHED), "refused or failed": int(res.code not in (0, CRASHED)),
                          "said saved": int(said)}, "sim": simulated(res)}

    def shrink(self, sc):
        if sc.get("tear_seed") is None:
            yield from super().shrink(sc)
        else:
            for x in super().shrink(sc):
                if x["setup"] is sc["setup"]:
                    yield x


# ---------------------------------------------------------------- C07
class C07(Command):
    id = "C07"
    runs = {"quick": 700, "thorough": 40000}
    rule = ("seeded histories of 1 to 4 runs on one machine, crashed, killed, failed or complete, that may share names of input, configuration, output and "
            "log files, process ids and times, followed by an undisturbed run; compared with the same run on a pristine machine; non-trivial: a run "
            "of the history was disturbed; distinct: by the sequence of operations and faults of the history")

    def gen(self, r, tier):
        past = []
        shared = r.random() < 0.6  # same file names, other contents
        same_time = r.random() < 0.4
        o0 = os_params(r)
        outs = [r.choice(setups.OUTPUTS) for _ in range(2)]
        for i in range(r.choice([1, 1, 2, 2, 3, 4])):
            s = setups.gen_setup(r, self.heights, tag="" if shared else str(i), out=r.choice(outs), max_obs=3)
            s["user"], s["old"] = None, None
            h = {"setup": s, "os": dict(os_params(r, o0["pid"] if r.random() < 0.3 else None)), "faults": [], "stop": None}
            if same_time:
                h["os"].update(time=o0["time"], tick=o0["tick"], op=o0["op"])
            k = r.random()
            if k < 0.5:
                h["stop"] = stop(r)
            elif k < 0.85:
                h["faults"] = hard(r)
            past.append(h)
        s = setups.gen_setup(r, self.heights, tag="" if shared else "last", out=r.choice(outs), max_obs=4)
        s["user"], s["old"] = None, None
        sc = {"past": past, "setup": s, "os": o0, "fresh": r.random() < 0.02}
        mode = r.choice(["full", "full", "partial", "partial", "user"])
        if mode == "partial":  # what is the default is not given
            s["cfg"] = given_only(r, s["cfg"])
        elif mode == "user":  # all of it is in the configuration of the user, there from the beginning
            sc["user"], s["cfg"] = s["cfg"], None
        for h in past:
            if r.random() < 0.2:
                h["setup"]["cfg"] = given_only(r, h["setup"]["cfg"])
        if r.random() < 0.35:  # all in one interpreter, that does not die
            sc["inproc"], sc["fresh"] = True, False
            for h in past:
                # (scipy itself breaks down when stopped while it makes its temporary file)
                while h["stop"] and h["stop"]["how"] not in ("interrupt", "memory"):
                    h["stop"] = stop(r)
                h["faults"] = [x for x in h["faults"] if x["cls"] not in ("tmp", "any")]
        return sc

    def run(self, sc):
        # on a pristine machine
        s = sc["setup"]
        user = {"user": sc["user"]} if sc.get("user") else {}
        w = self.machine(dict(s, **user), self.w2)
        ref = rt.cli(w, setups.spec(w, s, os=sc["os"]))
        self.right(w, s, ref, "run on a pristine machine")
        want = w.read(s["target"])
        # after the history
        w = self.w
        w.fresh()
        put_grids(w)
        if user:
            setups.put(w, dict(user, files={}))
        kept, f, tr, disturbed = {}, {}, [], 0
        before = []
        for h in sc["past"]:
            hs = h["setup"]
            if not sc.get("inproc"):
                setups.put(w, hs)
            how = {}
            if h["stop"]:
                hu = dict(hs, **user)
                self.machine(hu, self.w2)
                d = self.dry(self.w2, hs)
                if h["stop"]["how"] in ("interrupt", "memory"):
                    self.machine(hu, self.w2)
                    d.counts = rt.cli(self.w2, setups.spec(self.w2, hs, interrupt=instants(h["stop"]))).events
                how = resolve(h["stop"], d)
            sp = setups.spec(w, hs, os=h["os"], faults=h["faults"] + how.get("faults", []))
            if "interrupt" in how:
                sp["interrupt"] = how["interrupt"]
            if sc.get("inproc"):
                before.append((functools.partial(setups.put, w, hs), sp))
                continue
            res = rt.cli(w, sp)
            x = fired_of(res, how.get("interrupt"))
            disturbed += bool(x)
            add(f, x)
            tr.append(trace_of(res))
            if res.code == 0:
                kept[hs["target"]] = w.read(hs["target"])
                if kept[hs["target"]] is None:
                    raise Violation("lost", "a run of the history succeeded without an output file", lines(w, res))
            else:
                kept.pop(hs["target"], None)
        sp = setups.spec(w, s, os=sc["os"], limit=3 * ref.nops + 60)
        if before:
            sp.update(before=before, put=functools.partial(setups.put, w, s))
        else:
            setups.put(w, s)
        res = (rt.cli_fresh if sc.get("fresh") else rt.cli)(w, dict(sp, limit=sp["limit"] + (400 if sc.get("fresh") else 0)))
        for (code, log, where), (_, b) in zip(res.report.get("before", []), before):
            x = rt.Result(code=code, log=log, nops=len(log), crashed=0, err="", out="", events=None, where=where, report={})
            y = fired_of(x, b.get("interrupt"))
            disturbed += bool(y)
            add(f, y)
            tr.append(trace_of(x))
        if res.code == TOO_LONG:
            raise Violation("progress", f"more than {sp['limit']} file operations, instead of {ref.nops} on a pristine machine", lines(w, res))
        if res.code:
            raise Violation("failed", f"after this history: exit status {res.code}: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
        got = w.read(s["target"])
        if got != want:
            raise Violation("influence", f"the output differs from that of a pristine machine: {first_difference(want, got)}", lines(w, res))
        for t, data in kept.items():
            if t != s["target"] and w.read(t) != data:
                raise Violation("other", f"the output {t} of an earlier run has changed", lines(w, res))
        return {"sig": sig(tr), "digest": sig([got, tr]), "nontrivial": disturbed > 0, "fired": f,
                "count": {"runs": len(sc["past"]) + 2, "runs disturbed": disturbed, "histories in one interpreter": int(bool(before)), "earlier outputs kept": len([t for t in kept if t != s["target"]])},
                "sim": simulated(res) * (len(sc["past"]) + 1)}

    def shrink(self, sc):
        p = sc["past"]
        if sc.get("inproc"):
            yield dict(sc, inproc=False)
        for i in range(len(p)):
            yield dict(sc, past=p[:i] + p[i + 1 :])
        for i in range(len(p)):
            for x in ("faults", "stop"):
                if p[i][x]:
                    yield dict(sc, past=p[:i] + [dict(p[i], **{x: [] if x == "faults" else None})] + p[i + 1 :])
            for s in self.shrink_setup(p[i]["setup"]):
                yield dict(sc, past=p[:i] + [dict(p[i], setup=s)] + p[i + 1 :])
        for s in self.shrink_setup(sc["setup"]):
            yield dict(sc, setup=s)


def first_difference(a, b):
    if a is None or b is None:
        return f"{show(a)}, {show(b)}"
    for i, (x, y) in enumerate(zip(a.split(b"\n"), b.split(b"\n"))):
        if x != y:
            return f"line {i}: {y[:200]!r} instead of {x[:200]!r}"
    return f"{len(b)} bytes instead of {len(a)}"


def given_only(r, cfg):
    """the configuration without some of what the default says as well"""
    default = setups.default_layer()
    keep = []
    for path, v in leaves(cfg):
        d = model.Layers([default]).get(*path)
        if d is not model.MISSING and d == v and type(d) is type(v) and r.random() < 0.8:
            continue
        keep.append((path, v))
    return build(keep, len(cfg["masses"]))


# ---------------------------------------------------------------- C08
class C08(Command):
    id = "C08"
    runs = {"quick": 800, "thorough": 50000}
    rule = ("seeded setups, each run on two machines that differ in clock, process id, entropy, speed, working and output directory, global random "
            "generators, environment, leftovers of other processes and, for some, hash seed and interpreter; non-trivial: always; distinct: by setup "
            "and machines")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights, nmass=r.choice([None, None, 3, 4, 5]), max_obs=r.choice([6, 6, 20]))
        v = []
        for i in range(2):
            o = os_params(r)
            v.append({"os": o, "random": r.getrandbits(31), "output": r.choice(setups.OUTPUTS), "cwd": r.choice(["work", "work", "in", "out", "home"]),
                      "fresh": i == 1 and r.random() < 0.15, "hashseed": r.randrange(1, 4000), "faults": [transparent(r) for _ in range(r.choice([0, 0, 2]))],
                      "left": r.random() < 0.5, "old": r.choice([None, None, "older\n"]),
                      "env": r.choice([{}, {"TZ": "Asia/Tokyo"}, {"LC_ALL": "C"}, {"COLUMNS": "20", "TERM": "dumb"}, {"LANG": "fr_FR.UTF-8", "NO_COLOR": "1"},
                                       {"OMP_NUM_THREADS": "4"}]),
                      "host": {"cpus": r.choice([1, 2, 3, 4, 8, 64]), "name": r.choice(["alpha", "beta.example.org", "gamma-17"]), "user": r.choice(["ann", "bob"]),
                               "release": r.choice(["5.4.0", "6.8.0-31"]), "load": r.choice([0.0, 0.5, 40.0])},
                      "stamp": r.choice([None, None, 1.2e9, 1.69e9 + r.uniform(0, 1e7)])})
        return {"setup": s, "variants": v}

    def run(self, sc):
        outs, tr, f = [], [], {}
        n = 0
        for v, w in zip(sc["variants"], (self.w, self.w2)):
            given, target = v["output"]
            if not given.startswith(("@", "~")):  # relative to the working directory
                target = os.path.normpath(os.path.join(v["cwd"], given))
                target = os.path.splitext(target)[0] + ".csv"
            s = dict(sc["setup"], output=given, target=target, cwd=v["cwd"], old=v["old"])
            s = copy.deepcopy(s)
            for m in s["cfg"]["masses"] + [s["cfg"]["observers"]]:
                if m["file_path"]:
                    m["file_path"] = "@W/" + m["file_path"].removeprefix("@W/").removeprefix("../")
            self.machine(s, w)
            if v["left"]:
                self.leftovers(w, s)
            if v["stamp"]:  # when the files were written
                for i, q in enumerate(sorted(s["files"], reverse=bool(int(v["stamp"]) % 2))):
                    setups.stamp(w.p(q), v["stamp"] + i)
            sp = setups.spec(w, s, os=v["os"], random=v["random"], faults=v["faults"], env=v["env"], hashseed=v["hashseed"], host=v["host"])
            res = (rt.cli_fresh if v["fresh"] else rt.cli)(w, sp)
            e = self.right(w, s, res, "run on machine " + str(len(outs)))
            outs.append(w.read(s["target"]))
            tr.append(trace_of(res))
            add(f, fired_of(res))
            n += v["fresh"]
            t = [rt.norm(w, repr(o)) for o in res.log]
        if outs[0] != outs[1]:
            raise Violation("differs", f"the outputs of the two machines differ: {first_difference(*outs)}", t)
        return {"sig": sig(tr), "digest": sig(outs), "nontrivial": True, "fired": f, "worst": e.worst,
                "count": {"runs": 2, "runs in a new interpreter with another hash seed": int(n)}, "sim": 2 * simulated(res)}

    def leftovers(self, w, s):
        for p in ("tmp/scipy-xxxx", "tmp/geec.lock", "work/config_template.yaml", "home/.config/geec/old.yaml", "out/.res.csv.tmp", "out/res.csv.tmp", "out/.res.csv.0.tmp",
                  "log/geec_2023-11-14_22-13-20_000021.log", "home/.cache/geec/x", "work/geec.csv"):
            setups.stamp(w.write(p, "left by another process\n"))

    def shrink(self, sc):
        for i in range(2):
            v = sc["variants"][i]
            for k, x in (("fresh", False), ("left", False), ("old", None), ("env", {}), ("faults", [])):
                if v[k]:
                    yield dict(sc, variants=[dict(v, **{k: x}) if j == i else y for j, y in enumerate(sc["variants"])])
            o = sc["variants"][1 - i]
            for k in ("os", "random", "output", "cwd"):
                if v[k] != o[k]:
                    yield dict(sc, variants=[dict(v, **{k: o[k]}) if j == i else y for j, y in enumerate(sc["variants"])])
        for s in self.shrink_setup(sc["setup"]):
            yield dict(sc, setup=s)


# ---------------------------------------------------------------- C09
class C09(Command):
    id = "C09"
    runs = {"quick": 900, "thorough": 40000}
    rule = ("2 or 3 commands at the same time on one machine, one file operation at a time in a seeded order (uniform, bursts, priorities), with kills; "
            "non-trivial: the commands were really interleaved; distinct: by the interleaving of the operations")

    def gen(self, r, tier):
        n = r.choice([2, 2, 3])
        same = r.random() < 0.35
        o0 = os_params(r)
        out0 = r.choice(setups.OUTPUTS)
        fresh_dir = r.random() < 0.35
        if fresh_dir and r.random() < 0.5:
            out0 = ("@W/out/new/dir/res.csv", "out/new/dir/res.csv")
        cmds = []
        pids = r.sample(range(300, 30000), n)
        for i in range(n):
            if r.random() < 0.12:
                kind = r.choice(["config", "config", "version", "log"])
            else:
                kind = "run"
            s = setups.gen_setup(r, self.heights, tag=str(i), out=out0 if same else None, max_obs=3)
            s["user"], s["old"] = None, None
            if not same:
                if fresh_dir:  # all of them in a directory that is not there yet
                    s["output"], s["target"] = r.choice([("@W/out/new/dir/res.csv", "out/new/dir/res.csv"), ("@W/out/new/dir/res.csv", "out/new/dir/res.csv"), ("@W/out/new/res", "out/new/res.csv")])
                g, t = s["output"], s["target"]
                s["output"] = g.replace("res", f"res{i}").replace("r\u00e9s", f"r\u00e9s{i}")
                s["target"] = t.replace("res", f"res{i}").replace("r\u00e9s", f"r\u00e9s{i}")
            o = dict(os_params(r, pids[i]))
            if r.random() < 0.6:
                o.update(time=o0["time"], tick=o0["tick"], op=o0["op"])
            cmds.append({"setup": s, "os": o, "kind": kind})
        kill = {}
        if r.random() < 0.35:
            kill = {str(r.randrange(n)): r.randrange(200)}
        return {"cmds": cmds, "same": same, "kill": kill, "order": {"how": r.choice(["uniform", "burst", "burst", "priority", "align"]), "seed": r.getrandbits(40)},
                "old": setups.old_content(r) if same and r.random() < 0.5 else None}

    def argv(self, w, c):
        s = c["setup"]
        if c["kind"] == "config":
            return ["config", "--output", w.p("out/template")]
        if c["kind"] in ("version", "log"):
            return ["--" + c["kind"]]
        return setups.argv(w, s)

    def run(self, sc):
        # alone, on a pristine machine
        want = []
        for c in sc["cmds"]:
            if c["kind"] != "run":
                want.append(None)
                continue
            s = c["setup"]
            w = self.machine(s, self.w2)
            res = rt.cli(w, setups.spec(w, s))
            self.right(w, s, res, "run alone")
            want.append(w.read(s["target"]))
        w = self.w
        w.fresh()
        put_grids(w)
        for c in sc["cmds"]:
            setups.put(w, c["setup"])
        targets = {c["setup"]["target"] for c in sc["cmds"] if c["kind"] == "run"}
        shared = None
        if sc["same"] and len(targets) == 1:
            shared = next(iter(targets))
            if sc.get("old") is not None:
                setups.stamp(w.write(shared, sc["old"]))
        allowed = {None} if sc.get("old") is None else {sc["old"].encode()}
        allowed |= set(want)
        if sc.get("old") is not None:
            allowed.discard(None)
        order = Order(sc["order"], len(sc["cmds"]))
        seen = []

        def choose(ready, count):
            if shared:
                v = w.read(shared)
                if v not in allowed:
                    seen.append(v)
            return order(ready, count)

        specs = [{"argv": self.argv(w, c), "cwd": c["setup"]["cwd"], "os": c["os"], "limit": 2000} for c in sc["cmds"]]
        results, schedule = rt.run_scheduled(w, specs, choose, {int(k): v for k, v in sc["kill"].items()})
        text = [f"process {i} operation {k}" for i, k in ops_of(schedule)][-200:]

        def tell():
            return text + sum(([f"--- process {i}"] + lines(w, r) for i, r in enumerate(results)), [])

        killed = [bool(r.crashed) for r in results]
        if seen:
            raise Violation("instant", f"the shared output file held {show(seen[0])}, none of the complete results", tell(), schedule)
        for i, (c, r) in enumerate(zip(sc["cmds"], results)):
            if killed[i]:
                continue
            if r.code == TOO_LONG:
                raise Violation("endless", f"command {i} does not end", tell(), schedule)
            if r.code:
                raise Violation("failed", f"command {i} ({c['kind']}): exit status {r.code}: {rt.norm(w, r.err.strip()[-300:])}", tell(), schedule)
            if c["kind"] == "run" and not shared:
                got = w.read(c["setup"]["target"])
                if got != want[i]:
                    raise Violation("wrong", f"output of command {i} is not what it writes alone: {first_difference(want[i], got)}", tell(), schedule)
            if c["kind"] == "config" and not any(killed):
                with open(setups.TEMPLATE, "rb") as h:
                    if w.read("out/template.yaml") != h.read():
                        raise Violation("template", "wrong configuration template", tell(), schedule)
        if shared:
            got = w.read(shared)
            finished = [x for x, k, c in zip(want, killed, sc["cmds"]) if c["kind"] == "run" and not k]
            if got not in allowed or (finished and got not in set(x for x in want if x is not None)):
                raise Violation("mixed", f"the shared output file ends up with {show(got)}, not the complete results of one of the commands", tell(), schedule)
        for i, c in enumerate(sc["cmds"]):  # a killed one leaves nothing or everything
            if killed[i] and c["kind"] == "run" and not shared:
                got = w.read(c["setup"]["target"])
                if got not in (None, want[i]):
                    raise Violation("torn", f"the output of the killed command {i} is {show(got)}", tell(), schedule)
        switches = sum(1 for a, b in zip(schedule, schedule[1:]) if a != b)
        f = {"kill": sum(killed)} if any(killed) else {}
        f["switches between commands"] = switches
        return {"sig": sig([schedule, [trace_of(r) for r in results]]), "digest": sig([schedule, [r.code for r in results]]), "nontrivial": switches > len(results),
                "fired": f, "count": {"runs": len(results), "operations scheduled": len(schedule), "same output": int(bool(shared))},
                "sim": sum(map(simulated, results)), "schedule": schedule}

    def concrete(self, sc, out):
        return dict(sc, order={"how": "list", "list": out["schedule"]})

    def shrink(self, sc):
        n = len(sc["cmds"])
        if sc["kill"]:
            yield dict(sc, kill={})
        if n > 2:
            for i in range(n):
                kill = {str(int(k) - (int(k) > i)): v for k, v in sc["kill"].items() if int(k) != i}
                yield dict(sc, cmds=sc["cmds"][:i] + sc["cmds"][i + 1 :], kill=kill)
        if sc["order"]["how"] != "sequential":
            yield dict(sc, order={"how": "sequential"})
        for k in (2, 4, 8, 16, 32):
            yield dict(sc, order={"how": "chunks", "size": k})
        for i, c in enumerate(sc["cmds"]):
            for s in self.shrink_setup(c["setup"]):
                if s["output"] == c["setup"]["output"]:
                    yield dict(sc, cmds=sc["cmds"][:i] + [dict(c, setup=s)] + sc["cmds"][i + 1 :])


def ops_of(schedule):
    n = {}
    for i in schedule:
        j = i if i >= 0 else -1 - i
        n[j] = n.get(j, 0) + 1
        yield (j, n[j]) if i >= 0 else (j, f"{n[j]}: killed")


class Order:
    """who is next"""

    def __init__(self, o, n):
        self.o, self.n = o, n
        self.r = random.Random(o.get("seed", 0))
        self.cur, self.left = None, 0
        self.i = 0
        if o["how"] == "priority":
            self.pr = list(range(n))
            self.r.shuffle(self.pr)
            self.change = sorted(self.r.randrange(400) for _ in range(8))
            self.steps = 0

    def __call__(self, ready, count):
        how = self.o["how"]
        if how == "uniform":
            return self.r.choice(ready)
        if how == "burst":
            if self.cur not in ready or self.left <= 0:
                self.cur, self.left = self.r.choice(ready), self.r.choice([1, 1, 2, 3, 5, 10, 30])
            self.left -= 1
            return self.cur
        if how == "priority":
            self.steps += 1
            if self.change and self.steps >= self.change[0]:
                self.change.pop(0)
                k = self.r.randrange(self.n)
                self.pr[k] = min(self.pr) - 1
            return max(ready, key=lambda i: self.pr[i])
        if how == "align":  # all at the same place
            return min(ready, key=lambda i: (count[i], i))
        if how == "sequential":
            return ready[0]
        if how == "chunks":
            if self.cur not in ready or self.left <= 0:
                nxt = [i for i in ready if self.cur is not None and i > self.cur]
                self.cur, self.left = (nxt or ready)[0], self.o["size"]
            self.left -= 1
            return self.cur
        L = self.o["list"]
        while self.i < len(L):
            j = L[self.i]
            self.i += 1
            j = j if j >= 0 else -1 - j
            if j in ready:
                return j
        return ready[0]


# ---------------------------------------------------------------- C11
class C11(Command):
    id = "C11"
    runs = {"quick": 3500, "thorough": 90000}
    rule = ("seeded setups and commands on machines on which a subset of the geoid grids is missing, cut short or corrupt, or fails when read; "
            "non-trivial: at least one grid is damaged or fails; distinct: by damage, need and sequence of operations")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights, geo=r.random() < 0.85)
        dmg = []
        for v in model.GRIDFILE:
            if r.random() < 0.5:
                dmg.append([v, r.choice(DAMAGES)])
        faults = []
        if r.random() < 0.4:
            faults = [{"op": r.choice(["open", "read"]), "cls": "grid", "nth": r.choice([0, 0, 0, 1, 2]), "do": r.choice(["err", "sticky"]), "arg": r.choice(["EIO", "EACCES", "EMFILE"])}]
        return {"setup": s, "damage": dmg, "faults": faults, "os": os_params(r), "kind": r.choice(["run"] * 8 + ["version", "config", "log", "help"])}

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        for v, how in sc["damage"]:
            damage(w, v, how)
        bad = {v for v, _ in sc["damage"]}
        f = {f"grid {how}": 1 for _, how in sc["damage"]}
        a = {"version": ["--version"], "log": ["--log"], "help": ["--help"], "config": ["config", "--output", w.p("out/t.yaml")], "run": setups.argv(w, s)}[sc["kind"]]
        fresh = bool(sc.get("fresh"))
        res = (rt.cli_fresh if fresh else rt.cli)(w, {"argv": a, "cwd": s["cwd"], "faults": sc["faults"], "os": sc["os"]})
        hit = fired_of(res)
        add(f, hit)
        need = set()
        used = {}
        def grid(v, P):
            need.add(v)
            used[v] = 1
            return self.heights(v, P)

        if sc["kind"] != "run":
            if res.code:
                raise Violation("failed", f"{sc['kind']}: exit status {res.code}: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
            if sc["kind"] == "config" and not w.read("out/t.yaml"):
                raise Violation("failed", "config: no template written", lines(w, res))
            need_bad = False
        else:
            e = setups.expected(w, s, self.heights, grid)
            need_bad = bool(need & bad) or (bool(need) and bool(hit))
            wrong = e.check(w.read(s["target"])) if res.code == 0 else None
            if res.code == 0 and wrong:
                raise Violation("wrong", f"exit status 0 with damaged grids {sorted(bad)} (needed: {sorted(need)}), but {wrong}", lines(w, res))
            if res.code and not need_bad:
                raise Violation("failed", f"exit status {res.code} though only grids that are not needed are damaged ({sorted(bad)}, needed: {sorted(need)}): "
                                f"{rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
        return {"sig": sig([trace_of(res), sc["damage"], sorted(need)]), "digest": sig([res.code, w.read(s["target"])]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, "needing a damaged grid": int(need_bad), "of these refused": int(need_bad and res.code != 0), "needing none of the damaged": int(not need_bad)},
                "sim": simulated(res)}


# ---------------------------------------------------------------- C12
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list) and path and path[-1] == "masses":
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def build(paths, n):
    """a layer from (path, value), with n masses (a layer that gives any gives them all)"""
    d = {}
    for path, v in paths:
        cur = d
        for i, k in enumerate(path[:-1]):
            nxt = path[i + 1]
            if isinstance(k, int):
                cur = cur[k]
            elif isinstance(nxt, int):
                cur = cur.setdefault(k, [{} for _ in range(n)])
            else:
                cur = cur.setdefault(k, {})
        cur[path[-1]] = v
    return d


INVALID = [(("crs", "ref"), ["foo", "cartesian", 3, "ell"]), (("crs", "name"), ["wgs99", "earth", 84]), (("crs", "vdatum"), ["egm99", "geoid", "navd88", 96]),
           (("density",), ["heavy", None, [1]]), (("gravity_constant",), ["big", None]), (("crs", "longitude_origin"), ["west", None]),
           (("crs", "latitude_origin"), [None, [1]]), (("crs", "altitude_origin"), [None, "high"])]


def decoy(r, path, v):
    k = path[-1]
    if k == "density":
        return r.choice([1.0, 123.0, 9999.0])
    if k == "gravity_constant":
        return r.choice([1.0, 2e-11])
    if k == "ref":
        return r.choice(["cart", "ellps", "enu", "nonsense"])
    if k == "name":
        return r.choice(["airy", "wgs84", "bessel", "nonsense"])
    if k == "vdatum":
        return r.choice(["egm84", "egm96", "ellps", "nonsense"])
    if k == "points":
        return r.choice([[[1.0, 2.0, 3.0], [4.0, 5.0, 7.0], [0.0, 0.0, 1.0], [8.0, 0.0, 3.0]], None, []])
    if k == "file_path":
        return r.choice(["@W/in/nothere.csv", None])
    if k in ("semimajor_axis", "semiminor_axis"):
        return r.choice([6378000.0, None])
    if k.endswith("_origin"):
        return r.choice([1.0, 50, None])
    if k.endswith("step"):
        return [0.0, 2.0, 1.0]
    return v


class C12(Command):
    id = "C12"
    runs = {"quick": 2600, "thorough": 110000}
    rule = ("seeded configurations whose parameters are spread over the layers (command line, user, default), with other values in lower layers, and layers "
            "that are missing, unreadable, torn or hold invalid values; compared with a model of the layers; non-trivial: more than one layer gives "
            "parameters, or one is damaged; distinct: by the assignment of parameters, damage and outcome")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights)
        s["user"] = None
        n = len(s["cfg"]["masses"])
        L = list(leaves(s["cfg"]))
        mode = r.choice(["spread", "spread", "arg", "user", "partial"])
        default = setups.default_layer()
        top, low = [], []
        for path, v in L:
            d = model.Layers([default]).get(*path)
            if d is not model.MISSING and d == v and type(d) is type(v) and r.random() < 0.5 and mode == "partial":
                continue  # left to the default
            x = {"spread": r.random() < 0.6, "partial": r.random() < 0.6, "arg": True, "user": False}[mode]
            if x:
                top.append((path, v))
                if r.random() < 0.4:
                    low.append((path, decoy(r, path, v)))
            else:
                low.append((path, v))
        # the layer on top tells how many masses there are
        up = top if top else low
        if up and not any(p[0] == "masses" for p, _ in up) and any(p[0] == "masses" for p, _ in L) and r.random() < 0.5:
            pass
        nlow = n + (r.choice([0, 0, 1]) if any(p[0] == "masses" for p, _ in top) else 0)
        s["cfg"] = build(top, n) if mode != "user" else None
        s["user"] = build(low, nlow) if low or mode == "user" else None
        sc = {"setup": s, "faults": [], "os": os_params(r), "harm": None, "mode": mode}
        k = r.random()
        if k < 0.25:  # an invalid value, somewhere
            layer = r.choice([x for x in ("cfg", "user") if s[x]] or ["cfg"])
            if s[layer]:
                what, vals = r.choice(INVALID)
                where = r.choice([("observers",)] + [("masses", i) for i in range(n)]) if what[0] == "crs" and what[1] != "vdatum" else ("masses", r.randrange(n))
                d = s[layer]
                try:
                    for q in where + what[:-1]:
                        d = d[q] if isinstance(q, int) else d.setdefault(q, [{} for _ in range(n)] if q == "masses" else {})
                    d[what[-1]] = r.choice(vals)
                    sc["harm"] = "value"
                except (IndexError, TypeError, AttributeError):
                    pass
        elif k < 0.5:
            layer = r.choice([x for x in ("cfg", "user") if s[x]] or ["cfg"])
            if s[layer]:
                how = r.choice(["missing", "missing", "torn", "torn", "open", "read", "directory", "list", "binary"])
                if layer == "user" and how == "missing":
                    how = "torn"
                sc["harm"] = [layer, how]
                sc["tear_seed"] = r.getrandbits(32)
                cls = "config" if layer == "cfg" else "home"
                if how == "open":
                    sc["faults"] = [{"op": "open", "cls": cls, "nth": 0, "do": r.choice(["err", "sticky"]), "arg": r.choice(["EACCES", "EIO", "EMFILE", "EPERM"])}]
                if how == "read":
                    sc["faults"] = [{"op": "read", "cls": cls, "nth": r.choice([0, 0, 1]), "do": r.choice(["err", "sticky"]), "arg": "EIO"}]
        elif k < 0.65:
            sc["faults"] = [transparent(r)]
        return sc

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        d = sc["harm"]
        valid_layers = True
        if isinstance(d, list):
            layer, how = d
            path = s["cfgname"] if layer == "cfg" else "home/.config/geec/config.yaml"
            text = (w.read(path) or b"").decode()
            rr = random.Random(sc["tear_seed"])
            if how == "missing":
                s = dict(s, nocfg=True, cfg=None)
                if os.path.exists(w.p(path)):
                    os.unlink(w.p(path))
            elif how == "directory":
                os.unlink(w.p(path))
                os.mkdir(w.p(path))
                valid_layers = False
                s = dict(s, nocfg=True) if layer == "cfg" else s
            elif how == "torn":
                t = tear_yaml(rr, text.replace(w.root, "@W")).replace("@W", w.root)
                setups.stamp(w.write(path, t))
            elif how == "list":
                setups.stamp(w.write(path, "- " + text.replace("\n", "\n  ")))
            elif how == "binary":
                setups.stamp(w.write(path, bytes(rr.randrange(256) for _ in range(200))))
        old = w.read(s["target"])
        res = rt.cli(w, setups.spec(w, s, faults=sc["faults"], os=sc["os"]))
        f = fired_of(res)
        got = w.read(s["target"])
        why = ""
        verdict, e, in_log = "valid", None, 0
        if not valid_layers and d[0] == "cfg":
            verdict, why = "invalid", "the configuration file is a directory"
        elif not valid_layers:
            verdict, why = "unsure", "the user's configuration file is a directory"
        else:
            try:
                e = setups.expected(w, s, self.heights)
            except model.Invalid as x:
                verdict, why = "invalid", str(x)
            except model.Unsure as x:
                verdict, why = "unsure", str(x)
        if d:
            k = "invalid value" if d == "value" else f"{d[0]} layer {d[1]}"
            f[f"{k}: {verdict}"] = 1
        hardly = [k for k in f if k.startswith(("err", "sticky")) and "EINTR" not in k]
        if verdict == "valid":
            if res.code == 0:
                bad = e.check(got)
                if bad:
                    raise Violation("layer", f"exit status 0, but {bad}", lines(w, res))
                log = shown(w)
                bad = log and not_shown(log, setups.layers(w, s))
                if bad:
                    raise Violation("log", f"the log of the run shows {bad}", lines(w, res))
                in_log = sum(map(len, (log or {}).values()))
            elif not hardly:
                raise Violation("failed", f"exit status {res.code} though the configuration is right: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
            if hardly and res.code == 0:
                f["overcome"] = 1
        elif verdict == "invalid":
            if res.code == 0:
                raise Violation("accepted", f"exit status 0, but must be refused: {why}", lines(w, res))
            if got != old:
                raise Violation("output", f"refused ({why}), but the output file has changed", lines(w, res))
        two = bool(s.get("cfg")) + bool(s.get("user")) > 1
        return {"sig": sig([trace_of(res), verdict, sorted(map(str, (p for p, _ in leaves(sc["setup"]["cfg"] or {}))))]), "digest": sig([res.code, got]),
                "nontrivial": bool(f) or two or sc["mode"] in ("user", "partial"), "fired": f,
                "count": {"runs": 1, verdict: 1, "several layers": int(two), "exit 0": int(res.code == 0), "parameters compared with the log": in_log}, "sim": simulated(res)}

    def shrink(self, sc):
        for k in ("cfg", "user"):
            c = sc["setup"][k]
            if isinstance(c, dict):
                L = list(leaves(c))
                n = len(c.get("masses", []))
                step = max(1, len(L) // 4)
                while step >= 1:
                    for i in range(0, len(L), step):
                        if len(L) > step:
                            yield dict(sc, setup=dict(sc["setup"], **{k: build(L[:i] + L[i + step :], n)}))
                    step //= 2
        if sc["harm"] and sc["harm"] != "value":
            yield dict(sc, harm=None)
        yield from super().shrink(sc)


# ---------------------------------------------------------------- C14
class C14(Command):
    id = "C14"
    runs = {"quick": 2800, "thorough": 90000}
    rule = ("seeded setups run while the log directory cannot be created or written, or log files fail when opened, written or closed; non-trivial: a "
            "failure happened; distinct: by failure and sequence of operations")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights)
        m = r.random()
        sc = {"setup": s, "os": os_params(r), "faults": [], "place": None}
        errs = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS"]
        if m < 0.15:
            sc["place"] = r.choice(["file", "dangling", "taken", "symlink"])
        elif m < 0.25:
            sc["faults"] = [{"op": "mkdir", "cls": "log", "nth": r.choice([0, 0, 1]), "do": r.choice(["err", "sticky"]), "arg": r.choice(errs)}]
        elif m < 0.4:
            sc["faults"] = [{"op": "open", "cls": "log", "nth": 0, "do": r.choice(["err", "sticky"]), "arg": r.choice(errs + ["EMFILE"])}]
        else:
            nth = r.choice([0, 0, 1, 2, 10, r.randrange(60), r.randrange(60)])
            k = r.random()
            if k < 0.45:
                sc["faults"] = [{"op": "write", "cls": "log", "nth": nth, "do": r.choice(["err", "sticky"]), "arg": r.choice(["ENOSPC", "EIO", "EDQUOT"])}]
            elif k < 0.75:
                sc["faults"] = [{"op": "write", "cls": "log", "nth": nth, "do": "short", "arg": r.choice([1, 5, 30])},
                                {"op": "write", "cls": "log", "nth": nth, "do": "sticky", "arg": "ENOSPC"}]
            elif k < 0.85:
                sc["faults"] = [{"op": "close", "cls": "log", "nth": 0, "do": "err", "arg": r.choice(["EIO", "ENOSPC"])}]
            else:
                sc["faults"] = [{"op": "write", "cls": "log", "nth": r.randrange(60), "do": "err", "arg": r.choice(["ENOSPC", "EIO"])} for _ in range(r.choice([2, 4]))]
        if r.random() < 0.15:
            sc["faults"].append(transparent(r))
        return sc

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        p = sc["place"]
        f = {}
        if p == "file":
            w.write("log", "not a directory\n")
        elif p == "dangling":
            os.symlink(w.p("nowhere"), w.p("log"))
        elif p == "symlink":
            os.mkdir(w.p("elsewhere"))
            os.symlink(w.p("elsewhere"), w.p("log"))
        elif p == "taken":
            os.mkdir(w.p("log"))
            w.write("log/geec_2023-11-14_22-13-20_000021.log", "older\n")
        if p:
            f["log directory: " + p] = 1
        old = w.read(s["target"])
        res = rt.cli(w, setups.spec(w, s, faults=sc["faults"], os=sc["os"]))
        h = fired_of(res)
        add(f, h)
        got = w.read(s["target"])
        barred = p in ("file", "dangling") or any(o.fault in ("err", "sticky") and o.op in ("mkdir", "open") and o.err != errno.EINTR for o in res.log if o.cls == "log")
        if res.code == 0:
            e = self.right(w, s, res)
        else:
            if not barred:
                raise Violation("stopped", f"a failing log stopped the run: exit status {res.code}: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
            if got != old:
                raise Violation("output", f"exit status {res.code}, but the output file has changed ({show(old)}, now {show(got)})", lines(w, res))
        return {"sig": sig(trace_of(res) + [p]), "digest": sig([res.code, got]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, "exit 0": int(res.code == 0), "refused to run without a log": int(res.code != 0)}, "sim": simulated(res)}


# ---------------------------------------------------------------- C15
class C15(Command):
    id = "C15"
    runs = {"quick": 2200, "thorough": 100000}
    rule = ("seeded commands on machines with files of all kinds, disturbed by faults, crashes, interruptions and memory failures; every file and directory "
            "of the machine is compared before and after, and every attempt to change one outside of it is recorded and refused; non-trivial: a fault "
            "happened; distinct: by the sequence of operations and faults")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights, links=0.06)
        kind = r.choice(["run"] * 8 + ["config", "config", "version", "log", "badcfg", "usage"])
        sc = {"setup": s, "os": os_params(r), "faults": [], "stop": None, "kind": kind, "fresh": r.random() < 0.01}
        if kind == "config":
            s.pop("link", None)
        if r.random() < 0.25:  # many runs before this one
            sc["logs"] = [r.choice([12, 35, 120]), r.choice([0, 1, 20, 400])]
        if s["old"] is not None:
            s["mode"] = r.choice([None, None, 0o600, 0o640])
        if kind == "config":
            s["output"], s["target"] = r.choice([("@W/out/t.yaml", "out/t.yaml"), ("@W/out/t", "out/t.yaml"), ("", "work/config_template.yaml")])
        k = r.random()
        if k < 0.45:
            sc["stop"] = stop(r)
        elif k < 0.85:
            sc["faults"] = hard(r)
        if any(f.get("cls") == "tmp" for f in sc["faults"]):
            sc["fresh"] = False  # Python, searching a directory for temporary files, tries the current one
        if sc["fresh"]:
            sc["stop"] = None
        return sc

    def argv(self, w, sc):
        s = sc["setup"]
        k = sc["kind"]
        if k in ("version", "log"):
            return ["--" + k]
        if k == "badcfg":
            return ["run", setups.subst(w, s["output"]), "--config", w.p("cfg/nothere.yaml")]
        if k == "usage":
            return ["run"]
        if k == "config":
            return ["config"] + (["--output", setups.subst(w, s["output"])] if s["output"] else [])
        return setups.argv(w, s)

    OTHERS = ("out/other.csv", "out/.other.csv.0123456789abcdef.tmp", "out/res.csv.bak", "out/res.txt", "home/notes.txt", "home/.config/other/config.yaml", "home/.config/geec/other.yaml",
              "cfg/other.yaml", "in/other.csv", "work/other.csv", "log/geec_2019-01-01_00-00-00_000000.log", "tmp/other.tmp", "work/.res.csv.tmp")

    def place(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        for p in self.OTHERS:
            if p != s["target"]:
                setups.stamp(w.write(p, "of somebody else\n"), 1500000000)
        n, days = sc.get("logs") or (0, 0)
        for i in range(n):  # each run has left its log
            t = int(sc["os"].get("time", 1.7e9)) - days * 86400 - 3607 * (n - i)
            name = time.strftime("geec_%Y-%m-%d_%H-%M-%S_000000.log", time.gmtime(t))
            setups.stamp(w.write("log/" + name, f"{time.strftime('%F %T', time.gmtime(t))} | INFO | of an earlier run\n" * 50), t)
        return w

    def run(self, sc):
        s = sc["setup"]
        st = sc.get("stop")
        how = {}
        w = self.place(sc)
        a = self.argv(w, sc)
        if st:
            d = rt.cli(w, {"argv": a, "cwd": s["cwd"]})
            if st["how"] in ("interrupt", "memory"):
                self.place(sc)
                d.counts = rt.cli(w, {"argv": a, "cwd": s["cwd"], "interrupt": instants(st)}).events
            how = resolve(st, d)
            self.place(sc)
        before = w.snapshot()
        sp = {"argv": a, "cwd": s["cwd"], "os": sc["os"], "faults": sc["faults"] + how.get("faults", [])}
        if "interrupt" in how:
            sp["interrupt"] = how["interrupt"]
        res = (rt.cli_fresh if sc.get("fresh") else rt.cli)(w, sp)
        after = w.snapshot()
        f = fired_of(res, how.get("interrupt"))
        killed = bool(res.crashed) or res.code < 0
        target = (s.get("link") or s["target"]) if sc["kind"] in ("run", "config", "badcfg") else None
        parents = set()
        if target and sc["kind"] != "config":
            p = os.path.dirname(target)
            while p:
                parents.add(p + "/")
                p = os.path.dirname(p)
        logs = [k for k in after if k not in before and k.startswith("log/") and not k.endswith("/")]
        # an error may keep a command from removing its own temporary file
        stuck = any(o.op == "unlink" and o.err for o in res.log)
        # one may come in the instant between the creation of the file and the program's knowing of it
        interrupted = res.where or any(o.fault == "sigint" for o in res.log)
        for k in sorted(set(before) | set(after)):
            x, y = before.get(k), after.get(k)
            if x == y:
                continue
            if k == target and y is not None and y[0] == "file":
                if x is not None and x[1] != y[1]:
                    raise Violation("mode", f"the permissions of the output file have changed from {x[1]:o} to {y[1]:o}", lines(w, res))
                continue
            if x is None and y[0] == "dir" and (k in parents or k in ("log/", "home/.config/", "home/.config/geec/")):
                continue
            if x is None and k in logs and len(logs) == 1:
                continue
            if x is None and (killed or stuck) and target and (os.path.dirname(k) == os.path.dirname(target) or k.startswith("tmp/")):
                f["temporary file left by a killed command"] = 1
                continue
            if x is None and f and k.startswith("tmp/scipy-"):  # scipy, stopped in the middle, does not clean up
                f["temporary file left by scipy"] = 1
                continue
            if x is None and interrupted and target and y[0] == "file" and not y[2] and os.path.dirname(k) == os.path.dirname(target):
                f["empty temporary file, interrupted when created"] = 1
                continue
            what = "left behind" if x is None else "removed" if y is None else "changed"
            raise Violation("effect", f"{k} was {what} (exit status {res.code})", lines(w, res))
        out = [o for o in res.log if o.cls == "outside" and "__pycache__" not in o.path]
        if out:
            raise Violation("outside", f"tried to change {out[0].path} ({out[0].op})", lines(w, res))
        return {"sig": sig(trace_of(res) + [sc["kind"]]), "digest": sig([res.code, sorted(map(repr, after))]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, "exit 0": int(res.code == 0), "killed": int(killed), "failed by themselves": int(res.code != 0 and not killed),
                          "files compared": len(before)}, "sim": simulated(res)}


# ---------------------------------------------------------------- C16
class C16(Command):
    id = "C16"
    runs = {"quick": 2800, "thorough": 90000}
    rule = ("seeded setups (a few with a missing file, which must be refused) and creations of a configuration template, run while what they show cannot "
            "be shown: standard output or error fail when written (reader gone, terminal gone, full disk, would block), take only a part, or are closed from the "
            "start; non-trivial: a failure happened; distinct: by failure and sequence of operations")

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights)
        if r.random() < 0.3 and s["old"] is None:
            s["old"] = setups.old_content(r)
        sc = {"setup": s, "os": os_params(r), "faults": [], "closed": [], "command": "run", "missing": r.random() < 0.1}
        if r.random() < 0.1:
            sc["command"] = "config"
            s["output"], s["target"] = r.choice([("@W/out/t.yaml", "out/t.yaml"), ("@W/out/t", "out/t.yaml"), ("", "work/config_template.yaml")])
        m = r.random()
        if m < 0.3:
            sc["closed"] = r.choice([[0], [1], [2], [1, 2], [0, 1, 2], [0, 1], [0, 2]])
        if m > 0.25:
            nth = r.choice([0, 0, 0, 0, 1, 1, 2, 3])
            sc["faults"] = [{"op": "write", "cls": "term", "nth": nth, "do": r.choice(["err", "sticky", "sticky"]), "arg": r.choice(["EPIPE", "EPIPE", "EIO", "ENOSPC", "EAGAIN"])}]
            if r.random() < 0.3:
                sc["faults"].insert(0, {"op": "write", "cls": "term", "nth": nth, "do": "short", "arg": r.choice([1, 5, 30])})
            if r.random() < 0.1:
                sc["faults"] = [{"op": "write", "cls": "term", "nth": nth, "do": "err", "arg": "EINTR"}]
        if r.random() < 0.15:
            sc["faults"].append(transparent(r))
        return sc

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        old = w.read(s["target"])
        sp = setups.spec(w, s, faults=sc["faults"], os=sc["os"], term=True, closed=sc["closed"])
        missing = sc["missing"] and sc["command"] == "run"
        if sc["command"] == "config":
            sp["argv"] = ["config"] + (["--output", setups.subst(w, s["output"])] if s["output"] else [])
        elif missing:
            sp["argv"] = [x for x in sp["argv"]]
            i = sp["argv"].index("--config") if "--config" in sp["argv"] else None
            if i is None:
                missing = False
            else:
                sp["argv"][i + 1] = w.p("cfg/nothing.yaml")
        res = rt.cli(w, sp)
        f = fired_of(res)
        for fd in sc["closed"]:
            f["closed standard " + ("input", "output", "error")[fd]] = 1
        got = w.read(s["target"])
        if missing:
            if res.code == 0 or got != old:
                raise Violation("accepted", f"no configuration file, but exit status {res.code}, the output file {'is as before' if got == old else 'has changed'}", lines(w, res))
        else:
            if res.code not in (0, 120):  # (120: the interpreter tells that a message was lost)
                raise Violation("stopped", f"messages that cannot be shown stopped the command: exit status {res.code}: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
            res.code = 0
            if sc["command"] == "run":
                self.right(w, s, res)
            else:
                with open(setups.TEMPLATE, "rb") as h:
                    if got is None or model.parse_yaml(got) != model.parse_yaml(h.read()):
                        raise Violation("template", "the template created is not the one of the package", lines(w, res))
        return {"sig": sig(trace_of(res) + [sc["closed"]]), "digest": sig([res.code, got]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, "refused as they must be": int(missing), "of the config command": int(sc["command"] == "config")}, "sim": simulated(res)}


# ---------------------------------------------------------------- C18
def other_points(r, text, body):
    """another version of a coordinate file"""
    P = [[float(x) for x in l.split(",")] for l in text.replace("\r", "").split("\n") if l.strip()]
    if body:
        c = np.mean(P, axis=0)
        k = r.choice([0.5, 0.8, 0.9])
        Q = [[float(v) for v in c + k * (np.array(p) - c)] for p in P]
        if r.random() < 0.5:
            Q = Q + Q[: r.choice([1, 2, 3])]
        return setups.csv(Q, r.choice(["plain", "sci"]))
    Q = P[::-1]
    if r.random() < 0.6:
        Q = Q + [Q[0]] * r.choice([1, 2, 5])
    elif len(Q) > 1:
        Q = Q[1:]
    return setups.csv(Q)


class C18(Command):
    id = "C18"
    runs = {"quick": 1200, "thorough": 80000}
    rule = ("seeded setups whose configuration and coordinate files another program replaces by other valid versions (or removes), by a rename at chosen file "
            "operations of the run; the results must be those of one version of the configuration and of each file; non-trivial: a file was "
            "replaced during the run; distinct: by the sequence of operations and replacements")

    def gen(self, r, tier):
        for _ in range(200):
            s = setups.gen_setup(r, self.heights, files_p=r.choice([0.6, 1]), nmass=r.choice([1, 1, 2]), max_obs=4)
            s["user"] = None
            new = {}
            for f in sorted(s["files"]):
                if f != "in/spare.csv":
                    new[f] = other_points(r, s["files"][f], "mass" in f)
            c = copy.deepcopy(s["cfg"])
            for m in c["masses"]:
                m["density"] = gen.density(r)
                m["gravity_constant"] = gen.constant(r)
            p = c["observers"]["points"]
            if p:
                c["observers"]["points"] = p[::-1] + p[: r.choice([0, 1])]
            if r.random() < 0.3:  # a body less
                c["masses"] = c["masses"][:1]
            sc = {"setup": s, "new": new, "cfg": c, "os": os_params(r), "faults": [transparent(r)] if r.random() < 0.2 else [], "swaps": []}
            names = sorted(new) + [s["cfgname"]]
            for _ in range(r.choice([1, 1, 2, 3])):
                f = r.choice(names)
                sc["swaps"].append({"file": f, "at": r.choice(["any", "open", "open", "file", "file"]), "frac": round(r.random(), 3), "gone": r.random() < 0.08})
            try:
                for e in self.versions(sc, None):
                    pass
            except (model.Invalid, model.Unsure):
                continue
            return sc
        raise rt.HarnessError("no setup")

    def shrink(self, sc):
        for i in range(len(sc["swaps"])):
            if len(sc["swaps"]) > 1:
                yield dict(sc, swaps=sc["swaps"][:i] + sc["swaps"][i + 1:])
        if sc["faults"]:
            yield dict(sc, faults=[])

    def versions(self, sc, changed):
        """what the run may write: the results of every combination of versions (changed: the files that were replaced; None: all)"""
        s = sc["setup"]

        def expect(cfg, bits):
            n = [0]

            def files(p):
                q = os.path.normpath(os.path.join("/w/" + s["cwd"], p.replace("@W", "/w")))[3:]
                bit = bits >> n[0] & 1
                n[0] += 1
                if q not in s["files"]:
                    return None
                t = s["files"][q]
                if bit:
                    if q not in sc["new"] or (changed is not None and q not in changed):
                        raise KeyError(q)
                    t = sc["new"][q]
                return t.encode()

            layers = [model.parse_yaml(setups.yaml.safe_dump(cfg)), setups.default_layer()]
            e = model.Expected(layers, files, self.heights, s["gradient"])
            e.layers = layers
            return e, n[0]

        for cfg in [s["cfg"]] + ([sc["cfg"]] if changed is None or s["cfgname"] in changed else []):
            e, n = expect(cfg, 0)
            yield e
            for bits in range(1, 1 << n):
                try:
                    yield expect(cfg, bits)[0]
                except KeyError:
                    pass

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        d = self.dry(w, s)
        self.right(w, s, d, "undisturbed run")
        w = self.machine(s)
        swaps, faults = [], []
        for i, x in enumerate(sc["swaps"]):
            t = sc["new"].get(x["file"])
            stage = w.write(f"stage/{i}", setups.dump(w, sc["cfg"]) if t is None else t)
            setups.stamp(stage, setups.STAMP if i % 2 else setups.STAMP + 5)
            swaps.append(["" if x["gone"] else stage, w.p(x["file"])])
            ops = [o for o in d.log if o.cls != "outside" and (x["at"] == "any" or o.cls in ("input", "config")) and (x["at"] != "open" or o.op == "open")
                   and (x["at"] != "file" or o.path == w.p(x["file"]))]
            ops = ops or [o for o in d.log if o.cls != "outside"]
            if ops:
                o = ops[min(int(x["frac"] * len(ops)), len(ops) - 1)]
                faults.append({"op": "any", "cls": "any", "nth": sum(1 for y in d.log if y.cls != "outside" and y.idx < o.idx), "do": "swap", "arg": i})
        old = w.read(s["target"])
        res = rt.cli(w, setups.spec(w, s, faults=faults + sc["faults"], os=sc["os"], swaps=swaps))
        f = fired_of(res)
        changed = {x["file"] for i, x in enumerate(sc["swaps"]) if not os.path.exists(w.p(f"stage/{i}"))}
        gone = [x["file"] for x in sc["swaps"] if x["gone"]]
        got = w.read(s["target"])
        if res.code != 0:
            if not gone:
                raise Violation("failed", f"exit status {res.code}: {rt.norm(w, res.err.strip()[-300:])}", lines(w, res))
            if got != old:
                raise Violation("output", f"exit status {res.code}, but the output file has changed", lines(w, res))
        else:
            bad = said = None
            log = shown(w) or {}
            log.pop("file_path", None)
            for e in self.versions(sc, changed):
                b = e.check(got)
                if not b:
                    said = not_shown(log, e.layers)
                    if not said:
                        break
                bad = bad or b
            else:
                if said:
                    raise Violation("log", f"the log of the run shows another version of the configuration than was used: {said}", lines(w, res))
                raise Violation("mixed", f"the results are not those of one version of each file (of the first versions: {bad})", lines(w, res))
        return {"sig": sig(trace_of(res) + [sorted(changed)]), "digest": sig([got, res.code]), "nontrivial": bool(changed) or any(k.startswith("swap") for k in f), "fired": f,
                "count": {"runs": 2, "files replaced": len(changed), "failed as a file was removed": int(res.code != 0)}, "sim": simulated(res) + simulated(d)}


ALL = [C04, C05, C06, C07, C08, C09, C11, C12, C14, C15, C16, C18]


# ---------------------------------------------------------------- C20
# errors that may come on and on, and that programs like to try again after
LASTING = [("open", "output", ["EAGAIN", "EBUSY", "ESTALE", "EEXIST", "ENOSPC", "EACCES", "EMFILE", "ETXTBSY", "EIO"]), ("write", "output", ["EAGAIN", "ENOSPC", "EIO", "EDQUOT"]),
           ("fsync", "output", ["EIO", "ENOSPC"]), ("rename", "output", ["EBUSY", "EACCES", "EPERM", "EEXIST", "EIO", "ETXTBSY", "EXDEV"]), ("mkdir", "output", ["EAGAIN", "EEXIST", "EACCES"]),
           ("chmod", "output", ["EPERM", "EIO"]), ("unlink", "output", ["EBUSY", "EACCES", "EIO"]), ("open", "log", ["EEXIST", "EACCES", "EMFILE", "EBUSY"]), ("write", "log", ["EAGAIN", "ENOSPC", "EIO"]),
           ("mkdir", "log", ["EEXIST", "EACCES", "EAGAIN"]), ("open", "input", ["EAGAIN", "EBUSY", "ESTALE", "EMFILE", "EIO", "EACCES"]), ("read", "input", ["EAGAIN", "EIO", "ESTALE"]),
           ("open", "config", ["EAGAIN", "EBUSY", "ESTALE", "EMFILE"]), ("read", "config", ["EAGAIN", "EIO"]), ("open", "home", ["EAGAIN", "EACCES", "ESTALE"]), ("mkdir", "home", ["EEXIST", "EACCES"]),
           ("open", "grid", ["EAGAIN", "EMFILE", "ESTALE"]), ("read", "grid", ["EAGAIN", "EIO", "ESTALE"]), ("write", "term", ["EAGAIN", "EPIPE", "EIO"]), ("open", "any", ["EMFILE", "ENFILE"])]


class C20(Command):
    id = "C20"
    runs = {"quick": 1800, "thorough": 100000}
    rule = ("seeded setups and commands, interrupted (once or more, at instants of the code and at file operations) or met by errors that last; an interrupted "
            "command must fail and leave the output as it was unless it was writing it, and all must end within a bound of operations; non-trivial: an "
            "interruption or error happened; distinct: by the sequence of operations, faults and outcome")
    LIMIT = 6000
    NAMES = 300000  # (tempfile of Python tries 238328 names before it gives up)

    def gen(self, r, tier):
        s = setups.gen_setup(r, self.heights, max_obs=r.choice([3, 3, 8]), grids=r.random() < 0.5)
        if s["old"] is None and r.random() < 0.6:
            s["old"] = setups.old_content(r)
        sc = {"setup": s, "os": os_params(r), "faults": [], "stop": None, "command": "run"}
        if r.random() < 0.12:
            sc["command"] = "config"
            s["output"], s["target"] = r.choice([("@W/out/t.yaml", "out/t.yaml"), ("@W/out/t", "out/t.yaml"), ("", "work/config_template.yaml")])
        k = r.random()
        if k < 0.6:
            while (sc["stop"] or {}).get("how") not in ("sigint", "interrupt"):
                sc["stop"] = stop(r)
            if sc["stop"]["how"] == "interrupt" and r.random() < 0.4:
                sc["stop"]["lib"] = True
            if sc["stop"]["how"] == "sigint" and r.random() < 0.3:  # nothing happens, once more
                sc["again"] = r.choice([1, 1, 2, 3, 5])
        else:
            op, cls, errs = r.choice(LASTING)
            sc["faults"] = [{"op": op, "cls": cls, "nth": r.choice([0, 0, 0, 1, 2]), "do": "sticky", "arg": r.choice(errs)}]
        if r.random() < 0.15:
            sc["faults"].append(transparent(r))
        return sc

    argv = C05.argv

    def run(self, sc):
        s = sc["setup"]
        w = self.machine(s)
        a = self.argv(w, sc)
        st = sc.get("stop")
        how = {}
        if st:
            d = self.dry(w, s, argv=a)
            if st["how"] == "interrupt":
                self.machine(s)
                d.counts = rt.cli(w, {"argv": a, "cwd": s["cwd"], "interrupt": instants(st)}).events
            how = resolve(st, d)
            if sc.get("again") and how.get("faults"):
                f = how["faults"][0]
                how["faults"].append(dict(f, nth=f["nth"] + sc["again"]))
            self.machine(s)
        limit = self.NAMES if any(f.get("arg") == "EEXIST" for f in sc["faults"]) else self.LIMIT
        old = w.read(s["target"])
        sp = {"argv": a, "cwd": s["cwd"], "os": sc["os"], "faults": sc["faults"] + how.get("faults", []), "limit": limit, "term": True}
        if "interrupt" in how:
            sp["interrupt"] = how["interrupt"]
        res = rt.cli(w, sp)
        got = w.read(s["target"])
        f = fired_of(res, how.get("interrupt"))
        if res.code == TOO_LONG:
            raise Violation("endless", f"does not end within {limit} file operations", lines(w, res)[:60])
        at = [o.idx for o in res.log if o.fault == "sigint"]
        if res.where:
            at.append(res.report["ops"])
        first = min(at) if at else None
        verdict = "not interrupted"
        if first is not None:
            verdict = "interrupted while or after writing"
            if "Exception ignored" in res.err:
                verdict = "interruption lost by Python"  # one that hits a finalizer
            elif first < min((o.idx for o in res.log if o.cls in ("output", "home", "tmp") and o.op == "open" and o.res >= 0 and o.flags & os.O_ACCMODE and
                             "scipy-" not in o.path), default=1 << 30):
                verdict = "interrupted before writing"
                if res.code == 0:
                    raise Violation("went on", "interrupted before the output was written, but the exit status is 0", lines(w, res))
                if got != old:
                    raise Violation("output", f"interrupted before the output was written (exit status {res.code}), but it has changed", lines(w, res))
        return {"sig": sig([trace_of(res), verdict]), "digest": sig([got, res.code]), "nontrivial": bool(f), "fired": f,
                "count": {"runs": 1, verdict: 1, "exit 0": int(res.code == 0), "of the config command": int(sc["command"] == "config")}, "sim": simulated(res)}


# ---------------------------------------------------------------- C21
def library_calls(path, seed, gradient):
    """a program that uses the library: returns its exit status"""
    try:
        import geec.config
        import geec.mass
        import geec.observer
        from geec.polyhedron import Polyhedron
        from geec.station import Station

        r = random.Random(seed)
        cfg = geec.config.setup(path)
        if r.random() < 0.3:
            geec.config.show(cfg)
        masses = geec.mass.get_masses(cfg)
        o = geec.observer.get_observer(cfg)
        for m in masses:
            for k in r.sample(["to_lon180", "to_ellipsoid_height", "to_ecef", "to_wgs84", "to_ecef"], r.randint(1, 5)):
                getattr(m, k)()
        getattr(o, r.choice(["to_lon180", "to_ellipsoid_height", "to_wgs84"]))()
        o.to_ecef()
        for m in masses:
            p = Polyhedron(m.dataset.coords)
            for x in list(o.dataset.coords[:3]) + ([m.dataset.coords[0]] if r.random() < 0.2 else []):
                s = Station(x.copy())
                s.compute_gravity([p], m.density, m.gravity_constant, gradient)
        if r.random() < 0.5:
            o.to_enu(5.0, 45.0, 100.0)
        return 0
    except Exception:
        return 1


class C21(Command):
    id = "C21"
    runs = {"quick": 700, "thorough": 40000}
    rule = ("seeded sessions of 3 to 7 commands and library programs in one interpreter, undisturbed, interrupted, or met by I/O errors or a lack of memory; "
            "the state of the process is compared before and after each; non-trivial: one of them was disturbed; distinct: by the sequence of operations and faults")

    def gen(self, r, tier):
        ops = []
        shared, mute = r.random() < 0.5, r.random() < 0.15
        for i in range(r.choice([3, 4, 5, 7])):
            s = setups.gen_setup(r, self.heights, tag="" if shared else str(i), max_obs=3, grids=r.random() < 0.5)
            s["user"] = None
            if isinstance(s["old"], dict):
                s["old"] = "older\n"
            k = r.random()
            h = {"setup": s, "os": os_params(r), "faults": [], "stop": None, "do": "run" if k < 0.55 else "calls" if k < 0.9 else r.choice(["config", "version", "log", "wrong", "bad"]),
                 "seed": r.getrandbits(30)}
            k = r.random()
            if k < 0.5:
                # (scipy itself breaks down when stopped while it makes its temporary file)
                while not h["stop"] or h["stop"]["how"] not in ("interrupt", "memory", "sigint") or h["stop"].get("cls") == "any":
                    h["stop"] = stop(r)
                if h["stop"]["how"] == "interrupt" and r.random() < 0.3:
                    h["stop"]["lib"] = True
            elif k < 0.85:
                h["faults"] = [f for f in hard(r) if f["cls"] not in ("tmp", "any")]
                if r.random() < 0.3:
                    h["damage"] = r.choice(["cfg", "file", "grid"])
            h["mute"] = mute if r.random() < 0.8 else not mute
            ops.append(h)
        return {"ops": ops}

    def put(self, w, h):
        s = h["setup"]
        put_grids(w)
        setups.put(w, s)
        if h.get("damage") == "cfg":
            w.write(s["cfgname"], "masses: [")
        elif h.get("damage") == "file":
            for f in s["files"]:
                w.write(f, "1,2\nx,y\n")
        elif h.get("damage") == "grid":
            for f in model.GRIDFILE.values():
                w.write("grids/" + f, b"P5\n# nothing\n")

    def entry(self, w, h):
        s = h["setup"]
        a = setups.argv(w, s)
        sp = {"cwd": s["cwd"], "os": h["os"], "faults": list(h["faults"]), "argv": a, "limit": 0}
        if h.get("mute"):
            sp["no stderr"] = True
        if h["do"] == "calls":
            sp["call"] = functools.partial(library_calls, w.p(s["cfgname"]), h["seed"], s["gradient"])
        elif h["do"] == "config":
            sp["argv"] = ["config", "--output", w.p("out/t.yaml")]
        elif h["do"] == "version":
            sp["argv"] = ["--version"]
        elif h["do"] == "log":
            sp["argv"] = ["--log"]
        elif h["do"] == "wrong":
            sp["argv"] = ["run", "--unknown"] + a[1:]
        elif h["do"] == "bad":
            sp["argv"] = ["run", w.p("out/x.csv"), "--config", w.p("in/nothing.yaml")]
        return (functools.partial(self.put, w, h), sp)

    def run(self, sc):
        w, w2 = self.w, self.w2
        w.fresh()
        before, sites = [], []
        for h in sc["ops"]:
            put, sp = self.entry(w, h)
            st = h["stop"]
            how = {}
            if st:
                w2.fresh()
                p2, s2 = self.entry(w2, h)
                if st["how"] in ("interrupt", "memory"):
                    s2["interrupt"] = instants(st)
                x = rt.cli(w2, {"argv": ["--version"], "before": [(p2, s2)], "put": lambda: None, "watch": True}).report
                d = rt.Result(code=0, nops=0, log=x["before"][0][1], counts=x["watch"][0][2])
                how = resolve(st, d)
                if how.get("faults"):  # in this process, other files may be open or cached
                    inside = [o for o in d.log if o.cls != "outside"]
                    n = how["faults"][0]["nth"]
                    c = inside[n].cls
                    how = {} if c == "tmp" else {"faults": [dict(how["faults"][0], cls=c, nth=sum(1 for o in inside[:n] if o.cls == c))]}
            sp["faults"] = sp["faults"] + how.get("faults", [])
            if "interrupt" in how:
                sp["interrupt"] = how["interrupt"]
            before.append((put, sp))
        res = rt.cli(w, {"argv": ["--version"], "before": before, "put": lambda: None, "watch": True})
        watch, did = res.report.get("watch", []), res.report.get("before", [])
        if len(watch) != len(before):
            raise Violation("ended", f"the interpreter ended during operation {len(watch)}: exit status {res.code}", lines(w, res))
        root = os.path.realpath(w.root)
        f, tr, first, spared = {}, [], None, set()
        for i, ((was, now, _), (code, log, where), (_, sp), h) in enumerate(zip(watch, did, before, sc["ops"])):
            x = rt.Result(code=code, log=log, nops=len(log), crashed=0, err=res.err, out="", events=None, where=where, report={})
            add(f, fired_of(x, sp.get("interrupt")))
            tr.append(trace_of(x))
            what = f"operation {i} ({h['do']}, {'returned' if code == 0 else f'failed, {code}'})"
            for k, v in now["same"].items():
                if v != was[k]:
                    raise Violation("changed", f"{what} changed the {k}: {diff(was[k], v)}", lines(w, x))
            here = [p for p in now["files"] if p.startswith(root + "/")]
            logs = [p for p in here if p.startswith(root + "/log/")]
            grids = [p for p in here if p.startswith(root + "/grids/")]
            left = [p for p in here if p not in logs and p not in grids]
            if where or any("sigint" in o.fault for o in log):
                # interrupted just when it had been opened: no statement could close it yet
                last = max((j for j, o in enumerate(log) if o.op == "open" and o.res >= 0), default=None)
                if last is not None and not any(o.op in ("read", "write") and o.path == log[last].path for o in log[last + 1 :]):
                    spared.add(os.path.basename(log[last].path))
            left = [p for p in left if os.path.basename(p.removesuffix(" (deleted)")) not in spared]
            if left or len(logs) > 1 or len(set(grids)) < len(grids):
                raise Violation("open", f"{what} leaves open files: {[rt.norm(w, p) for p in left or here]}", lines(w, x))
            others = [p for p in now["files"] if p not in here]
            n = now["piled"]
            if first is None:
                first = (others, n)
            if len(others) > len(first[0]) + 1:  # (a library imported meanwhile may keep one)
                raise Violation("open", f"{what} leaves open files: {[p for p in others if p not in first[0]] or others}", lines(w, x))
            for k, v in n.items():
                limit = first[1][k] + 2  # (the same)
                if k.startswith("handlers"):
                    limit = 2
                elif k.startswith("objects"):
                    limit = 0
                if v > limit:
                    raise Violation("piled", f"after {what} there are {v} {k}, instead of at most {limit}", lines(w, x))
        dist = sum(1 for t in tr if t[-1] or any(isinstance(o, tuple) and o[-1] for o in t))
        return {"sig": sig(tr), "digest": sig([tr, [c for c, _, _ in did]]), "nontrivial": dist > 0, "fired": f,
                "count": {"operations": len(before), "disturbed": dist, "failed": sum(1 for c, _, _ in did if c)}, "sim": simulated(res)}

    def shrink(self, sc):
        p = sc["ops"]
        for i in range(len(p)):
            if len(p) > 1:
                yield dict(sc, ops=p[:i] + p[i + 1 :])
        for i in range(len(p)):
            for x in ("faults", "stop"):
                if p[i][x]:
                    yield dict(sc, ops=p[:i] + [dict(p[i], **{x: [] if x == "faults" else None})] + p[i + 1 :])
            for s in self.shrink_setup(p[i]["setup"]):
                yield dict(sc, ops=p[:i] + [dict(p[i], setup=s)] + p[i + 1 :])


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return ", ".join(f"{k}: {b.get(k)!r} instead of {a.get(k)!r}" for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k))[:300]
    return f"{b} instead of {a}"[:400]
