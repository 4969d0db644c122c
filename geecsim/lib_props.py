"""Properties of the library: sessions of calls with interruptions, threads, conversions, clocks."""
import copy
import hashlib
import math
import pickle
import random
import sys

import numpy as np

from geecsim import gen, geom, model, rt
from geecsim.rt import Interrupter, Violation, interrupter, isolated, under

G_TOL, T_TOL = model.RTOL, model.RTOL_T


def sig(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def make_array(values, how):
    """an array of the given numbers, as callers may have it"""
    a = np.array(values, dtype=float)
    if how == "int":
        a = a.astype(int)
    elif how == "f32":
        a = a.astype(np.float32)
    elif how == "fortran":
        a = np.asfortranarray(a)
    elif how == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        a = v
    elif how == "reversed":
        a = a[::-1].copy()[::-1]
    elif how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def tolerance(b, o, sg, sT, scale=None):
    d = b.nearest(o)
    pos = 4e-16 * max(np.abs(b.points).max(), np.abs(o).max())
    return (G_TOL + 4 * pos / d) * sg + 1e-300, (T_TOL + 4 * pos / d) * sT + 1e-300


class Fields:
    """the reference field of bodies at points, remembered"""

    def __init__(self, bodies):
        self.bodies = [model.Body(p) for p in bodies]
        self.memo = {}

    def unit(self, i, o):
        k = (i, tuple(o))
        if k not in self.memo:
            b = self.bodies[i]
            o = np.array(o, dtype=float)
            g, T, sg, sT = b.field(o, 1.0, 1.0, True)
            tg, tT = tolerance(b, o, sg, sT)
            self.memo[k] = (g, T, tg, tT)
        return self.memo[k]

    def at(self, i, o, rho, G, grad):
        g, T, tg, tT = self.unit(i, o)
        q = rho * G
        if not grad:
            return g * q, np.zeros((3, 3)), tg * abs(q), 0.0
        return g * q, T * q, tg * abs(q), tT * abs(q)


def wrong(res, exp):
    """what is wrong with a computed field (None if nothing); and the error relative to the tolerance"""
    g, T, tg, tT = exp
    try:
        G, TT = res
        G, TT = np.asarray(G, dtype=float), np.asarray(TT, dtype=float)
    except Exception:
        return f"result is {res!r}", 0
    if G.shape != (3,) or TT.shape != (3, 3):
        return f"result has shapes {G.shape} {TT.shape}", 0
    dg, dT = np.abs(G - g).max(), np.abs(TT - T).max()
    if not dg <= tg + 1e-300:
        return f"gravity {G} instead of {g}", 0
    if not dT <= tT + 1e-300:
        return f"gradient {TT.tolist()} instead of {T.tolist()}", 0
    return None, max(dg / (tg + 1e-300) if tg else 0, dT / (tT + 1e-300) if tT else 0)


def gen_bodies(r, n, large=0.0):
    bodies, B = [], []
    far = r.random() < 0.2
    odd = r.uniform(-2.5, 5) if r.random() < 0.12 else None
    for i in range(n):
        size = 10 ** (r.uniform(-0.5, 1.5) if odd is None else odd + r.uniform(-0.5, 0.5))
        c = [0.0, 0.0, 0.0]
        if far:
            size = 10 ** r.uniform(1.5, 3.5)
            c = [4.0e6, 3.1e6 + 3e4 * i, 3.9e6]
        elif r.random() < 0.5:
            c = [r.uniform(-20, 20) * (1 if odd is None else size) for _ in range(3)]
        P, b = gen.any_body(r, size=size, center=c, kind="sphere" if r.random() < large else None)
        bodies.append({"points": P, "how": r.choice(["plain"] * 5 + ["fortran", "strided", "reversed", "readonly"])})
        B.append(b)
    if n > 1 and r.random() < 0.3:  # two bodies made of the same points
        bodies[-1] = dict(bodies[0])
        B[-1] = B[0]
    if not far and odd is None and r.random() < 0.15:
        P = [[x, y, z] for x in (0, 2) for y in (0, 3) for z in (0, 1)]
        bodies[0] = {"points": [[float(v) for v in p] for p in P], "how": "int"}
        B[0] = model.Body(P)
    return bodies, B


def interruption(r, p, fine=0.0):
    if r.random() >= p:
        return None
    it = {"kind": r.choice(["interrupt", "interrupt", "memory"]), "frac": round(r.random() ** r.choice([1, 1, 2, 0.5]), 4)}
    if r.random() < 0.45:
        it["site"] = round(r.random(), 3)
    if it["kind"] == "interrupt" and r.random() < fine:
        it["fine"] = True  # at any instant at all
    return it


class Session:
    """common parts of the sessions of calls"""

    workers_env = {}

    def prepare(self):
        pass

    def shrink(self, sc):
        ops = sc["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if n - size >= 1 or True:
                    yield dict(sc, ops=ops[:i] + ops[i + size :])
            size //= 2
        for i, o in enumerate(ops):
            if o.get("interrupt"):
                yield dict(sc, ops=ops[:i] + [dict(o, interrupt=None)] + ops[i + 1 :])


# ---------------------------------------------------------------- C01
class C01(Session):
    id = "C01"
    runs = {"quick": 1600, "thorough": 90000}
    rule = ("seeded sessions of 4 to 24 calls on 1 to 3 bodies, with interruptions or memory failures at chosen instants, failing calls, "
            "results altered by the caller, bodies built again; non-trivial: at least one call completed after an interrupted or failed "
            "one, or at least two calls with different parameters on one body; distinct: by the sequence of calls, interruption points and outcomes")
    real = ["geec.polyhedron", "geec.station", "geec.utils", "numba", "numpy", "scipy"]
    stubs = ["delivery of signals and memory failures (profile hook of the interpreter)"]

    def gen(self, r, tier):
        nb = r.choice([1, 1, 2, 2, 3])
        bodies, B = gen_bodies(r, nb, 0.02)
        n = r.randint(4, 24) if r.random() < 0.92 else r.choice([r.randint(30, 60), r.randint(30, 60), r.randint(140, 300)])
        p_int = r.choice([0, 0.1, 0.3, 0.6])
        p_bad = r.choice([0, 0.1, 0.3])
        pool = []
        for i in range(nb):
            pool += [(i, gen.station(r, B[i])) for _ in range(r.randint(1, 4))]
        ops = []
        for _ in range(n):
            k = r.random()
            if k < p_bad * 0.5:
                i = r.randrange(nb)
                ops.append({"op": "vertex", "body": i, "k": r.randrange(len(bodies[i]["points"])), "grad": r.random() < 0.5})
                continue
            if k < p_bad:
                ops.append({"op": "bad", "body": r.randrange(nb), "what": r.choice(["short", "nan", "text", "none", "density"])})
                continue
            if k > 0.985:
                ops.append({"op": "copy", "body": r.randrange(nb), "how": r.choice(["deepcopy", "pickle", "swap"])})
                continue
            if k > 0.97:
                ops.append({"op": "rebuild", "body": r.randrange(nb), "interrupt": interruption(r, 0.5)})
                continue
            if k > 0.95:
                ops.append({"op": "scribble"})
                continue
            if k > 0.93:
                ops.append({"op": "seed", "n": r.randrange(1 << 30)})
                continue
            if r.random() < 0.6:
                i, o = r.choice(pool)
            else:
                i = r.randrange(nb)
                o = gen.station(r, B[i])
            if r.random() < 0.1:  # almost the same point as another one
                o = [x + d for x, d in zip(o, (1e-5 * B[i].size, 0, 0))]
            if r.random() < 0.12 and nb > 1:
                i = r.randrange(nb)
            if geom.dist(B[i], np.array(o)) < 1e-3 * B[i].size:
                continue
            how = r.choice(["plain"] * 6 + ["strided", "readonly", "shared", "shared", "int"])
            if how == "int":
                o = [float(round(x)) for x in o]
                if geom.dist(B[i], np.array(o)) < 5e-3 * B[i].size:
                    continue
            ops.append({"op": "field", "body": i, "at": o, "rho": gen.density(r), "G": gen.constant(r), "grad": r.random() < 0.5,
                        "how": how, "interrupt": interruption(r, p_int, 0.4)})
            if r.random() < 0.1:
                pool.append((i, o))
        return {"bodies": bodies, "ops": ops}

    def run(self, sc):
        return isolated(self._session, sc)

    def _build(self, sc):
        from geec.polyhedron import Polyhedron

        arrays = [make_array(b["points"], b["how"]) for b in sc["bodies"]]
        keep = [a.tobytes() for a in arrays]
        polys = []
        for a in arrays:
            try:
                polys.append(Polyhedron(a))
            except Exception as e:
                raise Violation("build", f"cannot build a body: {e!r}")
        return arrays, keep, polys

    def _session(self, sc):
        arrays, keep, polys = self._build(sc)
        counts = [None] * len(sc["ops"])
        if any(o.get("interrupt") for o in sc["ops"]):
            counts = isolated(self._play, sc, arrays, keep, polys, None)
        return self._play(sc, arrays, keep, polys, counts)

    def _play(self, sc, arrays, keep, polys, counts):
        from geec.polyhedron import Polyhedron

        dry = counts is None
        F = Fields([b["points"] for b in sc["bodies"]])
        returned = []  # (arrays returned, copies of them)
        trace, fired, worst, done, after_failure, seen_failure = [], {}, 0.0, 0, 0, False
        events = []
        shared = np.zeros(3)  # the caller's own work array
        for n, o in enumerate(sc["ops"]):
            i = o.get("body")
            kind = o["op"]
            it = o.get("interrupt")
            inter = None
            if it:
                at = None if dry else rt.at_event(it, counts[n])
                inter = interrupter(it, at)
            out = None
            if kind == "seed":
                random.seed(o["n"])
                np.random.seed(o["n"] % 2**32)
                events.append(None)
                continue
            if kind == "copy":
                # a copy, instead of it or beside it
                import copy
                import pickle

                try:
                    if o["how"] == "pickle":
                        polys[i] = pickle.loads(pickle.dumps(polys[i]))
                    else:
                        c = copy.deepcopy(polys[i])
                        if o["how"] == "deepcopy":
                            polys[i] = c
                except Exception:  # nobody says that bodies can be copied
                    pass
                events.append(None)
                continue
            if kind == "scribble":
                # the caller does what it likes with what it got
                for k in range(len(returned)):
                    for x in returned[k][0]:
                        if isinstance(x, np.ndarray) and x.flags.writeable:
                            x += 1.0e3
                returned = []
                events.append(None)
                continue
            if kind == "rebuild":
                if inter:
                    v, e = under(inter, Polyhedron, arrays[i])
                else:
                    v, e = under(Interrupter("count"), Polyhedron, arrays[i])
                if e is None:
                    polys[i] = v
                elif not (inter and inter.where):
                    raise Violation("exception", f"call {n}: building body {i} again failed: {e!r}")
                out = "ok" if e is None else "failed"
            else:
                p = polys[i]
                if kind == "vertex":
                    coord = np.array(sc["bodies"][i]["points"][o["k"]], dtype=float)
                    args = (coord, 1000.0, 6.67e-11, o["grad"])
                elif kind == "bad":
                    coord = np.array([50.0, 60.0, 70.0])
                    args = (coord, 1000.0, 6.67e-11, True)
                    if o["what"] == "short":
                        args = (np.array([1.0, 2.0]), *args[1:])
                    elif o["what"] == "nan":
                        args = (np.array([math.nan, 1.0, 2.0]), *args[1:])
                    elif o["what"] == "text":
                        args = ("here", *args[1:])
                    elif o["what"] == "none":
                        args = (None, *args[1:])
                    else:
                        args = (coord, "heavy", *args[2:])
                else:
                    if o["how"] == "shared":
                        shared[:] = o["at"]
                        coord = shared
                    else:
                        coord = make_array(o["at"], o["how"])
                    args = (coord, o["rho"], o["G"], o["grad"])
                before = coord.tobytes()
                if inter:
                    v, e = under(inter, p.get_gravity, *args)
                    if dry:
                        events.append(inter.count)
                else:
                    try:
                        v, e = p.get_gravity(*args), None
                    except Exception as x:
                        v, e = None, x
                if coord.tobytes() != before:
                    raise Violation("argument", f"call {n} changed the coordinates it was given")
                if kind == "field":
                    if e is not None:
                        if not (inter and inter.where):
                            raise Violation("exception", f"call {n}: field of body {i} at {o['at']} failed: {e!r}")
                        out = "failed"
                    else:
                        exp = F.at(i, o["at"], o["rho"], o["G"], o["grad"])
                        w, rel = wrong(v, exp)
                        if w and not dry:
                            raise Violation("field", f"call {n}: body {i} at {o['at']}, density {o['rho']}, gradient {o['grad']}: {w}")
                        worst = max(worst, rel)
                        out = "ok"
                        done += 1
                        after_failure += seen_failure
                        ar = [x for x in v if isinstance(x, np.ndarray)]
                        returned.append((ar, [x.copy() for x in ar], n))
                else:
                    out = "ok" if e is None else "failed"
                    fired[f"failing call ({kind})"] = fired.get(f"failing call ({kind})", 0) + 1
            if dry:
                if len(events) == n:
                    events.append(inter.count if inter else None)
                continue
            if inter and inter.where:
                fired[it["kind"]] = fired.get(it["kind"], 0) + 1
            if out == "failed":
                seen_failure = True
            for k, (a, b) in enumerate(zip(arrays, keep)):
                if a.tobytes() != b:
                    raise Violation("argument", f"call {n} changed the points of body {k} given by the caller")
            for ar, cp, m in returned:
                for x, y in zip(ar, cp):
                    if x.tobytes() != y.tobytes():
                        raise Violation("returned", f"call {n} changed the result that call {m} had returned")
            trace.append((kind, i, o.get("grad"), it and (it["kind"], inter.where), out))
        if dry:
            return events
        return {"sig": sig(trace), "nontrivial": after_failure > 0 or done >= 2, "fired": fired, "worst": worst,
                "count": {"calls": len(sc["ops"]), "calls completed": done, "calls completed after a failure": after_failure}}


# ---------------------------------------------------------------- C02
class C02(Session):
    id = "C02"
    runs = {"quick": 1800, "thorough": 80000}
    rule = ("seeded sessions of 3 to 16 accumulating calls on 1 to 3 stations over lists of up to 4 bodies, some failing or interrupted "
            "at chosen instants and repeated; non-trivial: a station got a completed call after a failed one or two completed calls; "
            "distinct: by the sequence of calls, interruption points and outcomes")
    real = C01.real
    stubs = C01.stubs

    def gen(self, r, tier):
        nb = r.randint(1, 3)
        bodies, B = gen_bodies(r, nb)
        ns = r.randint(1, 3)
        stations = [{"at": gen.station(r, B[0], B[1:]), "how": r.choice(["plain", "plain", "strided", "readonly"])} for _ in range(ns)]
        for s in stations:
            o = [float(round(x)) for x in s["at"]]
            if r.random() < 0.15 and all(geom.dist(b, np.array(o)) > 5e-3 * b.size for b in B):
                s.update(at=o, how="int")
        if r.random() < 0.35:  # a station on a corner of the last body: its computation fails
            stations[-1] = {"at": [float(x) for x in r.choice(bodies[-1]["points"])], "how": "plain", "corner": nb - 1}
        if r.random() < 0.1 and ns > 1:
            stations[0]["same"] = 1  # both stations made of the same array
            stations[1] = dict(stations[0])
        p_int = r.choice([0, 0.2, 0.5])
        ops = []
        for _ in range(r.randint(3, 16)):
            k = r.random()
            s = r.randrange(ns)
            if k < 0.06:
                ops.append({"op": "bad", "s": s, "bodies": [r.randrange(nb) for _ in range(r.randint(0, 2))], "what": r.choice(["text", "none", "density", "constant"]), "grad": r.random() < 0.5})
                continue
            if k < 0.1:
                ops.append({"op": "restart", "s": s})
                continue
            if k < 0.18 and nb > 1:  # another body in the place of one that is gone, and the same call again
                b = r.randrange(nb)
                ops.append({"op": "replace", "s": s, "body": b, "by": r.choice([c for c in range(nb) if c != b])})
                last = [o for o in ops if o["op"] == "add" and b in o["bodies"]]
                if last and r.random() < 0.8:
                    ops.append(dict(last[-1], interrupt=None))
                continue
            lst = [r.randrange(nb) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4, 0]))]
            single = len(lst) == 1 and r.random() < 0.6
            o = {"op": "add", "s": s, "bodies": lst, "single": single, "rho": gen.density(r), "G": gen.constant(r),
                 "grad": r.random() < 0.5, "interrupt": interruption(r, p_int, 0.4)}
            ops.append(o)
            if o["interrupt"] and r.random() < 0.6:  # and again
                ops.append(dict(o, interrupt=None))
        return {"bodies": bodies, "stations": stations, "ops": ops}

    def run(self, sc):
        return isolated(self._session, sc)

    def _session(self, sc):
        arrays, keep, polys = C01._build(self, sc)
        counts = [None] * len(sc["ops"])
        if any(o.get("interrupt") for o in sc["ops"]):
            counts = isolated(self._play, sc, arrays, polys, None)
        return self._play(sc, arrays, polys, counts)

    def _play(self, sc, arrays, polys, counts):
        from geec.station import Station

        dry = counts is None
        F = Fields([b["points"] for b in sc["bodies"]])
        coords = [make_array(s["at"], s["how"]) for s in sc["stations"]]
        if sc["stations"][0].get("same") and len(coords) > 1:
            coords[1] = coords[0]
        S = [Station(c) for c in coords]
        is_now = list(range(len(polys)))  # which of the bodies each is
        # bodies on whose surface a station lies
        surface = [{i for i, b in enumerate(F.bodies) if geom.dist(b, np.array(t["at"])) < 1e-3 * b.size} for t in sc["stations"]]
        zero = lambda: [np.zeros(3), np.zeros((3, 3)), 0.0, 0.0]  # noqa
        want = [zero() for _ in S]
        ncalls = [[0, 0] for _ in S]  # completed, completed after a failure
        failed = [False for _ in S]
        trace, fired, worst, events = [], {}, 0.0, []

        def audit(n, what):
            nonlocal worst
            for k, s in enumerate(S):
                w, rel = wrong((s.G, s.T), want[k])
                if w:
                    raise Violation("totals", f"after call {n} ({what}): station {k}: {w}")
                worst = max(worst, rel)

        if not dry:
            audit(-1, "none yet")
        for n, o in enumerate(sc["ops"]):
            k = o["s"]
            it = o.get("interrupt")
            inter = interrupter(it, None if dry else rt.at_event(it, counts[n])) if it else None
            st = sc["stations"][k]
            if o["op"] == "restart":
                S[k] = Station(coords[k])
                want[k] = zero()
                failed[k] = False
                events.append(None)
                if not dry:
                    audit(n, "new station")
                continue
            if o["op"] == "replace":
                from geec.polyhedron import Polyhedron

                lst = args = e = v = inter = None
                polys[o["body"]] = None  # its place in memory is free
                is_now[o["body"]] = o["by"]
                polys[o["body"]] = Polyhedron(arrays[o["by"]])
                events.append(None)
                continue
            which = [is_now[b] for b in o["bodies"]]
            lst = [polys[b] for b in o["bodies"]]
            may_fail = False
            if o["op"] == "bad":
                may_fail = True
                args = [lst, 1000.0, 6.67e-11, o["grad"]]
                if o["what"] in ("text", "none"):
                    lst.append({"text": "body", "none": None}[o["what"]])
                elif o["what"] == "density":
                    args[1] = "heavy"
                else:
                    args[2] = None
                if o["what"] in ("density", "constant") and not lst:
                    events.append(None)
                    continue
            else:
                args = [lst[0] if o["single"] else lst, o["rho"], o["G"], o["grad"]]
                if surface[k] & set(which):
                    may_fail = True
            f = S[k].compute_gravity
            before = coords[k].tobytes()
            size = len(lst)
            if inter:
                v, e = under(inter, f, *args)
            else:
                try:
                    v, e = f(*args), None
                except Exception as x:
                    v, e = None, x
            events.append(inter.count if inter else None)
            if dry:
                continue
            if coords[k].tobytes() != before:
                raise Violation("argument", f"call {n} changed the coordinates of station {k}")
            if len(lst) != size:
                raise Violation("argument", f"call {n} changed the list of bodies it was given")
            if e is None:
                if surface[k] & set(which):
                    # a value at a corner is as good as any other
                    S[k] = Station(coords[k])
                    want[k] = zero()
                    continue
                if o["op"] == "bad":
                    raise Violation("accepted", f"call {n} accepted {o['what']}")
                for b in which:
                    g, T, tg, tT = F.at(b, st["at"], o["rho"], o["G"], o["grad"])
                    w = want[k]
                    w[0] = w[0] + g
                    w[1] = w[1] + T
                    w[2] += tg
                    w[3] += tT
                w = want[k]
                w[2] += 1e-13 * np.abs(w[0]).max()
                w[3] += 1e-13 * np.abs(w[1]).max()
                ncalls[k][0] += 1
                ncalls[k][1] += failed[k]
            else:
                if not may_fail and not (inter and inter.where):
                    raise Violation("exception", f"call {n} failed: {e!r}")
                failed[k] = True
                if not (inter and inter.where):
                    fired["failing call"] = fired.get("failing call", 0) + 1
            if inter and inter.where:
                fired[it["kind"]] = fired.get(it["kind"], 0) + 1
            trace.append((o["op"], k, tuple(o["bodies"]), o.get("grad"), it and (it["kind"], inter.where), e is None))
            audit(n, "completed" if e is None else f"failed: {e!r}")
        if dry:
            return events
        return {"sig": sig(trace), "nontrivial": any(c[1] or c[0] > 1 for c in ncalls), "fired": fired, "worst": worst,
                "count": {"calls": len(sc["ops"]), "calls completed": sum(c[0] for c in ncalls), "calls completed after a failure": sum(c[1] for c in ncalls)}}


# ---------------------------------------------------------------- C03
class C03(Session):
    id = "C03"
    patch = "locks"
    runs = {"quick": 1200, "thorough": 60000}
    rule = ("seeded schedules of 2 to 4 threads making 1 to 4 calls each on bodies they mostly share, switched at chosen instants of the "
            "calls; non-trivial: at least one switch while a call was under way; distinct: by the sequence of (thread, instants run)")
    real = ["geec.polyhedron", "geec.station", "geec.utils", "numba", "numpy", "scipy", "interpreter threads"]
    stubs = ["thread scheduler", "locks created by geec"]

    def gen(self, r, tier):
        nb = r.choice([1, 1, 1, 2, 3])
        bodies, B = gen_bodies(r, nb)
        for b in bodies:
            if b["how"] == "readonly":
                b["how"] = "plain"
        nt = r.choice([2, 2, 2, 3, 4])
        ops = []
        for t in range(nt):
            for _ in range(r.randint(1, 4 if nt < 4 else 2)):
                k = r.random()
                i = r.randrange(nb)
                o = gen.station(r, B[i], [b for j, b in enumerate(B) if j != i])
                if k > 0.93:  # fails: on a corner of the body
                    ops.append({"t": t, "op": "corner", "body": i, "at": [float(x) for x in r.choice(bodies[i]["points"])], "rho": 1000.0, "G": 1.0, "grad": r.random() < 0.5})
                elif k < 0.25:
                    ops.append({"t": t, "op": "build", "body": i, "at": o, "rho": 1000.0, "G": 6.67408e-11, "grad": r.random() < 0.5})
                elif k < 0.33:
                    ops.append({"t": t, "op": r.choice(["deepcopy", "deepcopy", "copy", "pickle"]), "body": i, "at": o, "rho": gen.density(r), "G": gen.constant(r), "grad": r.random() < 0.5})
                elif k < 0.55:
                    ops.append({"t": t, "op": "station", "bodies": [i] + [r.randrange(nb) for _ in range(r.choice([0, 0, 1, 2]))], "at": o,
                                "rho": gen.density(r), "G": gen.constant(r), "grad": r.random() < 0.5})
                    if r.random() < 0.06:  # fails: no memory left
                        ops[-1]["memory"] = r.choice([r.randrange(1, 60), r.randrange(1, 2000)])
                else:
                    ops.append({"t": t, "op": "field", "body": i, "at": o, "rho": gen.density(r), "G": gen.constant(r), "grad": r.random() < 0.5})
        return {"bodies": bodies, "ops": ops, "sched": {"seed": r.randrange(1 << 30), "mean": r.choice([1, 3, 10, 40, 150]),
                                                        "style": r.choice(["random", "random", "priority", "robin", "long", "long"]), "fine": r.random() < 0.5}}

    def shrink(self, sc):
        yield from super().shrink(sc)
        if "list" in sc["sched"]:
            l = sc["sched"]["list"]
            size = len(l) // 2
            while size >= 1:
                for i in range(0, len(l), size):
                    yield dict(sc, sched=dict(sc["sched"], list=l[:i] + l[i + size :]))
                size //= 2

    def concrete(self, sc, out):
        """the same scenario with the schedule written out"""
        return dict(sc, sched={"list": [list(x) for x in out["schedule"]], "fine": sc["sched"].get("fine", False)})

    def run(self, sc):
        return isolated(self._session, sc)

    def decider(self, sched):
        if "list" in sched:
            lst = [tuple(x) for x in sched["list"]]

            def decide(ready):
                while lst:
                    i, n = lst.pop(0)
                    for t in ready:
                        if t.i == i:
                            return t, n
                return ready[0], 1 << 30

            return decide
        r = random.Random(sched["seed"])
        mean, style = sched["mean"], sched["style"]
        prio = {}

        def decide(ready):
            n = 1 + int(r.expovariate(1 / mean)) if mean > 1 else 1
            if style == "priority":
                for t in ready:
                    prio.setdefault(t.i, r.random())
                t = max(ready, key=lambda t: prio[t.i])
                if r.random() < 0.3:
                    prio[t.i] = r.random() * min(prio.values())
                return t, n
            if style == "robin":
                return min(ready, key=lambda t: t.events), n
            if style == "long":  # one stands still somewhere, another runs to its end
                return r.choice(ready), int(10 ** r.uniform(0, 3.2)) if r.random() < 0.6 else 1 << 30
            return r.choice(ready), n

        return decide

    def _session(self, sc):
        from geec.polyhedron import Polyhedron
        from geec.station import Station
        from geecsim.threads import Scheduler

        arrays, keep, polys = C01._build(self, sc)
        F = Fields([b["points"] for b in sc["bodies"]])
        nt = 1 + max((o["t"] for o in sc["ops"]), default=0)
        results, fails = {}, []

        def program(mine):
            def f():
                for n, o in mine:
                    at = np.array(o["at"])
                    if o["op"] == "corner":
                        try:
                            polys[o["body"]].get_gravity(at, o["rho"], o["G"], o["grad"])
                        except Exception:
                            fails.append(n)
                        continue
                    if o["op"] == "station":
                        s = Station(at)
                        if o.get("memory"):
                            sched.me().memory = o["memory"]
                        try:
                            s.compute_gravity([polys[b] for b in o["bodies"]], o["rho"], o["G"], o["grad"])
                        except MemoryError:
                            if not o.get("memory"):
                                raise
                            fails.append(n)
                        finally:
                            sched.me().memory = 0
                        results[n] = (s.G, s.T)
                    else:
                        p = polys[o["body"]]
                        if o["op"] == "build":
                            p = Polyhedron(arrays[o["body"]])
                        elif o["op"] == "deepcopy":
                            p = copy.deepcopy(p)
                        elif o["op"] == "copy":
                            p = copy.copy(p)
                        elif o["op"] == "pickle":
                            p = pickle.loads(pickle.dumps(p))
                        results[n] = p.get_gravity(at, o["rho"], o["G"], o["grad"])

            return f

        roots = (rt.REPO + "/geec", copy.__file__)
        sched = Scheduler(self.decider(sc["sched"]), root=roots, fine=sc["sched"].get("fine", False))
        for t in range(nt):
            sched.add(program([(n, o) for n, o in enumerate(sc["ops"]) if o["t"] == t]))
        end = sched.run()
        out = {"schedule": sched.trace}
        bad = None
        if end:
            bad = (end, f"{end}: " + ", ".join(f"thread {t.i} {t.state}" for t in sched.threads))
        worst = 0.0
        for t in sched.threads:
            if t.error is not None and not bad:
                bad = ("exception", f"thread {t.i} failed: {t.error!r}")
        for n, o in enumerate(sc["ops"]):
            if bad:
                break
            if o["op"] == "corner":
                continue
            w = [np.zeros(3), np.zeros((3, 3)), 0.0, 0.0]
            for b in o.get("bodies", [o.get("body")]) if n not in fails else []:
                for k, x in enumerate(F.at(b, o["at"], o["rho"], o["G"], o["grad"])):
                    w[k] = w[k] + x
            w[2] += 1e-13 * np.abs(w[0]).max()
            w[3] += 1e-13 * np.abs(w[1]).max()
            x, rel = wrong(results[n], w)
            if x:
                bad = ("field", f"thread {o['t']}, call {n} ({o['op']} at {o['at']}): {x}")
            worst = max(worst, rel)
        out.update({"violation": bad, "sig": sig(sched.trace), "nontrivial": sched.switches_in_call > 0, "worst": worst,
                    "fired": {"thread switch during a call": sched.switches_in_call, "thread stuck on a lock that is not simulated": sched.stuck},
                    "count": {"calls": len(sc["ops"]), "instants": sched.total, "scheduling decisions": len(sched.trace)}})
        out["fired"].update({"memory": sum(1 for n in fails if "memory" in sc["ops"][n]), "failing call": sum(1 for n in fails if "memory" not in sc["ops"][n])})
        out["fired"] = {k: v for k, v in out["fired"].items() if v}
        return out


# ---------------------------------------------------------------- C10
EARTH = ["wgs84", "grs80", "airy", "clarke1866", "bessel", "intl", "wgs72"]
CONVERSIONS = ("to_lon180", "to_ellipsoid_height", "to_ecef", "to_wgs84", "to_enu")
POS_TOL = 1e-4  # metres


def earth_names():
    t = model.ellipsoids()
    return sorted(n for n, (a, b) in t.items() if 6.37e6 < a < 6.385e6 and 6.35e6 < b < 6.385e6)


def put_grids(world):
    """the geoid grids of a healthy machine"""
    for v, f in model.GRIDFILE.items():
        world.write("grids/" + f, model.make_grid(*model.GRIDS[v]))


class Heights:
    """heights of the geoids, from pristine copies of the grids"""

    def __init__(self, base, **size):
        import os

        self.dir = os.path.join(base, "pristine")
        os.makedirs(self.dir, exist_ok=True)
        for v, f in model.GRIDFILE.items():
            with open(os.path.join(self.dir, f), "wb") as h:
                h.write(model.make_grid(*model.GRIDS[v], **size))
        self.memo = {}

    def __call__(self, v, P):
        import os

        need = [tuple(map(float, p[:2])) for p in P]
        new = [k for k in need if (v, k) not in self.memo]
        if new:
            for k, h in zip(new, model.geoid_height(os.path.join(self.dir, model.GRIDFILE[v]), new)):
                self.memo[v, k] = h
        return np.array([self.memo[v, k] for k in need])


def damage(world, v, how):
    """break, or repair, a geoid grid (its file is replaced: who has it open keeps the former one)"""
    import os

    p = world.p("grids", model.GRIDFILE[v])
    good = model.make_grid(*model.GRIDS[v])
    if how == "missing":
        if os.path.exists(p):
            os.unlink(p)
        return
    data = {"repair": good, "cut": good[: len(good) * 2 // 3], "empty": b"", "header": b"P6" + good[2:], "noscale": good.replace(b"# Scale", b"# Skale"),
            "short": good[:-2], "size": good.replace(b"72 37", b"72 39"), "garbage": bytes((i * 7919) % 251 for i in range(6000))}[how]
    with open(p + ".new", "wb") as f:
        f.write(data)
    os.rename(p + ".new", p)


DAMAGES = ("missing", "cut", "empty", "header", "noscale", "short", "size", "garbage")


def places(r, n=None):
    """reference systems, and points in them"""
    names = earth_names()

    def org():
        return [round(r.uniform(-180, 180), 3), round(r.uniform(-85, 85), 3), round(r.uniform(-200, 3000), 1)]

    def ell():
        if r.random() < 0.15:
            a = r.uniform(6.3775e6, 6.3785e6)
            return [round(a, 3), round(a * (1 - 1 / r.uniform(290, 305)), 4)]
        return r.choice(names) if r.random() < 0.7 else "wgs84"

    crs, arrays = [], []
    for _ in range(n or r.choice([1, 1, 2])):
        ref = r.choice(["ellps"] * 5 + ["enu", "ecef", "cart"])
        c = {"ref": ref}
        if ref in ("ellps", "enu"):
            c["ell"] = ell()
            c["vdatum"] = r.choice(["ellps", "egm84", "egm96", "egm2008", "egm96"])
        if ref == "enu":
            c["org"] = org()
            if r.random() < 0.7:
                c["vdatum"] = "ellps"
        crs.append(c)
        n = r.randint(1, 5)
        if ref == "ellps":
            lon0, lat0 = r.choice([r.uniform(-179, 359), 179.9, 0.0, 359.9]), r.choice([r.uniform(-88, 88), 0.0, 85.0])
            w = r.choice([1, 1, 12])
            lat0 = max(-75, min(75, lat0)) if w > 1 else lat0
            P = [[max(-180.0, min(360.0, round(lon0 + r.uniform(-1, 1) * r.choice([0.01, w]), 6))), round(lat0 + r.uniform(-1, 1) * r.choice([0.01, w]), 6),
                  round(r.uniform(-500, 5000), 2)] for _ in range(n)]
        elif ref == "ecef":
            P = [[round(float(x), 3) for x in model.geodetic_to_ecef([[r.uniform(-180, 180), r.uniform(-88, 88), r.uniform(-500, 5000)]], model.WGS84)[0]] for _ in range(n)]
        else:
            P = [[round(r.uniform(-2000, 2000), 2) for _ in range(3)] for _ in range(n)]
        how = r.choice(["plain"] * 5 + ["fortran", "strided", "readonly", "int"])
        if how == "int":
            P = [[float(int(x)) for x in p] for p in P]
        arrays.append({"points": P, "how": how, "crs": len(crs) - 1})
    return org, crs, arrays


class C10(Session):
    id = "C10"
    runs = {"quick": 5000, "thorough": 200000}
    rule = ("seeded sessions of 3 to 14 conversions of 1 to 3 datasets that may share arrays and reference systems, with interruptions, memory "
            "failures, I/O errors on and damage of the geoid grids; non-trivial: a dataset was converted after a failed conversion, or a "
            "conversion that changes coordinates completed; distinct: by the sequence of conversions, faults and outcomes")
    real = ["geec.dataset", "geec.crs", "geec.mass", "pymap3d", "pygeodesy", "numpy"]
    stubs = ["geoid grids (small synthetic ones)", "file system faults (LD_PRELOAD layer)", "delivery of signals and memory failures"]

    def start(self):
        import pygeodesy.geoids

        # the interpolation in a grid keeps a state, in plain Python
        self.roots = (rt.REPO + "/geec", pygeodesy.geoids.__file__)
        self.world = rt.World(self.base, "c10")
        self.heights = Heights(self.base)

    def gen(self, r, tier):
        org, crs, arrays = places(r)
        ds = []
        for _ in range(r.choice([1, 2, 2, 3])):
            ds.append(r.randrange(len(arrays)))
        ops = []
        p_int = r.choice([0, 0.15, 0.4])
        p_dmg = r.choice([0, 0, 0.15, 0.35])
        p_io = r.choice([0, 0.3, 0.7])
        p_rep = r.choice([0, 0, 0.2, 0.4])
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if k < p_dmg:
                ops.append({"op": "damage", "grid": r.choice(["egm84", "egm96", "egm2008"]), "how": r.choice(DAMAGES + ("repair",) * 4)})
                continue
            if k > 1 - p_rep:
                # another dataset in the place of one that is gone, and the same conversion again
                last = next((o for o in reversed(ops) if o["op"] not in ("damage", "replace") and o["ds"] >= 0), None)
                k = last["ds"] if last else r.randrange(len(ds))
                ops.append(self._other(r, crs[arrays[ds[k]]["crs"]], arrays[ds[k]]["points"]) | {"op": "replace", "ds": k})
                if last:
                    ops.append({x: y for x, y in last.items() if x != "fault"} | {"interrupt": None})
                continue
            name = r.choice(CONVERSIONS + ("to_ellipsoid_height",)) if ops or r.random() < 0.5 else "to_ellipsoid_height"
            o = {"op": name, "ds": r.randrange(len(ds)), "interrupt": interruption(r, p_int, 0.3)}
            if name == "to_enu":
                o["org"] = org()
            if r.random() < 0.08:
                o["ds"] = -1  # all of them, as mass bodies
            else:
                o["via"] = r.choice(["", "", "mass", "observer"])
            if not o["interrupt"] and name == "to_ellipsoid_height" and r.random() < p_io:
                o["fault"] = {"cls": "grid", "op": r.choice(["open", "read", "read"]), "nth": r.choice([0, 0, 1, 2, 3, 5]),
                              "do": r.choice(["err", "err", "short", "sticky"]), "arg": 0}
                o["fault"]["arg"] = r.choice([1, 7, 100]) if o["fault"]["do"] == "short" else r.choice(["EIO", "EINTR", "EMFILE", "EACCES"])
                if o["fault"]["do"] == "sticky":
                    o["fault"]["arg"] = "EIO"
                if o["fault"]["op"] == "open" and o["fault"]["do"] == "short":
                    o["fault"]["op"] = "read"
            ops.append(o)
            if (o["interrupt"] or o.get("fault")) and r.random() < 0.6:
                ops.append({k: v for k, v in o.items() if k != "fault"} | {"interrupt": None})
        return {"crs": crs, "arrays": arrays, "ds": ds, "ops": ops}

    def run(self, sc):
        import os

        for v in model.GRIDFILE:
            damage(self.world, v, "repair")
        counts = [None] * len(sc["ops"])
        if any(o.get("interrupt") for o in sc["ops"]):
            counts = isolated(self._play, sc, None)
            for v in model.GRIDFILE:
                damage(self.world, v, "repair")
        return isolated(self._play, sc, counts)

    @staticmethod
    def _other(r, c, P):
        """a system of the same kind with other parameters, and as many other points in it"""
        names = earth_names()
        c = dict(c)
        if "ell" in c:
            c["ell"] = r.choice([c["ell"], r.choice(names)])
        if "org" in c:
            c["org"] = r.choice([c["org"], [round(r.uniform(-180, 180), 3), round(r.uniform(-85, 85), 3), 100.0]])
        if c["ref"] == "ellps":
            Q = [[round(r.uniform(-179, 359), 6), round(r.uniform(-75, 75), 6), round(r.uniform(-500, 5000), 2)] for _ in P]
        elif c["ref"] == "ecef":
            Q = [[round(float(x), 3) for x in model.geodetic_to_ecef([[r.uniform(-180, 180), r.uniform(-88, 88), r.uniform(-500, 5000)]], model.WGS84)[0]] for _ in P]
        else:
            Q = [[round(r.uniform(-2000, 2000), 2) for _ in range(3)] for _ in P]
        return {"crs": c, "points": Q}

    @staticmethod
    def _crs(c):
        import geec.crs as K

        ell = None
        if "ell" in c:
            ell = K.Ellipsoid(name=c["ell"]) if isinstance(c["ell"], str) else K.Ellipsoid(semimajor_axis=c["ell"][0], semiminor_axis=c["ell"][1])
        enu = None
        if c["ref"] == "enu":
            enu = K.ENU(longitude_origin=c["org"][0], latitude_origin=c["org"][1], altitude_origin=c["org"][2], ellps=ell)
        return K.CRS(name=K.CRSEnum(c["ref"]), ellps=ell, enu=enu, vdatum=K.VDatumEnum(c.get("vdatum", "ellps")))

    @staticmethod
    def _describe(ds):
        """coordinates and reference system of a dataset, copied"""
        c = ds.crs
        ab = None if c.ellps is None else (float(c.ellps.semimajor_axis), float(c.ellps.semiminor_axis))
        org = None if c.enu is None else (float(c.enu.longitude_origin), float(c.enu.latitude_origin), float(c.enu.altitude_origin))
        eab = None if c.enu is None else (float(c.enu.ellps.semimajor_axis), float(c.enu.ellps.semiminor_axis))
        return {"coords": np.array(ds.coords), "ref": str(c.name.value), "ab": ab, "org": org, "eab": eab, "vdatum": str(c.vdatum.value)}

    @staticmethod
    def _same(a, b):
        return (all(a[k] == b[k] for k in ("ref", "ab", "org", "eab", "vdatum")) and a["coords"].shape == b["coords"].shape
                and a["coords"].tobytes() == b["coords"].tobytes())

    @staticmethod
    def _position(d):
        """where the points of a dataset are: geocentric coordinates"""
        P = np.array(d["coords"], dtype=float)
        if P.ndim != 2 or P.shape[1] != 3:
            raise Violation("shape", f"coordinates have become {P.shape}")
        if d["ref"] == "ellps":
            if d["ab"] is None:
                raise Violation("crs", "ellipsoidal coordinates without an ellipsoid")
            return model.geodetic_to_ecef(P, d["ab"])
        if d["ref"] == "enu":
            if d["org"] is None or d["ab"] is None:
                raise Violation("crs", "local coordinates without an origin or ellipsoid")
            return model.enu_to_ecef(P, d["org"], d["eab"])
        return P

    def _play(self, sc, counts):
        import geec.crs  # noqa
        import geec.mass
        import geec.observer
        from geec.dataset import Dataset

        dry = counts is None
        slot = rt.Slot()
        world = self.world
        L = rt.lib()
        arrays = [make_array(a["points"], a["how"]) for a in sc["arrays"]]
        keep = [a.tobytes() for a in arrays]
        crss = [self._crs(c) for c in sc["crs"]]
        D = [Dataset(coords=arrays[i], crs=crss[sc["arrays"][i]["crs"]]) for i in sc["ds"]]
        pos = [self._position(self._describe(d)) for d in D]
        damaged = {}
        trace, fired, events = [], {}, []
        changed = after = 0
        had_failure = [False] * len(D)
        worst = 0.0
        rt._setup_os(slot, world, {}, None)

        def check(k, before, op, n, want_pos, ok):
            """state of dataset k after an operation on it"""
            nonlocal worst
            now = self._describe(D[k])
            if not ok and self._same(before, now):
                return
            err = np.abs(self._position(now) - want_pos).max() if now["coords"].shape == before["coords"].shape else math.inf
            if not err <= POS_TOL:
                raise Violation("position", f"operation {n} ({op['op']} on dataset {k}, {before['ref']} {before['vdatum']} to {now['ref']} {now['vdatum']}): "
                                f"points are off by {err:.6g} m" + ("" if ok else " after a failure"))
            worst = max(worst, err / POS_TOL)
            if ok:
                goal = {"to_ecef": ("ecef", "cart"), "to_wgs84": ("ellps", "cart"), "to_enu": ("enu", "cart")}.get(op["op"], (before["ref"],))
                if now["ref"] not in goal:
                    raise Violation("crs", f"operation {n} ({op['op']}): reference system {now['ref']} from {before['ref']}")
                if op["op"] == "to_wgs84" and now["ref"] == "ellps" and max(abs(x - y) for x, y in zip(now["ab"], model.WGS84)) > 1e-3:
                    raise Violation("crs", f"operation {n} (to_wgs84): ellipsoid {now['ab']}")
                if op["op"] == "to_lon180" and now["ref"] == "ellps" and (now["coords"][:, 0] > 180).any():
                    raise Violation("longitude", f"operation {n}: longitudes {now['coords'][:, 0]}")
                if op["op"] == "to_ellipsoid_height" and now["ref"] == "ellps" and now["vdatum"] != "ellps":
                    raise Violation("crs", f"operation {n}: vertical datum still {now['vdatum']}")
            if op["op"] != "to_ellipsoid_height" and now["vdatum"] != before["vdatum"]:
                raise Violation("crs", f"operation {n} ({op['op']}): vertical datum {before['vdatum']} has become {now['vdatum']}")

        for n, o in enumerate(sc["ops"]):
            if o["op"] == "damage":
                damage(world, o["grid"], o["how"])
                damaged[o["grid"]] = o["how"] != "repair"
                events.append(None)
                if o["how"] != "repair":
                    fired["grid " + o["how"]] = fired.get("grid " + o["how"], 0) + 1
                trace.append((o["op"], o["grid"], o["how"]))
                continue
            if o["op"] == "replace":
                events.append(None)
                before = args = f = ms = v = e = inter = None  # nothing keeps the dataset
                D[o["ds"]] = None
                D[o["ds"]] = Dataset(coords=make_array(o["points"], "plain"), crs=self._crs(o["crs"]))
                pos[o["ds"]] = self._position(self._describe(D[o["ds"]]))
                had_failure[o["ds"]] = False
                trace.append((o["op"], o["ds"]))
                continue
            targets = list(range(len(D))) if o["ds"] < 0 else [o["ds"]]
            before = [self._describe(d) for d in D]
            want = {}
            needs = set()
            unwrapped = False
            for k in targets:
                b = before[k]
                want[k] = pos[k]
                # longitudes have to be wrapped first: geec may refuse them otherwise, not misplace them
                unwrapped |= o["op"] == "to_ellipsoid_height" and b["ref"] == "ellps" and bool((np.abs(b["coords"][:, 0]) > 180).any())
                if o["op"] == "to_ellipsoid_height" and b["ref"] == "ellps" and b["vdatum"] != "ellps":
                    needs.add(b["vdatum"])
                    c = np.array(b["coords"], dtype=float)
                    c[:, 2] += self.heights(b["vdatum"], model.wrap180(c))
                    want[k] = model.geodetic_to_ecef(c, b["ab"])
            args = o.get("org", [])
            if o["ds"] < 0:
                ms = [geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=d) for d in D]
                f = getattr(geec.mass, o["op"])
                args = [ms, *args]
            elif o.get("via") == "mass":
                f = getattr(geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=D[o["ds"]]), o["op"])
            elif o.get("via") == "observer":
                f = getattr(geec.observer.Observer(dataset=D[o["ds"]]), o["op"])
            else:
                f = getattr(D[o["ds"]], o["op"])
            it = o.get("interrupt")
            inter = interrupter(it, None if dry else rt.at_event(it, counts[n]), root=self.roots) if it else None
            slot.clear()
            L.sim_noplan()
            ft = o.get("fault")
            if ft and not dry:
                import errno

                L.sim_plan(rt.OPNUM[ft["op"]], rt.CLASSES["grid"], ft["nth"], rt.ACTIONS[ft["do"]],
                           getattr(errno, ft["arg"]) if isinstance(ft["arg"], str) else ft["arg"])
            L.sim_arm(1)
            try:
                if inter:
                    v, e = under(inter, f, *args)
                else:
                    try:
                        v, e = f(*args), None
                    except Exception as x:
                        v, e = None, x
            finally:
                L.sim_arm(0)
            events.append(inter.count if inter else None)
            hits = [x.fault + " " + x.op for x in slot.read()[0] if x.fault]
            for h in hits:
                fired[f"grid {h}"] = fired.get(f"grid {h}", 0) + 1
            if dry:
                continue
            if inter and inter.where:
                fired[it["kind"]] = fired.get(it["kind"], 0) + 1
            cause = (inter and inter.where) or hits or any(damaged.get(x) for x in needs) or unwrapped
            if e is not None and not cause:
                raise Violation("exception", f"operation {n} ({o['op']} on {[before[k]['ref'] for k in targets]}) failed: {e!r}")
            if e is not None and not (inter and inter.where) and not hits:
                k = "conversion refused: " + ("damaged grid" if any(damaged.get(x) for x in needs) else "longitude")
                fired[k] = fired.get(k, 0) + 1
            for k in range(len(D)):
                now = self._describe(D[k])
                if k not in targets:
                    if not self._same(before[k], now):
                        raise Violation("influence", f"operation {n} ({o['op']} on dataset {targets}) changed dataset {k}")
                    continue
                if e is not None and o["ds"] >= 0 and not self._same(before[k], now):
                    raise Violation("failed", f"operation {n} ({o['op']}) failed ({e!r}) but changed dataset {k}: {before[k]['ref']} {before[k]['vdatum']} "
                                    f"to {now['ref']} {now['vdatum']}")
                check(k, before[k], o, n, want[k], e is None)
                if not self._same(before[k], now):
                    pos[k] = want[k]
                    changed += 1
                    after += had_failure[k]
                if e is not None:
                    had_failure[k] = True
            for j, (a, b) in enumerate(zip(arrays, keep)):
                if a.tobytes() != b:
                    raise Violation("argument", f"operation {n} ({o['op']}) changed the array given by the caller")
            trace.append((o["op"], tuple(targets), [before[k]["ref"] for k in targets], it and (it["kind"], inter.where), hits, e is None))
        if dry:
            return events
        return {"sig": sig(trace), "nontrivial": changed > 0, "fired": fired, "worst": worst,
                "count": {"conversions": len(sc["ops"]), "conversions that changed a dataset": changed, "of these after a failure": after}}


# ---------------------------------------------------------------- C13
class C13(Session):
    id = "C13"
    runs = {"quick": 3000, "thorough": 60000}
    rule = ("seeded programs that report elapsed times, while the system clock is stepped forwards and backwards; non-trivial: the clock was "
            "stepped between the start and a report; distinct: by the sequence of reports, delays and steps")
    real = ["geec.timing", "loguru", "interpreter exit"]
    stubs = ["system clocks (LD_PRELOAD layer)"]

    def gen(self, r, tier):
        ops = []
        for _ in range(r.randint(1, 10)):
            k = r.random()
            if k < 0.35:
                ops.append({"op": "wait", "s": r.choice([r.uniform(0, 5), r.uniform(0, 4000), r.uniform(0, 4e5), 0.001, 59.999, 3600.0, 86400.0])})
            elif k < 0.7:
                ops.append({"op": "step", "s": r.choice([-1, 1]) * r.choice([0.5, 1.0, r.uniform(0, 100), 3600.0, r.uniform(0, 1e6), 3e7])})
            elif k < 0.9:
                ops.append({"op": "mid"})
            else:
                ops.append({"op": "log"})
        return {"ops": ops, "end": r.choice(["normal", "normal", "error"]), "time": r.choice([1.7e9, 1.6e9 + r.uniform(0, 1e8), 4.0e8]), "mono": r.choice([3.0, 5000.0, r.uniform(0, 1e7)]), "tick": r.choice([0, 1000, 50000])}

    def run(self, sc):
        return isolated(self._play, sc)

    def _play(self, sc):
        import atexit
        import re

        from loguru import logger

        lines = []
        logger.remove()
        logger.add(lambda m: lines.append(str(m).rstrip("\n")), level="DEBUG", format="{message}")
        slot = rt.Slot()
        slot.clear()
        rt._setup_os(slot, None, {"os": {"time": sc["time"], "mono": sc["mono"], "tick": sc["tick"]}}, None)
        L = rt.lib()
        L.sim_arm(1)
        mono = lambda: L.sim_clock_mono() / 1e9  # noqa
        reports, steps, fired = 0, 0, {}
        pat = re.compile(r"^Elapsed time: (.*)$")

        def elapsed(text):
            m = re.fullmatch(r"(?:(-?\d+) days?, )?(-?)(\d+):(\d\d):(\d\d)(?:\.(\d+))?", text)
            if not m:
                raise Violation("format", f"elapsed time is given as {text!r}")
            d, sg, h, mi, s, f = m.groups()
            v = int(d or 0) * 86400 + int(h) * 3600 + int(mi) * 60 + int(s) + (float("0." + f) if f else 0)
            return -v if sg else v

        def report(f, what):
            nonlocal reports
            del lines[:]
            c0 = mono()
            try:
                f()
            except Exception as e:
                raise Violation("exception", f"{what}: {e!r}")
            c1 = mono()
            got = [m.group(1) for m in map(pat.match, lines) if m]
            if len(got) != 1:
                raise Violation("report", f"{what}: {len(got)} elapsed times reported in {lines}")
            v = elapsed(got[0])
            if v < 0:
                raise Violation("negative", f"{what}: elapsed time {got[0]}")
            if not c0 - m1 - 2e-3 <= v <= c1 - m0 + 2e-3:
                raise Violation("elapsed", f"{what}: elapsed time {got[0]} after {c0 - m1:.6f} s")
            reports += 1

        m0 = mono()
        try:
            import geec.timing as timing
        except Exception as e:
            raise Violation("exception", f"start: {e!r}")
        m1 = mono()
        atexit.register(lambda: None)
        stepped = 0
        for o in sc["ops"]:
            if o["op"] == "wait":
                L.sim_clock_advance(int(o["s"] * 1e9))
            elif o["op"] == "step":
                L.sim_clock_step(int(o["s"] * 1e9))
                steps += 1
                fired["clock step " + ("back" if o["s"] < 0 else "forward")] = fired.get("clock step " + ("back" if o["s"] < 0 else "forward"), 0) + 1
            elif o["op"] == "mid":
                report(lambda: timing.midlog("now"), "midlog")
                stepped += steps > 0
            else:
                try:
                    timing.log("a message")
                except Exception as e:
                    raise Violation("exception", f"log: {e!r}")
        # the end of the program reports too
        if sc.get("end") == "error":
            try:
                raise ValueError("an error of the program")
            except ValueError as e:
                rt.leave_error(e)
            fired["end with an error"] = 1
        report(atexit._run_exitfuncs, "end of the program")
        stepped += steps > 0
        L.sim_arm(0)
        return {"sig": sig([(o["op"], o.get("s")) for o in sc["ops"]]), "nontrivial": stepped > 0, "fired": fired, "sim": mono() - m0,
                "count": {"elapsed times reported": reports}}


# ---------------------------------------------------------------- C17
class C17(C03):
    id = "C17"
    patch = "locks"
    runs = {"quick": 6000, "thorough": 400000}
    rule = ("seeded schedules of 2 to 4 threads making 1 to 5 conversions each on datasets of their own, which may be made from the same array and reference "
            "system, with and without damaged grids and memory failures, switched at chosen instants of the conversions and of the interpolation in the "
            "geoid grids; non-trivial: at least one switch while a conversion was under way; distinct: by the sequence of (thread, instants run)")
    real = ["geec.dataset", "geec.crs", "geec.mass", "geec.observer", "pymap3d", "pygeodesy", "numpy", "interpreter threads"]
    stubs = ["thread scheduler", "locks created by geec", "geoid grids (small synthetic ones)"]

    start = C10.start

    def gen(self, r, tier):
        org, crs, arrays = places(r, r.choice([1, 2, 2, 3]))
        same = r.random() < 0.6
        for c in crs:
            if same and c["ref"] == "ellps":
                c["vdatum"] = "egm96"
        nt = r.choice([2, 2, 2, 3, 4])
        ds, ops = [], []
        for t in range(nt):
            mine = []
            for _ in range(r.choice([1, 1, 2])):
                mine.append(len(ds))
                ds.append(r.randrange(len(arrays)))
            n = r.randint(1, 5 if nt < 4 else 2)
            for i in range(n):
                name = r.choice(CONVERSIONS + ("to_ellipsoid_height",) * 3) if i else r.choice(["to_lon180", "to_ellipsoid_height", "to_ellipsoid_height", "to_ecef"])
                o = {"t": t, "op": name, "ds": r.choice(mine), "via": r.choice(["", "", "mass", "observer"])}
                if name == "to_enu":
                    o["org"] = org()
                if r.random() < 0.04:
                    o["memory"] = r.choice([r.randrange(1, 10), r.randrange(1, 200)])
                ops.append(o)
        if r.random() < 0.45:  # all of them do the same, at different places
            names = r.choice([["to_enu"], ["to_ecef"], ["to_wgs84"], ["to_ellipsoid_height"], ["to_lon180"], ["to_ecef", "to_enu"], ["to_lon180", "to_ellipsoid_height"],
                              ["to_ecef", "to_wgs84"], ["to_wgs84", "to_enu"], ["to_enu", "to_wgs84"]])
            ds = [r.randrange(len(arrays)) for t in range(nt)]
            ops = [{"t": t, "op": n, "ds": t, "via": r.choice(["", "", "mass", "observer"]), **({"org": org()} if n == "to_enu" else {})} for t in range(nt) for n in names]
        return {"crs": crs, "arrays": arrays, "ds": ds, "ops": ops,
                "damage": [[r.choice(["egm96", "egm96", "egm84", "egm2008"]), r.choice(DAMAGES)]] if r.random() < 0.12 else [],
                "sched": {"seed": r.randrange(1 << 30), "mean": r.choice([1, 3, 10, 40, 150]), "style": r.choice(["random", "random", "priority", "robin", "long", "long"]),
                          "fine": r.random() < 0.5, "deep": r.random() < 0.5}}

    def run(self, sc):
        for v in model.GRIDFILE:
            damage(self.world, v, "repair")
        for v, how in sc["damage"]:
            damage(self.world, v, how)
        return isolated(self._session, sc)

    def shrink(self, sc):
        if sc["damage"]:
            yield dict(sc, damage=[])
        yield from super().shrink(sc)

    def judge(self, who, o, before, now, error, fault, damaged=()):
        """a conversion: what is wrong with it, its error, what made it fail"""
        b = before
        need = o["op"] == "to_ellipsoid_height" and b["ref"] == "ellps" and b["vdatum"] != "ellps"
        what = f"{who} ({o['op']} of dataset {o['ds']}, {b['ref']} {b['vdatum']})"
        kind = None
        if error is not None:
            if fault:
                kind = fault
            elif need and b["vdatum"] in damaged:
                kind = "conversion refused: damaged grid"
            elif o["op"] == "to_ellipsoid_height" and b["ref"] == "ellps" and (np.abs(b["coords"][:, 0]) > 180).any():
                kind = "conversion refused: longitude"
            else:
                return ("exception", f"{what} failed: {error!r}"), 0, None
            if C10._same(before, now):
                return None, 0, kind
        try:
            want = C10._position(before)
            if need:
                c = np.array(b["coords"], dtype=float)
                c[:, 2] += self.heights(b["vdatum"], model.wrap180(c))
                want = model.geodetic_to_ecef(c, b["ab"])
            err = np.abs(C10._position(now) - want).max()
        except Violation as e:
            return e.args, 0, kind
        if not err <= POS_TOL:
            return ("position", f"{what}: points are off by {err:.6g} m"), 0, kind
        if error is None and need and now["vdatum"] != "ellps":
            return ("crs", f"{what}: vertical datum still {now['vdatum']}"), 0, kind
        return None, err / POS_TOL, kind

    def _session(self, sc):
        import geec.crs  # noqa
        import geec.mass
        import geec.observer
        from geec.dataset import Dataset
        from geecsim.threads import Scheduler

        arrays = [make_array(a["points"], a["how"]) for a in sc["arrays"]]
        keep = [a.tobytes() for a in arrays]
        crss = [C10._crs(c) for c in sc["crs"]]
        D = [Dataset(coords=arrays[i], crs=crss[sc["arrays"][i]["crs"]]) for i in sc["ds"]]
        damaged = {v for v, _ in sc["damage"]}
        nt = 1 + max((o["t"] for o in sc["ops"]), default=0)
        fails, steps = {}, {}

        def program(mine):
            def f():
                for n, o in mine:
                    d = D[o["ds"]]
                    h = d
                    if o["via"] == "mass":
                        h = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=d)
                    elif o["via"] == "observer":
                        h = geec.observer.Observer(dataset=d)
                    before = C10._describe(d)
                    sched.me().memory = o.get("memory", 0)
                    try:
                        getattr(h, o["op"])(*o.get("org", []))
                    except Exception as e:
                        fails[n] = e
                    finally:
                        left, sched.me().memory = sched.me().memory, 0
                    steps[n] = (before, C10._describe(d), bool(o.get("memory")) and not left)

            return f

        L = rt.lib()
        slot = rt.Slot()
        rt._setup_os(slot, self.world, {}, None)
        L.sim_clock_on(0)  # (no conversion looks at it, but the scheduler waits by it)
        sched = Scheduler(self.decider(sc["sched"]), fine=sc["sched"].get("fine", False), root=self.roots if sc["sched"].get("deep", True) else self.roots[:1])
        for t in range(nt):
            sched.add(program([(n, o) for n, o in enumerate(sc["ops"]) if o["t"] == t]))
        L.sim_arm(1)
        try:
            end = sched.run()
        finally:
            L.sim_arm(0)
        out = {"schedule": sched.trace}
        bad = None
        if end:
            bad = (end, f"{end}: " + ", ".join(f"thread {t.i} {t.state}" for t in sched.threads))
        for t in sched.threads:
            if t.error is not None and not bad:
                bad = ("exception", f"thread {t.i} failed: {t.error!r}")
        worst = 0.0
        fired = {}
        for n, o in enumerate(sc["ops"]):
            if bad:
                break
            before, now, oom = steps[n]
            bad, err, kind = self.judge(f"thread {o['t']}, conversion {n}", o, before, now, fails.get(n), "memory" if oom else None, damaged)
            if kind:
                fired[kind] = fired.get(kind, 0) + 1
            worst = max(worst, err)
        for i, (a, k) in enumerate(zip(arrays, keep)):
            if a.tobytes() != k and not bad:
                bad = ("array", f"the caller's array {i} has changed")
        last = {}
        for n, o in enumerate(sc["ops"]):
            last[o["ds"]] = n
        for k, n in last.items():
            if not bad and not C10._same(steps[n][1], C10._describe(D[k])):
                bad = ("later", f"dataset {k} has changed after its last conversion")
        fired["thread switch during a conversion"] = sched.switches_in_call
        fired["thread stuck on a lock that is not simulated"] = sched.stuck
        for v, how in sc["damage"]:
            fired["grid " + how] = 1
        out.update({"violation": bad, "sig": sig(sched.trace), "nontrivial": sched.switches_in_call > 0, "worst": worst, "fired": {k: v for k, v in fired.items() if v},
                    "count": {"conversions": len(sc["ops"]), "instants": sched.total, "scheduling decisions": len(sched.trace)}})
        return out


# ---------------------------------------------------------------- C19
GRIDSIZE = {"width": 360, "height": 181}  # larger than what is read at once


class C19(C17):
    id = "C19"
    patch = "locks"
    runs = {"quick": 2000, "thorough": 120000}
    rule = ("seeded sessions of a process that converts and computes, in 1 or 2 threads, and forks 1 to 3 times, each time 1 to 3 processes that go on with "
            "what it has (as it is, or sent as a pickle); thread switches at chosen instants, processes interleaved at chosen instants and reads of the geoid grids, kills, read errors; "
            "non-trivial: a process was forked while another thread was in a call, or after a grid had been used, and did something; distinct: by the schedules "
            "of threads and of reads")
    real = ["geec.polyhedron", "geec.station", "geec.dataset", "geec.crs", "geec.mass", "geec.observer", "pymap3d", "pygeodesy", "numpy", "numba", "pickle",
            "fork", "interpreter threads", "operating system (files shared by the processes)"]
    stubs = ["thread scheduler", "locks created by geec", "order of the processes (LD_PRELOAD layer)", "geoid grids (small synthetic ones)"]

    def start(self):
        import pygeodesy.geoids

        self.roots = (rt.REPO + "/geec", pygeodesy.geoids.__file__)
        self.world = rt.World(self.base, "c19")
        self.heights = Heights(self.base, **GRIDSIZE)
        for v, f in model.GRIDFILE.items():
            self.world.write("grids/" + f, model.make_grid(*model.GRIDS[v], **GRIDSIZE))

    def gen(self, r, tier):
        nb = r.choice([1, 1, 2])
        bodies, B = gen_bodies(r, nb)
        for b in bodies:
            if b["how"] == "readonly":
                b["how"] = "plain"
        org, crs, arrays = places(r, r.choice([2, 3, 3, 4]))
        lean = r.choice(["height", "height", "field", "both"])
        wide = lean == "height" and r.random() < 0.7  # every process reads all over the grid
        for a in arrays:
            c = crs[a["crs"]]
            if wide:
                c.clear()
                c.update(ref="ellps", ell="wgs84", vdatum="egm96")
                a["how"] = "plain"
                a["points"] = [[round(r.uniform(-179, 179), 4), round(r.uniform(-80, 80), 4), round(r.uniform(-100, 3000), 1)] for _ in range(r.randint(3, 10))]
            elif c["ref"] == "ellps" and r.random() < 0.8:
                c["vdatum"] = "egm96"
        ds, own = [], [[], []]
        for t in (0, 1):
            for _ in range(r.choice([2, 3, 4]) if t == 0 else 2):
                own[t].append(len(ds))
                ds.append(r.randrange(len(arrays)))

        def op(t, first=False):
            field = {"height": 0.1, "field": 0.8, "both": 0.45}[lean]
            if r.random() < field:
                i = r.randrange(nb)
                o = {"op": r.choice(["field", "field", "station", "build"]), "body": i, "at": gen.station(r, B[i], [b for j, b in enumerate(B) if j != i]),
                     "rho": gen.density(r), "G": gen.constant(r), "grad": r.random() < 0.5}
            else:
                o = {"op": r.choice(["to_ellipsoid_height"] * 5 + ["to_lon180", "to_ecef", "to_wgs84", "to_enu"]), "ds": r.choice(own[t]),
                     "via": r.choice(["", "", "mass", "observer"])}
                if o["op"] == "to_enu":
                    o["org"] = org()
            return o

        def kid():
            k = {"ops": [op(0) for _ in range(r.randint(1, 4))], "sent": r.random() < 0.3, "pool": pool}
            if pool and r.random() < 0.5:
                k["ops"] = []
            elif wide and r.random() < 0.8:
                k["ops"].insert(0, {"op": "to_ellipsoid_height", "ds": r.choice(own[0][:-1]), "via": ""})
            x = r.random()
            k["stride"] = r.choice([0, 0, 1, 4, 25])
            if x < 0.12:
                k["kill"] = r.choice([r.randrange(0, 12), r.randrange(0, 200 if k["stride"] else 12)])
            elif x < 0.24:
                k["fault"] = {"op": "read", "nth": r.choice([0, 0, 1, 2, 4]), "do": r.choice(["err", "err", "short"]), "arg": "EIO"}
                if k["fault"]["do"] == "short":
                    k["fault"]["arg"] = r.choice([1, 7, 100])
            return k

        ops = [dict(op(0), t=0) for _ in range(r.randint(0, 3))]
        if wide and r.random() < 0.8:
            ops.append({"op": "to_ellipsoid_height", "ds": own[0][0], "via": "", "t": 0})
            own[0].append(own[0].pop(0))
        pools = []
        for _ in range(r.choice([1, 1, 2, 3])):
            pool = r.random() < 0.4
            n = r.choice([1, 2, 2, 3])
            way = {"seed": r.randrange(1 << 30), "mean": r.choice([1, 2, 5, 1000])}
            if pool:
                pools.append((len(pools), n))
            ops.append({"t": 0, "op": "fork", "kids": [kid() for _ in range(n)], "pool": len(pools) - 1 if pool else None, **way})
            ops += [dict(op(0), t=0) for _ in range(r.randint(0, 2))]
            if pools and r.random() < 0.8:  # work for those who wait for it
                for _ in range(r.randint(1, 3)):
                    j, n = r.choice(pools)
                    ops.append({"t": 0, "op": "send", "pool": j, "seed": r.randrange(1 << 30), "mean": r.choice([1, 2, 5, 1000]),
                                "jobs": [{"kid": i, "ops": [op(0) for _ in range(r.randint(1, 3))], "back": r.random() < 0.5} for i in range(n) if r.random() < 0.7]})
                    ops += [dict(op(0), t=0) for _ in range(r.randint(0, 2))]
        if r.random() < 0.7:
            ops += [dict(op(1), t=1) for _ in range(r.randint(1, 4))]
        return {"bodies": bodies, "crs": crs, "arrays": arrays, "ds": ds, "ops": ops,
                "sched": {"seed": r.randrange(1 << 30), "mean": r.choice([3, 10, 40, 150]), "style": r.choice(["random", "priority", "robin", "long", "long", "long"]),
                          "fine": r.random() < 0.2, "deep": r.random() < 0.5}}

    def run(self, sc):
        return isolated(self._session, sc)

    def shrink(self, sc):
        yield from Session.shrink(self, sc)
        for n, o in enumerate(sc["ops"]):
            if o["op"] == "send":
                for i, k in enumerate(o["jobs"]):
                    for jobs in [o["jobs"][:i] + o["jobs"][i + 1 :]] + [o["jobs"][:i] + [dict(k, ops=k["ops"][:j] + k["ops"][j + 1 :])] + o["jobs"][i + 1 :] for j in range(len(k["ops"]))]:
                        yield dict(sc, ops=sc["ops"][:n] + [dict(o, jobs=jobs)] + sc["ops"][n + 1 :])
            if o["op"] != "fork":
                continue

            def put(kids):
                return dict(sc, ops=sc["ops"][:n] + [dict(o, kids=kids)] + sc["ops"][n + 1 :])

            for i, k in enumerate(o["kids"]):
                if len(o["kids"]) > 1:
                    yield put(o["kids"][:i] + o["kids"][i + 1 :])
                for x in ("kill", "fault"):
                    if x in k:
                        yield put(o["kids"][:i] + [{a: b for a, b in k.items() if a != x}] + o["kids"][i + 1 :])
                if k["sent"]:
                    yield put(o["kids"][:i] + [dict(k, sent=False)] + o["kids"][i + 1 :])
                for j in range(len(k["ops"])):
                    if len(k["ops"]) > 1 or k["pool"]:
                        yield put(o["kids"][:i] + [dict(k, ops=k["ops"][:j] + k["ops"][j + 1 :])] + o["kids"][i + 1 :])
        if "list" in sc["sched"]:
            yield from C03.shrink(self, dict(sc, ops=[]) | {"ops": sc["ops"]})

    def _do(self, o, arrays, polys, D):
        """one operation: its result (fields), or the states of its dataset"""
        import geec.mass
        import geec.observer
        from geec.polyhedron import Polyhedron
        from geec.station import Station

        if "body" in o:
            at = np.array(o["at"])
            if o["op"] == "station":
                s = Station(at)
                s.compute_gravity([polys[o["body"]]], o["rho"], o["G"], o["grad"])
                return "field", (np.array(s.G), np.array(s.T)), None
            p = Polyhedron(arrays[o["body"]]) if o["op"] == "build" else polys[o["body"]]
            g, t = p.get_gravity(at, o["rho"], o["G"], o["grad"])
            return "field", (np.array(g), np.array(t)), None
        d = h = D[o["ds"]]
        if o["via"] == "mass":
            h = geec.mass.Mass(density=1.0, gravity_constant=1.0, dataset=d)
        elif o["via"] == "observer":
            h = geec.observer.Observer(dataset=d)
        before = C10._describe(d)
        error = None
        try:
            getattr(h, o["op"])(*o.get("org", []))
        except Exception as e:
            error = repr(e)
        return "conversion", (before, C10._describe(d)), error

    def _kid(self, slot, world, spec, fds, report):
        """a forked process"""
        import errno
        import os
        import pickle

        from geecsim import threads

        k = spec["kid"]
        L = rt.lib()
        L.sim_ident(4243 + spec["i"], 1)
        L.sim_sched(*fds)
        f = k.get("fault")
        if f:
            L.sim_plan(rt.OPNUM[f["op"]], rt.CLASSES["grid"], f["nth"], rt.ACTIONS[f["do"]], getattr(errno, f["arg"]) if isinstance(f["arg"], str) else f["arg"])
        left = 0

        def instant(frame, event, arg):
            nonlocal left
            if event in ("call", "c_return") and frame.f_code.co_filename.startswith(self.roots):
                left -= 1
                if left <= 0:
                    left = k["stride"]
                    L.sim_ask()

        def work(ops, get, report):
            done = report["done"] = []
            try:
                if k["stride"]:
                    sys.setprofile(instant)
                polys, D = get()
                report["have"] = {i: C10._describe(d) for i, d in D.items()}
                for o in ops:
                    done.append(self._do(o, spec["arrays"], polys, D))
                report["end"] = "done"
                return polys, D
            except threads.Deadlock as e:
                report["end"] = ("deadlock", str(e))
            except Violation as e:
                report["end"] = e.args[:2]
            except BaseException as e:
                report["end"] = ("exception", repr(e))
            finally:
                sys.setprofile(None)

        L.prctl(1, 9)  # not without its parent
        L.sim_ask()
        work(k["ops"], lambda: pickle.loads(spec["sent"]) if k["sent"] else spec["objects"], report)
        while k["pool"]:
            os.write(fds[0], b"i")
            if os.read(spec["token"], 1) != b"j":
                break
            ops, sent, back = pickle.loads(os.pread(spec["job"], os.fstat(spec["job"]).st_size, 0))
            rep = {}
            objects = work(ops, lambda: pickle.loads(sent), rep)
            if back and objects:
                rep["back"] = pickle.dumps(objects)
            data = pickle.dumps(rep)
            os.ftruncate(spec["reply"], 0)
            os.pwrite(spec["reply"], data, 0)
        sys.setprofile(None)
        L.sim_arm(0)
        return 0

    def _session(self, sc):
        import os
        import pickle

        from geec.dataset import Dataset
        from geecsim.threads import Scheduler

        arrays, keep, polys = C01._build(self, sc)
        F = Fields([b["points"] for b in sc["bodies"]])
        carr = [make_array(a["points"], a["how"]) for a in sc["arrays"]]
        crss = [C10._crs(c) for c in sc["crs"]]
        D = {k: Dataset(coords=carr[i], crs=crss[sc["arrays"][i]["crs"]]) for k, i in enumerate(sc["ds"])}
        mine = {o["ds"] for o in sc["ops"] if o["t"] == 1 and "ds" in o}  # those of the other thread
        handed = {k: d for k, d in D.items() if k not in mine}
        start = {k: C10._describe(d) for k, d in D.items()}
        L = rt.lib()
        slot = rt.Slot()
        rt._setup_os(slot, self.world, {}, None)
        L.sim_clock_on(0)
        inside = {}
        groups = []
        steps, forks = {}, {}

        pools = {}

        def go(g, o, r):
            while g.advance(1 + int(r.expovariate(1 / o["mean"])) if o["mean"] < 1000 else None):
                sched._instant(sched.me())

        def describe():
            return {k: C10._describe(d) for k, d in handed.items()}

        def fork(n, o):
            r = random.Random(o["seed"])
            sent = pickle.dumps((polys, handed)) if any(k["sent"] for k in o["kids"]) else b""
            have = describe()
            other = any(inside.get(t) for t in inside if t != o["t"])
            used = any(x.op == "read" and x.cls == "grid" for x in slot.read()[0])
            tokens = []
            specs = []
            for i, k in enumerate(o["kids"]):
                spec = {"kid": k, "i": i, "sent": sent, "objects": (polys, handed), "arrays": arrays}
                if k["pool"]:
                    tr, tw = rt.pipe()
                    tokens.append(tw)
                    spec.update(token=tr, job=rt.memfd("job"), reply=rt.memfd("reply"))
                specs.append(spec)
            way = [r]
            g = rt.Group(self.world, specs, lambda ready, count: way[0].choice(ready), {i: k["kill"] for i, k in enumerate(o["kids"]) if "kill" in k}, kind=self._kid)
            slot.clear()
            forks[n] = (g, have, other, used)
            groups.append(g)
            if o["pool"] is not None:
                pools[o["pool"]] = (g, specs, tokens, way)
            go(g, o, r)

        def send(n, o):
            steps[n] = []
            if o["pool"] not in pools:
                return
            g, specs, tokens, way = pools[o["pool"]]
            r = way[0] = random.Random(o["seed"])
            woken = []
            for j in o["jobs"]:
                i = j["kid"]
                if i >= len(specs) or g.state[i] != "idle":
                    continue
                data = pickle.dumps((j["ops"], pickle.dumps((polys, handed)), j["back"]))
                os.ftruncate(specs[i]["job"], 0)
                os.pwrite(specs[i]["job"], data, 0)
                os.ftruncate(specs[i]["reply"], 0)
                woken.append((i, j, describe()))
                g.wake(i, tokens[i], b"j")
            go(g, o, r)
            for i, j, have in woken:
                rep = pickle.loads(os.pread(specs[i]["reply"], os.fstat(specs[i]["reply"]).st_size, 0)) if g.state[i] == "idle" else None
                back = rep and rep.pop("back", None)
                steps[n].append((g, i, j, have, rep, back and describe()))
                if back:  # go on with what came back
                    p, d = pickle.loads(back)
                    polys[:] = p
                    handed.update(d)
                    D.update(d)

        def program(t, todo):
            def f():
                try:
                    for n, o in todo:
                        if o["op"] in ("fork", "send"):
                            (fork if o["op"] == "fork" else send)(n, o)
                            continue
                        inside[t] = True
                        steps[n] = self._do(o, arrays, polys, D)
                        inside[t] = False
                finally:
                    if t == 0:
                        for g, specs, tokens, way in pools.values():
                            for i, s in enumerate(g.state):
                                if s == "idle":
                                    g.wake(i, tokens[i], b"q")
                        for g in groups:
                            g.end()

            return f

        sched = Scheduler(self.decider(sc["sched"]), fine=sc["sched"].get("fine", False), root=self.roots if sc["sched"].get("deep", True) else self.roots[:1],
                          patience=2 * rt.WALL)
        for t in (0, 1):
            sched.add(program(t, [(n, o) for n, o in enumerate(sc["ops"]) if o["t"] == t]))
        L.sim_arm(1)
        try:
            end = sched.run()
        finally:
            L.sim_arm(0)
        out = {"schedule": sched.trace}
        bad = None
        fired = {}
        for t in sched.threads:
            if isinstance(t.error, (rt.Hang, rt.HarnessError)) or (t.error is not None and not bad):
                bad = ("hang", "a forked process neither reads nor ends") if isinstance(t.error, rt.Hang) else ("exception", f"thread {t.i} failed: {t.error!r}")
                if isinstance(t.error, rt.HarnessError):
                    raise t.error
        if end and not bad:
            bad = (end, f"{end}: " + ", ".join(f"thread {t.i} {t.state}" for t in sched.threads))
        worst = 0.0
        trace = [sched.trace]

        def result(who, o, res, fault):
            nonlocal worst
            kind, v, error = res
            if kind == "field":
                x, rel = wrong(v, F.at(o["body"], o["at"], o["rho"], o["G"], o["grad"]))
                worst = max(worst, rel)
                return x and ("field", f"{who} ({o['op']} at {o['at']}): {x}")
            x, err, why = self.judge(who, o, v[0], v[1], error, fault)
            if why:
                fired[why] = fired.get(why, 0) + 1
            worst = max(worst, err)
            return x

        state = dict(start)

        def known(who, o, res, state):
            """no one else has touched the dataset"""
            if res[0] == "conversion":
                same = C10._same(state[o["ds"]], res[1][0])
                state[o["ds"]] = res[1][1]
                if not same:
                    return ("influence", f"{who}: dataset {o['ds']} had changed before")

        some = False

        def forked(who, ops, rep, have, hits):
            """what a forked process did"""
            for a, v in rep.get("have", {}).items():
                if not C10._same(v, have[a]):
                    return ("inherited", f"{who}: dataset {a} is not what it was")
            mine = dict(have)
            for j, (o, x) in enumerate(zip(ops, rep["done"])):
                w = f"{who}, operation {j}"
                x = known(w, o, x, mine) or result(w, o, x, hits[0] if hits else None)
                if x:
                    return x
            if rep["end"] != "done":
                j = len(rep["done"])
                return (rep["end"][0], f"{who}, operation {j} ({ops[j]['op'] if j < len(ops) else ''}): {rep['end'][1]}")
            return None

        hits = {}
        for n, o in enumerate(sc["ops"]):
            if o["op"] == "fork":
                g, have, other, used = forks[n] if n in forks else (None,) * 4
                for i, res in enumerate(g.results if g else ()):
                    hits[id(g), i] = [f"grid {x.fault} {x.op}" for x in res.log if x.fault] if res else []
                    for h in hits[id(g), i]:
                        fired[h] = fired.get(h, 0) + 1
        for n, o in enumerate(sc["ops"]):
            if bad:
                break
            if o["op"] == "send":
                for g, i, j, have, rep, back in steps[n]:
                    who = f"operation {n}, work sent to forked process {i}"
                    if rep is None:
                        if not g.results[i] or not g.results[i].crashed:
                            bad = bad or ("crash", f"{who} ended")
                        continue
                    some |= bool(rep["done"])
                    fired["work sent"] = fired.get("work sent", 0) + 1
                    bad = bad or forked(who, j["ops"], rep, have, hits[id(g), i])
                    if back is not None:
                        fired["objects sent back"] = fired.get("objects sent back", 0) + 1
                        last = dict(have)
                        for oo, x in zip(j["ops"], rep["done"]):
                            if x[0] == "conversion":
                                last[oo["ds"]] = x[1][1]
                        state.update(last)
                continue
            if o["op"] != "fork":
                who = f"thread {o['t']}, operation {n}"
                bad = known(who, o, steps[n], state) or result(who, o, steps[n], None)
                continue
            g, have, other, used = forks[n]
            trace.append(g.schedule)
            fired["fork"] = fired.get("fork", 0) + len(o["kids"])
            for k, b, c in (("fork while another thread is in a call", other, 1), ("fork after a grid was read", used, 1)):
                if b:
                    fired[k] = fired.get(k, 0) + c
            for i, (k, res) in enumerate(zip(o["kids"], g.results)):
                who = f"operation {n}, forked process {i}"
                if res.crashed:
                    fired["kill"] = fired.get("kill", 0) + 1
                    continue
                rep = res.report
                if res.code != 0 or "end" not in rep:
                    bad = ("crash", f"{who} ended with status {res.code}")
                    break
                some |= (other or used) and bool(rep["done"])
                bad = forked(who, k["ops"], rep, have, hits[id(g), i])
                if bad:
                    break
        if not bad:
            for k, d in D.items():
                if not C10._same(state[k], C10._describe(d)):
                    bad = ("later", f"dataset {k} has changed after its last conversion")
            for i, (a, k) in enumerate(zip(arrays, keep)):
                if a.tobytes() != k:
                    bad = ("array", f"the caller's array {i} has changed")
        fired["thread stuck on a lock that is not simulated"] = sched.stuck
        out.update({"violation": bad and list(bad), "sig": sig(trace), "nontrivial": some, "worst": worst, "fired": {k: v for k, v in fired.items() if v},
                    "count": {"operations": len(sc["ops"]), "operations in forked processes": sum(len(r.report.get("done", ())) for g, *_ in forks.values() for r in g.results if r)
                          + sum(len(x[4]["done"]) for n, o in enumerate(sc["ops"]) if o["op"] == "send" for x in steps[n] if x[4]),
                              "instants": sched.total, "decisions between processes": sum(len(g.schedule) for g, *_ in forks.values())}})
        return out
