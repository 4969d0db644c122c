"""A worker: imports the code under test once, then runs scenarios in forks of itself.

Reads one JSON task per line, writes one JSON reply per line."""
import json
import os
import sys
import time
import traceback


def warm(silent):
    """compile the numba functions, through the public interface"""
    import numpy as np
    from loguru import logger

    if silent:  # not for commands, which do so themselves
        logger.remove()
    try:
        import geec.cli  # noqa
        from geec.polyhedron import Polyhedron
    except Exception:
        return "geec cannot be imported: " + traceback.format_exc().strip().split("\n")[-1]
    restore = remember()
    p = Polyhedron(np.array([[0.0, 0, 0], [1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]))
    for o in ([2.0, 3.0, 4.0], [-1.0, 0.0, 0.0]):
        for g in (True, False):
            try:
                p.get_gravity(np.array(o), 1.0, 1.0, g)
            except Exception:
                pass  # what is wrong is for the sessions to find
    restore()


def remember():
    """the state of geec's modules, classes and objects; returns what brings it back, so that
    sessions meet code that has not run yet"""
    kept = []

    def keep(x, deep):
        if isinstance(x, (dict, list, set)):
            kept.append((x, x.copy()))
        elif isinstance(x, type) and x.__module__.startswith("geec"):
            kept.append((x, {k: v for k, v in vars(x).items() if not k.startswith("__")}))
            for v in list(vars(x).values()):
                if isinstance(v, (dict, list, set)):
                    keep(v, False)
        elif deep and type(x).__module__.startswith("geec") and hasattr(x, "__dict__"):
            kept.append((x, dict(vars(x))))
            for v in list(vars(x).values()):
                if isinstance(v, (dict, list, set)):
                    keep(v, False)

    for n, m in sorted(sys.modules.items()):
        if n == "geec" or n.startswith("geec."):
            kept.append((m, {k: v for k, v in vars(m).items() if not k.startswith("__")}))
            for k, v in list(vars(m).items()):
                if not k.startswith("__"):
                    keep(v, True)

    def restore():
        for x, was in kept:
            if isinstance(x, list):
                x[:] = was
            elif isinstance(x, (dict, set)):
                x.clear()
                x.update(was)
            else:
                for k in [k for k in vars(x) if not k.startswith("__") and k not in was]:
                    delattr(x, k)
                for k, v in was.items():
                    if vars(x).get(k, x) is not v:
                        setattr(x, k, v)
        for n, m in sys.modules.items():
            if n == "geec" or n.startswith("geec."):
                for v in [v for x in [m] + [c for c in vars(m).values() if isinstance(c, type)] for v in vars(x).values()]:
                    if type(v).__name__ == "_lru_cache_wrapper" and v.__module__.startswith("geec"):
                        v.cache_clear()

    return restore


def main():
    reply_fd = os.dup(1)
    os.set_inheritable(reply_fd, False)
    os.dup2(2, 1)
    out = os.fdopen(reply_fd, "w")

    def reply(x):
        out.write(json.dumps(x) + "\n")
        out.flush()

    try:
        from geecsim import props, rt, tasks

        rt.lib()
        tasks.patch()
        prop = props.get(sys.argv[1])
        if getattr(prop, "patch", None) == "locks":
            from geecsim import threads

            threads.patch_locks()
        broken = warm(not hasattr(prop, "machine"))
        base = os.path.join(rt.scratch_root(), f"geecsim.{os.environ['GEECSIM_RUN']}", f"w{os.getpid():07d}")
        os.makedirs(base, exist_ok=True)
        prop.base = base
        if hasattr(prop, "start") and not broken:
            prop.start()
    except BaseException:
        reply({"harness": traceback.format_exc()})
        return
    reply({"ready": True})
    for line in sys.stdin:
        t = json.loads(line)
        t0 = time.time()
        r = {"task": t.get("task")}
        try:
            if "scenario" in t:
                sc = t["scenario"]
            else:
                import random

                sc = prop.gen(random.Random(t["seed"]), t["tier"]) if not broken else {}
                if t.get("want"):
                    r["scenario"] = sc
            r["out"] = one(prop, sc) if not broken else {"violation": ["import", broken]}
            if r["out"].get("violation"):
                r["scenario"] = sc
                if not broken and hasattr(prop, "concrete") and "schedule" in r["out"]:
                    r["scenario"] = prop.concrete(sc, r["out"])
            if not t.get("trace"):
                r["out"].pop("schedule", None)
                r["out"].pop("trace", None)
        except BaseException:
            r["harness"] = traceback.format_exc()
            r["scenario"] = locals().get("sc")
        r["wall"] = time.time() - t0
        reply(r)


def one(prop, sc):
    from geecsim import rt

    try:
        return prop.run(sc)
    except rt.Violation as e:
        out = {"violation": list(e.args[:2])}
        if len(e.args) > 2:
            out["trace"] = e.args[2]
        if len(e.args) > 3:
            out["schedule"] = e.args[3]
        return out
    except rt.Hang as e:
        return {"violation": ["hang", str(e)], "hang": True}


if __name__ == "__main__":
    main()
