#!/opt/venv/bin/python
"""Decide one property by deterministic simulation.

    check.py ID [--tier quick|thorough] [--runs N] [--workers N] [--replay FILE] [--seconds S]

Exit 0: the property held in every simulated run.  Exit 1: a line VIOLATION property=ID
replay=FILE.  Exit 2: the simulator itself failed, nothing is known.
"""
import argparse
import collections
import json
import os
import select
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
BUILD = os.path.join(HERE, "build")
LIB = os.path.join(BUILD, "libsim.so")
RUN = f"{os.getpid():07d}"


def build():
    """the operating system layer"""
    src = os.path.join(HERE, "geecsim", "shim.c")
    if os.path.exists(LIB) and os.path.getmtime(LIB) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = f"{LIB}.{os.getpid()}"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"], check=True)
    os.replace(tmp, LIB)


def scratch():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return os.path.join(d, f"geecsim.{RUN}")
    return f"/tmp/geecsim.{RUN}"


class Worker:
    def __init__(self, prop, hashseed="0", extra=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_", "GEEC", "XDG_", "NUMBA"))}
        repo = os.environ.get("GEECSIM_REPO", "/repo")  # (another one: experiments with planted bugs only)
        env.update(LD_PRELOAD=LIB, GEECSIM_REPO=repo, PYTHONPATH=repo + ":" + HERE, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", GEECSIM_RUN=RUN, TZ="UTC", LC_ALL="C.UTF-8",
                   COLUMNS="200")
        env.update(extra or {})
        self.p = subprocess.Popen([PYTHON, "-m", "geecsim.worker", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=HERE,
                                  env=env, stderr=sys.stderr if os.environ.get("GEECSIM_DEBUG") else subprocess.DEVNULL)
        self.fd = self.p.stdout.fileno()
        self.buf = b""
        self.ready = False
        self.busy = None
        self.t0 = time.time()

    def send(self, task):
        self.busy = task
        self.t0 = time.time()
        self.p.stdin.write((json.dumps(task) + "\n").encode())
        self.p.stdin.flush()

    def lines(self):
        d = os.read(self.fd, 1 << 20)
        if not d:
            return None
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in ls]

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class HarnessFailure(Exception):
    pass


class Pool:
    def __init__(self, prop, n, **k):
        self.ws = [Worker(prop, **k) for _ in range(n)]

    def map(self, tasks, deadline=None, stop=lambda r: False, limit=400, failures=None):
        """run tasks (an iterator) and yield the replies; no new ones after the deadline or a stop
        (failures: a list for those of the simulator, otherwise raised)"""
        tasks = iter(tasks)
        live = list(self.ws)
        more = True

        def feed(w):
            nonlocal more
            if not more or (deadline and time.time() > deadline):
                more = False
                return
            t = next(tasks, None)
            if t is None:
                more = False
            else:
                w.send(t)

        for w in live:
            if w.ready and not w.busy:
                feed(w)
        while any(w.busy or not w.ready for w in live):
            r, _, _ = select.select([w.fd for w in live], [], [], 5)
            for w in live:
                if w.fd in r:
                    ls = w.lines()
                    if ls is None:
                        raise HarnessFailure(f"a worker ended (status {w.p.wait()})")
                    for x in ls:
                        if "ready" in x:
                            w.ready = True
                        elif "out" in x or "harness" in x:
                            w.busy = None
                            if "harness" in x:
                                msg = x["harness"] + "\nscenario: " + json.dumps(x.get("scenario"))[:3000]
                                if failures is None or x.get("task") is None:
                                    raise HarnessFailure(msg)
                                failures.append(msg)
                                if len(failures) > 20:
                                    more = False
                            else:
                                yield x
                                if stop(x):
                                    more = False
                        if not w.busy:
                            feed(w)
                elif (w.busy or not w.ready) and time.time() - w.t0 > limit:
                    raise HarnessFailure("a worker does not answer")

    def close(self):
        for w in self.ws:
            try:
                w.p.stdin.close()
            except OSError:
                pass
        for w in self.ws:
            w.stop()


def minimise(pool, prop, scenario, violation, seconds):
    """a smaller scenario with the same class of violation"""
    best, bestv = scenario, violation
    end = time.time() + seconds
    progress = True
    tried = 0
    while progress and time.time() < end:
        progress = False
        cands = prop.shrink(best)

        def tasks():
            for i, c in enumerate(cands):
                yield {"task": i, "scenario": c}

        found = {}
        it = tasks()
        sent = {}

        def recorded():
            for t in it:
                sent[t["task"]] = t["scenario"]
                yield t

        try:
            for x in pool.map(recorded(), deadline=end, stop=lambda x: (x["out"].get("violation") or [None])[0] == violation[0], failures=[], limit=100):
                tried += 1
                v = x["out"].get("violation")
                if v and v[0] == violation[0]:
                    found[x["task"]] = (x.get("scenario") or sent[x["task"]], v)
        except HarnessFailure:
            break
        if found:
            k = min(found)
            best, bestv = found[k]
            progress = True
    return best, bestv, tried


def known_findings(pid):
    p = os.path.join(HERE, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={pid} "):
                r.append(json.loads(line.split(" ", 2)[2]))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--build", action="store_true", help="only build the operating system layer")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--digest", help="write the digest of every run to this file (determinism check)")
    ap.add_argument("--hashseed", default="0")
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        build()
        if a.build or not a.id:
            return 0
        sys.path.insert(0, HERE)
        from geecsim import props

        info = props.get(a.id)
        if a.replay:
            return replay(a)
        return search(a, tier, info, t0)
    except (HarnessFailure, subprocess.CalledProcessError, OSError) as e:
        print(f"ERROR property={a.id}: {e}")
        return 2
    finally:
        shutil.rmtree(scratch(), ignore_errors=True)


def replay(a):
    rec = json.load(open(a.replay))
    pool = Pool(a.id, 1, hashseed=a.hashseed)
    try:
        for x in pool.map([{"task": 0, "scenario": rec["scenario"], "trace": True}]):
            v = x["out"].get("violation")
            for line in x["out"].get("trace") or []:
                print("  " + str(line))
            if v:
                print(f"  {v[0]}: {v[1]}")
                print(f"VIOLATION property={a.id} replay={a.replay}")
                return 1
    finally:
        pool.close()
    print(f"property={a.id}: the replayed scenario shows no violation")
    return 0


def survive(it, failures):
    """what came before a failure of the simulator counts"""
    try:
        yield from it
    except HarnessFailure as e:
        failures.append(str(e))


def search(a, tier, info, t0):
    n = a.runs or info.runs[tier]
    seconds = a.seconds or (150 if tier == "quick" else 3000)
    pool = Pool(a.id, a.workers, hashseed=a.hashseed)
    deadline = time.time() + seconds
    sigs, fired, count, samples = set(), collections.Counter(), collections.Counter(), []
    runs = nontrivial = 0
    worst = 0.0
    sim = 0.0
    hit = None
    digests = {}
    failures = []
    try:
        tasks = ({"task": i, "seed": f"{a.seed}/{a.id}/{i}", "tier": tier, "want": i < 2} for i in range(n))
        for x in survive(pool.map(tasks, deadline, stop=lambda x: bool(x["out"].get("violation")), failures=failures), failures):
            o = x["out"]
            runs += 1
            digests[x["task"]] = [o.get("sig"), o.get("digest"), (o.get("violation") or [None])[0]]
            for k, v in (o.get("fired") or {}).items():
                fired[k] += v
            for k, v in (o.get("count") or {}).items():
                count[k] += v
            if o.get("nontrivial"):
                nontrivial += 1
                sigs.add(o.get("sig"))
            worst = max(worst, o.get("worst") or 0)
            sim += o.get("sim", 0)
            if x.get("scenario") is not None and len(samples) < 2 and x["task"] < 2:
                samples.append({"run": x["task"], "scenario": x["scenario"], "outcome": {k: o[k] for k in ("sig", "fired", "count") if k in o}})
            if o.get("violation") and (hit is None or x["task"] < hit[0]):
                hit = (x["task"], x["scenario"], o["violation"])
        searched = time.time() - t0
        code = 0
        nviol = 0
        if hit:
            task, sc, v = hit
            tried = 0
            if not a.no_minimise and v[0] != "import":
                sc, v, tried = minimise(pool, info, sc, v, 40 if v[0] != "hang" else 1)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", f"{a.id}-{a.seed}-{task}.json")
            rec = {"property": a.id, "seed": a.seed, "run": task, "violation": v, "scenario": sc, "minimisation_runs": tried,
                   "replay": f"python3 check.py {a.id} --replay {path}"}
            # in a new process
            again = Pool(a.id, 1, hashseed=a.hashseed)
            rec["reproduced"] = False
            try:
                for x in survive(again.map([{"task": 0, "scenario": sc, "trace": True}], limit=100), []):
                    w = x["out"].get("violation")
                    rec["reproduced"] = bool(w and w[0] == v[0])
                    rec["trace"] = x["out"].get("trace")
            finally:
                again.close()
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print(f"  run {task}: {v[0]}: {v[1]}" + ("" if rec["reproduced"] else "   (not reproduced in a new process)"))
            print(f"VIOLATION property={a.id} replay={path}")
            code, nviol = 1, 1
    finally:
        pool.close()
    wall = time.time() - t0
    ev = {
        "property": a.id, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(sigs), "nontrivial": nontrivial, "rule": info.rule, "samples": samples,
            "requested_runs": n, "runs_per_hour": round(runs / max(searched, 1e-9) * 3600), "seeds": f"{a.seed}/{a.id}/0..{runs - 1}",
            "simulated_seconds": round(sim, 3), "faults_injected": dict(sorted(fired.items())), "counts": dict(sorted(count.items())),
            "distinct_measure": "distinct digests of the sequence of scheduling, fault and outcome events of a run",
            "worst_error_over_tolerance": worst, "real_components": info.real, "stubbed_components": info.stubs,
        },
        "assumptions": getattr(info, "assumptions", []), "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{a.id}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.digest:
        with open(a.digest, "w") as f:
            json.dump(digests, f, sort_keys=True)
    if failures and not code:
        raise HarnessFailure(failures[0])
    if runs == 0:
        print(f"ERROR property={a.id}: no run was made")
        return 2
    if code == 0:
        print(f"property={a.id} held in {runs} simulated runs ({len(sigs)} distinct non-trivial), {sum(fired.values())} faults of {len(fired)} kinds, {wall:.1f} s, worst {worst:.2g}")
    return code


if __name__ == "__main__":
    sys.exit(main())
