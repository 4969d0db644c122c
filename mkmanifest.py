"""Writes MANIFEST.json."""
import json

TRUST = ("Trusted: the reference model (written independently of geec), the hull of scipy, the table of ellipsoids of pymap3d, the interpolation of "
         "pygeodesy, the YAML parser, and that the simulated system calls behave like the real ones.")
SESSION = "Seeded search, no exhaustiveness: the property held in every simulated session of the reported seeds. Real geec, numpy, scipy and numba code. "
PROC = ("Seeded search, no exhaustiveness: the property held in every simulated run of the reported seeds. The whole real command runs (geec and all its "
        "dependencies); file operations, clock, process id, entropy and crashes are simulated by a preloaded layer below libc. ")
C = {
    "C01": ("deterministic simulation of library sessions, interruptions and memory failures at seeded instants, against a reference model", SESSION),
    "C02": ("deterministic simulation of accumulating sessions with failures and interruptions at seeded instants, against a reference model", SESSION),
    "C03": ("deterministic simulation of threads under a seeded scheduler with preemption inside geec code, against a reference model", SESSION),
    "C04": ("deterministic simulation of the whole command with transparent system faults, against a reference model of the pipeline", PROC),
    "C05": ("deterministic simulation of the whole command with crashes, torn writes, power cuts and disk errors at seeded operations", PROC),
    "C06": ("deterministic simulation of the whole command with torn files, disk errors and failures, against a reference model", PROC),
    "C07": ("deterministic simulation of histories of disturbed commands followed by an undisturbed one, compared with a pristine machine", PROC),
    "C08": ("deterministic simulation on pairs of machines that differ in clock, entropy, process id and environment", PROC),
    "C09": ("deterministic simulation of concurrent commands, one file operation at a time in seeded order, with kills", PROC),
    "C10": ("deterministic simulation of conversion sessions with failing grids, failures and interruptions at seeded instants, against a reference model", SESSION),
    "C11": ("deterministic simulation of commands on machines with damaged or failing geoid grids, against a reference model", PROC),
    "C12": ("deterministic simulation of commands with layered, torn and unreadable configuration, against a reference model", PROC),
    "C13": ("deterministic simulation of the clocks, with steps of the system clock at seeded instants", SESSION),
    "C14": ("deterministic simulation of commands with failing log storage, against a reference model", PROC),
    "C15": ("deterministic simulation of disturbed commands with an audit of every changed file", PROC),
    "C16": ("deterministic simulation of commands whose standard streams fail or are closed, against a reference model", PROC),
    "C17": ("deterministic simulation of threads under a seeded scheduler with preemption inside geec and geoid code, against a reference model", SESSION),
    "C18": ("deterministic simulation of commands whose files another program replaces at seeded operations, against a reference model of every version", PROC),
    "C19": ("deterministic simulation of forked processes and threads, with seeded forks, thread switches, order of reads, kills and read errors, against a reference model", SESSION),
    "C20": ("deterministic simulation of commands interrupted at seeded instants and met by lasting errors, with a bound on their operations", PROC),
    "C21": ("deterministic simulation of sessions of commands and library programs in one interpreter, disturbed at seeded instants, with the state of the process compared around each", PROC),
}
N = {
    "N01": "A pure function of its arguments at one instant: no scheduling, time, I/O or fault for a simulation to decide. (Values are compared with a reference model in C01.)",
    "N02": "An algebraic identity of one result: nothing for a simulation to decide. (Values are compared with a reference model in C01.)",
    "N03": "An accuracy statement about pure functions over all coordinates; the histories and faults around them are C10.",
    "N04": "A structural statement about one pure construction from a point set: no scheduling, time, I/O or fault.",
}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --build",
    "checks": [{"property": k, "quick_cmd": f"/opt/venv/bin/python check.py {k} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {k} --tier thorough",
                "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n + TRUST} for k, (t, n) in C.items()],
    "not_applicable": [{"property": k, "reason": r} for k, r in N.items()],
    "notes": "No hook in /repo: the seams are the libc calls (LD_PRELOAD), Python's tracing of geec code, and the clock. /repo is imported from its working tree; "
             "it needs no build. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
