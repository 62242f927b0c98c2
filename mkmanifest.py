#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
TRACE = ("TLA+ specification checked with TLC on a bounded family of programs, every behaviour replayed on the real code; "
         "logs of random programs on the real code validated against the specification by TLC")
NOTE = ("TLC explores the family completely within its bounds and the real code is compared with the specification, reply by reply, on every "
        "behaviour and on every logged call; beyond the bounds it is sampling. Trusted: TLC, the JSON bridge of the harness, and that values stay "
        "exactly representable (the drivers keep them so).")
SEQ = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C19"]
PAR = ("TLA+ model of the worker pool (no deadlock, ends, complete results) checked with TLC; logs of the real code running in pools of every "
       "size and nesting validated against the TLA+ specification by TLC, a call that does not come back counting as a wrong reply")
CONC = ("TLA+ model of the shared gradient cell checked with TLC; histories of the real code under a scheduler that enumerates interleavings of lock "
        "acquisitions (and under free-running threads) checked for linearizability against the TLA+ specification by TLC")
NOTE12 = ("Interleavings are enumerated at lock acquisitions, exhaustively for small scenarios and at random above; the scheduler needs the guarded "
          "hooks, and where they cannot be built or the threads wait for something else, only free-running threads are left.")
NOTE13 = ("The pool model is exhaustive for a few workers and computations; on the real code the schedules are those the machine happens to produce, "
          "in pools of 1 to 8 threads and eight calling contexts; a hang is 60 s without progress.")
OTHER = {"C11": (PAR, NOTE), "C12": (CONC, NOTE12), "C13": (PAR, NOTE13)}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in SEQ or p in OTHER:
        t, n = OTHER.get(p, (TRACE, NOTE))
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": t, "level": "model_checking", "level_note": n})
done = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "check under construction"} for l in open(os.path.join(HERE, "properties.jsonl")) if json.loads(l)["id"] not in done]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "hooks": {"guard": "cfg vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' (only the build that C12 schedules uses it)",
               "source_commits": [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("hooks:")]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
