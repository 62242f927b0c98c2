#!/usr/bin/env python3
"""Decides one property of rust_light: check.py C01 .. C18  (see DESIGN.md).

Every check builds the harness against /repo's working tree and then
 * model checks the specification on the bounded family of programs for the
   property, and replays every program TLC prints on the real code;
 * has the real code run random programs and lets TLC check the log of every
   call against the specification;
 * does what else the property calls for (schedules, thread pools, numerics).
Exit 0: held on everything explored.  Exit 1 with VIOLATION lines: broken.
Exit 2: the check itself did not work.
"""
import json, os, random, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m"]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
CPUS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    """What one run of one check did and found."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.evidence_dir = os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(self.evidence_dir, "replay"), exist_ok=True)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.violations = []
        self.known = []
        self.parts = []
        self.samples = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def violation(self, what, replay):
        with self.lock:
            n = len(self.violations) + 1
            p = os.path.join(self.evidence_dir, "replay", "%s-%d.json" % (self.prop, n))
            if n <= 10:
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, **replay}, f, indent=1)
                    f.write("\n")
                log("VIOLATION property=%s replay=%s" % (self.prop, p))
                log("  " + what[:400])
            self.violations.append(what)

    def part(self, **kw):
        with self.lock:
            self.parts.append(kw)
            log("  " + ", ".join("%s %s" % (k, v) for k, v in kw.items()))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def count(self, states=0, transitions=0, traces=0):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.traces += traces

    def finish(self):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, "parts": self.parts,
            },
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(self.evidence_dir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.dir, ignore_errors=True)
        log("%s %s: %d states, %d transitions, %d traces, %.0f s, %d violations"
            % (self.prop, TIER, self.states, self.transitions, self.traces, ev["wall_s"], len(self.violations)))
        return 1 if self.violations else 0


# ------------------------------------------------------------------ building
RELEASE = {}


def build(hooks=False):
    """The harness, built against /repo as it is now; without hooks also the way users
    ship it, without overflow checks and debug assertions (RELEASE)."""
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    target = os.path.join(BUILD, "target-hooks" if hooks else "target")
    if hooks:
        env["RUSTFLAGS"] = "--cfg vp_hooks"

    def make(*how):
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", target] + list(how),
                           cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("the harness does not build:\n" + r.stdout[-3000:])

    exe = os.path.join(target, "debug", "vp_harness")
    if hooks:
        make()
        return exe
    with ThreadPoolExecutor(2) as ex:
        for r in [ex.submit(make), ex.submit(make, "--release")]:
            r.result()
    RELEASE[exe] = os.path.join(target, "release", "vp_harness")
    return exe


# ---------------------------------------------------------------------- TLC
def tlc(ck, name, module, cfg, env=None, workers=1, heap="3g", timeout=3000):
    """Run TLC; its output goes to a file.  Returns (path of output, statistics)."""
    out = ck.path("tlc_" + name)
    cfgp = ck.path("tlc_" + name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    md = ck.path("md_" + name)
    cmd = JAVA + ["-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                  "-metadir", md, "-config", cfgp, module + ".tla"]
    with open(out, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time: " + name)
    shutil.rmtree(md, ignore_errors=True)
    st = {"ok": False, "generated": 0, "distinct": 0, "violated": None, "errors": []}
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                st["generated"], st["distinct"] = int(m.group(1)), int(m.group(2))
            m = re.match(r"Error: (Invariant|Action property|Temporal properties?) ?(\S*)", line)
            if m:
                st["violated"] = m.group(2)
            if line.startswith("Error:") and len(st["errors"]) < 5:
                st["errors"].append(line.strip()[:300])
            if "No error has been found" in line:
                st["ok"] = True
    return out, st


# ------------------------------------------------------- random traces to TLC
TRACE_CFG = """SPECIFICATION Spec
INVARIANT StateOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


STALL = 60  # no call takes nearly as long: after this many seconds without progress it hangs


def watch(p, progress, timeout):
    """Wait for a process that writes to the files `progress`.  True: it had to be ended."""
    out = [None, None]
    reader = threading.Thread(target=lambda: out.__setitem__(slice(None), p.communicate()))
    reader.start()
    t0 = last = time.time()
    seen = None
    while True:
        reader.join(0.25)
        if not reader.is_alive():
            return out[0], out[1], False
        now = []
        for f in progress:
            try:
                st = os.stat(f)
                now.append((st.st_size, st.st_mtime_ns))
            except OSError:
                pass
        if now != seen:
            seen, last = now, time.time()
        if time.time() - last > STALL or time.time() - t0 > timeout:
            p.kill()
            reader.join()
            return out[0], out[1], True


SMOOTH_CFG = """SPECIFICATION Spec
CONSTANTS
 Zero <- IZero
 One <- IOne
 NoElem <- INoElem
 Lift <- ILift
 Plus <- IPlus
 Times <- ITimes
 NegOf <- INeg
 ReluOf <- IRelu
 AbsOf <- IAbs
 TanhOf <- ITanh
 ReluD <- IReluD
 AbsD <- IAbsD
 TanhD <- ITanhD
 Agree <- IAgree
INVARIANTS StateOk IntervalsOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


ZEROS_CFG = """SPECIFICATION Spec
CONSTANTS
 NegOf <- ZNeg
 AbsOf <- ZAbs
 TanhOf <- ZTanh
 GenericFn <- ZGeneric
INVARIANT StateOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


IEEE_CFG = """SPECIFICATION Spec
CONSTANTS
 Plus <- IPlus
 Times <- ITimes
 GenericFn <- IGenericFn
INVARIANT StateOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""

IGRAPH_CFG = """SPECIFICATION Spec
CONSTANTS
 Plus <- JPlus
 Times <- JTimes
 GenericFn <- JGenericFn
 NegOf <- JNegOf
 ReluOf <- JReluOf
 AbsOf <- JAbsOf
 TanhOf <- JTanhOf
 ReluD <- JReluD
 AbsD <- JAbsD
 TanhD <- JTanhD
 Agree <- JAgree
 Derivatives <- JDerivatives
INVARIANT StateOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


DYADIC_CFG = """SPECIFICATION Spec
CONSTANTS
 P = %d
 NEMIN = %d
 EMAX = %d
 Zero <- DZero
 One <- DOne
 NoElem <- DNoElem
 Lift <- DLift
 Plus <- DPlus
 Times <- DTimes
 NegOf <- DNeg
 ReluOf <- DRelu
 AbsOf <- DAbs
 TanhOf <- DTanh
 ReluD <- DReluD
 AbsD <- DAbsD
 TanhD <- DTanhD
 GenericFn <- DGenericFn
 TEq <- DTEq
 Agree <- DAgree
INVARIANTS StateOk ElementsOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""
# the bits of a number and the exponents it may have: of f32 (which f64 has, too), of f64
# (with as many bits as TLC's integers have)
DYADIC = {"tr_dyadic_": DYADIC_CFG % (24, 149, 127), "tr_dyadic64_": DYADIC_CFG % (30, 1074, 1023)}


def run_logged(cmd, files, timeout, env=None):
    """Run a harness command that logs calls; if it dies or hangs, complete the
    call under way in each log with that outcome."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, stdin=subprocess.DEVNULL, env=e)
    out, err, hung = watch(p, files, timeout)
    how = None
    if hung:
        how = "hang"
    elif p.returncode == 2 or p.returncode == 101:
        raise ToolError("harness: " + err[-2000:])
    elif p.returncode != 0:
        how = "crash"
    if how:
        for f in files:
            if not os.path.exists(f):
                continue
            with open(f, "rb") as g:
                data = g.read()
            if data and not data.endswith(b"\n"):
                i = data.rfind(b"\n") + 1
                last = data[i:].decode()
                if ',"r":' in last:
                    last = last[: last.index(',"r":')]
                with open(f, "wb") as g:
                    g.write(data[:i] + (last + ',"r":{"st":"%s"}}\n' % how).encode())
    return out, how


def corrupt(entry, rng, wrong=12345):
    """The same log entry with a reply that is wrong."""
    e = json.loads(json.dumps(entry))
    r = e["r"]
    if r.get("val"):
        i = rng.randrange(len(r["val"]))
        r["val"][i] = wrong if r["val"][i] != wrong else 0
    elif isinstance(r.get("v"), bool):
        r["v"] = not r["v"]
    elif isinstance(r.get("v"), int):
        r["v"] = wrong if r["v"] != wrong else 0
    else:
        r.clear()
        r["st"] = "reject" if entry["r"].get("st") == "ok" else "ok"
    return e


def program_at(lines, i):
    """the calls of the program that line i (0-based) belongs to, up to i"""
    j = i
    while j > 0 and '"op":"reset"' not in lines[j]:
        j -= 1
    return [json.loads(x)["c"] for x in lines[j:i + 1]]


def validate(ck, f, name, programs):
    """TLC on one log.  A corrupted program at its end must be found out."""
    rng = random.Random("%s/%d" % (name, SEED))
    with open(f) as g:
        lines = g.read().splitlines()
    if not lines:
        return
    n = len(lines)
    starts = [i for i, x in enumerate(lines) if '"op":"reset"' in x]
    # the canary: an early program (they are whole), one reply changed
    s = starts[0]
    e = starts[1] if len(starts) > 1 else n
    prog = [json.loads(x) for x in lines[s:e]]
    cand = [i for i, x in enumerate(prog) if x["c"]["op"] != "reset" and x["r"].get("st") in ("ok", "reject", "err")]
    cand = [i for i in cand if i < 400]
    best = [i for i in cand if prog[i]["r"].get("val") or "v" in prog[i]["r"] and isinstance(prog[i]["r"]["v"], int)] or cand
    if name.startswith("tr_dyadic"):  # others may be unspecified
        best = [i for i in best if prog[i]["r"].get("val")]
    canary = []
    if best:
        k = best[rng.randrange(len(best))]
        canary = prog[:k] + [corrupt(prog[k], rng, 50000000 if name.startswith(("tr_smooth", "tr_dyadic")) else 12345)]
        # should that element be unspecified: a reply of another kind
        canary += prog[:k] + [{"c": prog[k]["c"], "r": {"st": "reject" if prog[k]["r"]["st"] != "reject" else "ok"}}]
    with open(f, "a") as g:
        for x in canary:
            g.write(json.dumps(x) + "\n")
    module, cfg, how = (("Trace", TRACE_CFG, "VP_DEEP=1 ") if name.startswith("tr_deep") else ("Smooth", SMOOTH_CFG, "VP_SMOOTH=1 ") if name.startswith("tr_smooth") else
                        ("SignedZero", ZEROS_CFG, "VP_ZEROS=1 ") if name.startswith("tr_zeros") else
                        ("IeeeGraph", IGRAPH_CFG, "") if name.startswith("tr_ieee_graph") else
                        ("Ieee", IEEE_CFG, "") if name.startswith("tr_ieee") else ("Trace", TRACE_CFG, ""))
    env = {"TRACE": f}
    for p, c in DYADIC.items():
        if name.startswith(p):
            module, cfg, env["TABLE"] = "Dyadic", c, re.sub(r"\d+$", "table", f)
            how = "VP_TABLE=this file "
    out, st = tlc(ck, name, module, cfg, env, heap="2g", timeout=1500)
    wrong = []
    caught = False
    with open(out, errors="replace") as g:
        for line in g:
            m = re.match(r'"MISMATCH (\d+) (.*)"$', line.rstrip())
            if m:
                i = int(m.group(1)) - 1
                if i >= n:
                    caught = True
                else:
                    wrong.append((i, m.group(2).replace('\\"', '"')))
    for i, want in wrong:
        x = json.loads(lines[i])
        calls = program_at(lines, i)
        ck.violation("call %s replied %s; the specification calls for %s"
                     % (json.dumps(x["c"])[:150], json.dumps(x["r"])[:200], want[:200]),
                     {"calls": calls, "got": x["r"], "want": want, "how": how + "vp_harness exec < calls, one a line",
                      **({"table": json.load(open(env["TABLE"]))["bits"]} if "TABLE" in env else {})})
    if not st["ok"] and not wrong:
        raise ToolError("TLC failed on a trace (%s): %s" % (name, st["errors"]))
    if canary and not caught and not wrong:
        raise ToolError("TLC accepted a corrupted trace (%s)" % name)
    ck.count(st["distinct"], st["generated"], programs)
    ck.sample({"trace of the real code": [json.loads(x) for x in lines[s:min(e, s + 8) if starts else 8]]} if n else None)


def traces(ck, exe, profile, lines, seed=None, env=None):
    """Random programs on the real code, their logs checked by TLC; half of them in the
    build with, half in that without overflow checks and debug assertions."""
    seed = SEED if seed is None else seed
    with ThreadPoolExecutor(2) as ex:
        got = [r.result() for r in [ex.submit(logs, ck, exe, "debug", profile, lines // 2, seed, env),
                                    ex.submit(logs, ck, RELEASE[exe], "release", profile, lines // 2, seed + 500000, env)]]
    ck.part(trace_profile=profile, builds=["debug", "release"], programs=sum(i["programs"] for i in got),
            calls=sum(i["lines"] for i in got), **({"env": env} if env else {}))


def logs(ck, exe, built, profile, lines, seed, env):
    per = 1500 if profile.startswith("long") else 12000
    chunks = max(1, min(CPUS // 2, -(-lines // (300 if profile.startswith("long") else 40 if profile.endswith("crowd") else 1500))))
    chunks = max(chunks, -(-lines // per))
    prefix = ck.path("tr_%s_%s_%d_" % (profile, built, seed))
    files = [prefix + str(i) for i in range(chunks)]
    out, how = run_logged([exe, "gen", profile, str(seed), str(lines), str(chunks), prefix], files, 3000 if THOROUGH else 600, env)
    info = json.loads(out) if how is None else {"programs": 0, "lines": 0, "abandoned": 0}
    with ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        for r in [ex.submit(validate, ck, f, os.path.basename(f), 0) for f in files]:
            r.result()
    if how and not ck.violations:
        raise ToolError("harness %s, but no call was under way" % how)
    if info["abandoned"] and not ck.violations:
        raise ToolError("%d programs were abandoned" % info["abandoned"])
    ck.count(traces=info["programs"])
    for f in files + [prefix + "table"]:
        if os.path.exists(f):
            os.unlink(f)
    return info


# ----------------------------------------------- bounded families of programs
ALL = "f64,f32,i32,i64,u8,usize,i8,u32,u64,i128,u128"
WIDE = "f64,f32,i32,i64,usize,u64,i128"
SIGNED = "f64,f32,i32,i64,i128"
FLOAT = "f64,f32"


def family(ck, exe, name, setups, cmds, tail, steps, types, invs="", size=None, sample=None):
    """Model check one family of programs; replay all of them on the real code."""
    cfg = """SPECIFICATION Spec
CONSTANTS Setups <- %s
 Cmds <- %s
 Tail_ <- %s
 Steps = %d
INVARIANT TypeOk %s
PROPERTY Frozen
CHECK_DEADLOCK FALSE
""" % (setups, cmds, tail, steps, invs)
    env = {"SIZE": str(size or (2 if THOROUGH else 1))}
    out, st = tlc(ck, "mc_" + name, "Models", cfg, env, workers=CPUS, heap="12g", timeout=3000)
    if not st["ok"]:
        raise ToolError("model checking failed (%s): %s %s" % (name, st["violated"], st["errors"]))
    n = 0
    pieces = [open(ck.path("beh_%s_%d" % (name, i)), "w") for i in range(CPUS)]
    canary = None
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"BEHAVIOUR '):
                line = '"' + line[len('"BEHAVIOUR '):]
                pieces[n % CPUS].write(line)
                if n < 50 and (canary is None or '\\"st\\":\\"ok\\"' not in canary):
                    canary = line
                n += 1
    os.unlink(out)
    if n == 0:
        raise ToolError("the family %s is empty" % name)
    # a behaviour with a wrong reply in every piece: the replay must object
    b = json.loads(json.loads(canary))
    right = b[-1]["r"]
    b[-1] = corrupt(b[-1], random.Random(SEED))
    ck.sample({"behaviour of the specification (%s)" % name: json.loads(json.loads(canary))[:8]})
    for p in pieces:
        p.write(json.dumps(b) + "\n")
        p.close()

    def run(i, exe, types, built):
        src = ck.path("beh_%s_%d" % (name, i))
        prog = ck.path("progress_%s_%s_%d" % (name, built, i))
        with open(src) as f:
            p = subprocess.Popen([exe, "replay", types, prog], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            o, err, hung = watch(p, [prog], 3000 if THOROUGH else 600)
            how = "hung" if hung else None
        if p.returncode in (2, 101) and how is None:
            raise ToolError("harness: " + err[-2000:])
        if p.returncode != 0:
            how = how or "died"
        res = [json.loads(x) for x in o.splitlines()]
        if how:
            k, t = open(prog).read().split()
            with open(src) as f:
                line = [x for j, x in enumerate(f, 1) if j == int(k)][0]
            beh = json.loads(line)
            beh = json.loads(beh) if isinstance(beh, str) else beh
            ck.violation("the process %s in this program (%s, %s)" % (how, t, built), {"type": t, "build": built, "calls": [x["c"] for x in beh]})
            return
        total = res[-1]
        mism = res[:-1]
        # the canary is the last behaviour of the piece
        real = [m for m in mism if m["calls"] and not (same_calls(m["calls"], b) and m["step"] == len(b) - 1
                                                       and m["want"] == b[-1]["r"] and (m["got"] == right or "held" in right))]
        canary_bad = total["bad"] - len(real)
        for m in real:
            ck.violation("call %s replied %s; the specification calls for %s (%s, %s)"
                         % (json.dumps(m["calls"][m["step"]])[:150], json.dumps(m["got"])[:200],
                            json.dumps(m["want"])[:200], m["type"], built), dict(m, build=built))
        if canary_bad == 0 and not real:
            raise ToolError("the replay accepted a corrupted behaviour (%s)" % name)
        return total["calls"]

    with ThreadPoolExecutor(CPUS) as ex:
        calls = [r.result() for r in [ex.submit(run, i, exe, types, "debug") for i in range(CPUS)]
                 + [ex.submit(run, i, RELEASE[exe], ",".join(types.split(",")[:2]), "release") for i in range(CPUS)]]
    for i in range(CPUS):
        os.unlink(ck.path("beh_%s_%d" % (name, i)))
    ck.count(st["distinct"], st["generated"], n)
    ck.part(family=name, steps=steps, states=st["distinct"], transitions=st["generated"], behaviours=n,
            types=types, replayed_calls=sum(c or 0 for c in calls))


def same_calls(cs, b):
    def strip(c):
        return {k: v for k, v in c.items() if k != "form"}
    return len(cs) == len(b) and all(strip(x) == strip(y["c"]) for x, y in zip(cs, b))


# -------------------------------------------- models without calls of the code
def model(ck, name, module, cfg, canary=None, workers=None):
    """Check a model.  `canary`: it has to be found wrong, with this in the message."""
    out, st = tlc(ck, name, module, cfg, workers=workers or CPUS, heap="8g")
    if canary is None:
        if not st["ok"]:
            raise ToolError("model checking failed (%s): %s %s" % (name, st["violated"], st["errors"]))
        ck.count(st["distinct"], st["generated"])
        ck.part(model=name, states=st["distinct"], transitions=st["generated"])
    elif st["ok"] or not any(canary in e for e in st["errors"]):
        raise ToolError("the broken model %s should have failed with %s: %s" % (name, canary, st["errors"]))
    os.unlink(out)


ROUND_CFG = """SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def rounding(ck, exe, cases, seed, env=None):
    """Computations that round, each done several times over; TLC on their log."""
    f = ck.path("round_%d" % seed)
    out, how = run_logged([exe, "round", str(seed), str(cases), f], [f], 3000 if THOROUGH else 600, env)
    with open(f) as g:
        lines = g.read().splitlines()
    n = len(lines)
    first = json.loads(lines[0])
    wrong = {"c": {"op": "again", "key": first["c"]["key"]}, "r": json.loads(json.dumps(first["r"]))}
    near = json.loads(json.dumps(first))
    bad = [first, wrong, near]
    if first["r"]["st"] == "ok" and first["r"]["outs"][0][0]:
        wrong["r"]["outs"][0][1][0] += 1
        near["r"]["outs"][0][2][0] += 100000
        with open(f, "a") as g:
            for x in bad:
                g.write(json.dumps(x) + "\n")
    else:
        bad = []
    out, st = tlc(ck, "round_%d" % seed, "Rounding", ROUND_CFG, {"TRACE": f}, heap="3g")
    got = []
    with open(out, errors="replace") as g:
        for line in g:
            m = re.match(r'"MISMATCH (\d+) (.*)"$', line.rstrip())
            if m:
                got.append((int(m.group(1)) - 1, m.group(2)))
    for i, want in got:
        if i < n:
            k = i
            while '"op":"again"' in lines[k]:
                k -= 1
            x, y = json.loads(lines[k]), json.loads(lines[i])
            ck.violation("%s %s gave %s; the specification calls for %s"
                         % (json.dumps({a: b for a, b in x["c"].items() if a not in "abw"})[:150], json.dumps(x["c"].get("ctx", "")),
                            json.dumps(y["r"])[:150], want.strip()),
                         {"computation": x["c"], "first": x["r"], "got": y["r"], "how": "vp_harness round %d %d OUT" % (seed, cases)})
    if not st["ok"] and not got:
        raise ToolError("TLC failed on the log of computations that round: %s" % st["errors"])
    if bad and not {n + 1, n + 2} <= {i for i, _ in got} and not ck.violations:
        raise ToolError("TLC accepted a corrupted log of computations that round")
    if how and not ck.violations:
        raise ToolError("harness %s" % how)
    ck.count(st["distinct"], st["generated"], cases)
    ck.part(rounding=True, computations=cases, calls=n, **({"env": env} if env else {}))
    os.unlink(f)


# ------------------------------------------------- histories of several threads
CONC_CFG = """SPECIFICATION Spec
CONSTRAINT Further
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
"""


def histories(ck, exe, mode, seed, count, cap, only_stuck=False):
    """Histories of threads on shared tensors; TLC looks for an explanation of each.
    False: this build of the code cannot be scheduled."""
    f = ck.path("conc_%s_%d" % (mode, seed))
    p = subprocess.Popen([exe, "conc", mode, str(seed), str(count), str(cap), f], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, stdin=subprocess.DEVNULL)
    out, err, hung = watch(p, [f], 3000 if THOROUGH else 600)
    if p.returncode == 3:
        return False
    if p.returncode in (2, 101) and not hung:
        raise ToolError("harness: " + err[-2000:])
    with open(f) as g:
        hs = [x for x in g.read().splitlines() if x]
    if hung or p.returncode != 0:
        ck.violation("threads on shared tensors %s (%s)" % ("wait for each other forever" if hung else "crash", mode),
                     {"command": "vp_harness conc %s %d %d %d OUT" % (mode, seed, count, cap)})
    info = json.loads(out.splitlines()[-1]) if out.strip() else {}
    if not hs:
        return True
    # a history whose gradients at the end are wrong has to be found out
    def spoil(h):
        h = json.loads(h)
        i = next((i for i, e in enumerate(h["end"]) if e.get("hg")), None)
        if i is None:
            return None
        h["end"][i]["gval"][0] += 1
        return json.dumps(h)
    bad = next((b for b in map(spoil, hs) if b), None)
    n = min(CPUS, max(1, len(hs) // 20))

    def piece(i):
        mine = hs[i::n]
        g = f + "_%d" % i
        with open(g, "w") as o:
            o.write("\n".join(mine + ([bad] if bad else [])) + "\n")
        out, st = tlc(ck, os.path.basename(g), "ConcTrace", CONC_CFG, {"TRACE": g}, heap="3g")
        rej = []
        with open(out, errors="replace") as o:
            for line in o:
                m = re.match(r'"REJECTED (\d+)"', line)
                if m:
                    rej.append(int(m.group(1)) - 1)
        real = [r for r in rej if r < len(mine)]
        if not st["ok"] and not rej:
            raise ToolError("TLC failed on histories: %s" % st["errors"])
        if bad and len(mine) not in rej:
            raise ToolError("TLC explained a corrupted history")
        for r in real:
            h = json.loads(mine[r])
            if only_stuck and not h.get("stuck"):
                continue
            what = "the threads block each other for good" if h.get("stuck") else "no order of the updates, resets and reads explains this history"
            ck.violation("%s (%s): %s" % (what, mode, json.dumps([e.get("c", e.get("r")) for e in h["ev"]])[:250]), {"mode": mode, "history": h})
        ck.count(st["distinct"], st["generated"], len(mine))
        os.unlink(g)

    with ThreadPoolExecutor(CPUS) as ex:
        for r in [ex.submit(piece, i) for i in range(n)]:
            r.result()
    ck.sample({"history (%s)" % mode: json.loads(hs[0])["ev"][:8]})
    ck.part(mode=mode, **info)
    return True


# ------------------------------------------------------------------- checks
def q(quick, thorough):
    return thorough if THOROUGH else quick


LAWS_CFG = """SPECIFICATION Spec
CONSTANTS MaxDim = 2
 MaxRank = %d
INVARIANT %s
CHECK_DEADLOCK FALSE
"""


def laws(ck, which):
    """what the definitions have to satisfy, for every triple of small shapes"""
    model(ck, "laws_" + which, "Laws", LAWS_CFG % (q(2, 3), which))


def dyadic(ck, exe, profile, lines, plus=0):
    """a profile over numbers of all magnitudes, of f32 and f64"""
    for kind in ("dyadic_", "dyadic64_"):
        if not ck.violations:
            traces(ck, exe, kind + profile, lines, SEED + plus)


def c01(ck, exe):
    laws(ck, "Odometer")
    family(ck, exe, "index", "IndexSetups", "NoCmds", "IndexTail", 0, ALL)
    traces(ck, exe, "index", q(20000, 300000))
    traces(ck, exe, "index_big", q(1600, 30000))
    traces(ck, exe, "index_rank", q(2400, 40000))
    traces(ck, exe, "index_vast", q(240, 5000))


def c02(ck, exe):
    family(ck, exe, "construct", "ConstructSetups", "NoCmds", "MakerTail", 0, ALL)
    for d in range(4):
        family(ck, exe, "nest%d" % d, "Nest%d" % d, "NoCmds", "MakerTail", 0, ALL)
    family(ck, exe, "far", "FarSetups", "NoCmds", "FarTail", 0, ALL)
    traces(ck, exe, "construct", q(20000, 300000))
    traces(ck, exe, "construct_big", q(1600, 30000))
    traces(ck, exe, "construct_rank", q(2400, 40000))
    traces(ck, exe, "construct_vast", q(240, 5000))


def c03(ck, exe):
    laws(ck, "Views")
    family(ck, exe, "views", "ViewSetups", "ViewCmds", "ViewTail", 2, "f64,i32,usize")
    traces(ck, exe, "views", q(20000, 300000))
    traces(ck, exe, "views_big", q(1600, 30000))
    traces(ck, exe, "views_rank", q(2400, 40000))
    traces(ck, exe, "views_vast", q(240, 5000))


def c04(ck, exe):
    laws(ck, "Broadcast")
    family(ck, exe, "add", "PairSetups", "NoCmds", "AddTail", 0, SIGNED)
    family(ck, exe, "add_view", "ViewPairSetups", "NoCmds", "AddViewTail", 0, FLOAT)
    traces(ck, exe, "arith", q(20000, 300000))
    traces(ck, exe, "arith_big", q(1600, 30000))
    traces(ck, exe, "arith_rank", q(2400, 40000))
    traces(ck, exe, "arith_vast", q(240, 5000))
    traces(ck, exe, "ieee_sums", q(5000, 60000))
    dyadic(ck, exe, "arith", q(3000, 60000))


def c05(ck, exe):
    laws(ck, "Products")
    family(ck, exe, "mul", "ViewPairSetups", "NoCmds", "MulViewTail", 0, WIDE)
    traces(ck, exe, "products", q(20000, 300000))
    traces(ck, exe, "products_big", q(1600, 30000))
    traces(ck, exe, "products_rank", q(1600, 40000))
    traces(ck, exe, "products_vast", q(240, 5000))
    traces(ck, exe, "ieee_products", q(5000, 60000))
    dyadic(ck, exe, "products", q(3000, 60000))


def c06(ck, exe):
    laws(ck, "Products")
    family(ck, exe, "bmm", "ViewPairSetups", "NoCmds", "BmmViewTail", 0, WIDE)
    traces(ck, exe, "matmul", q(15000, 200000))
    traces(ck, exe, "matmul_big", q(1500, 20000))
    traces(ck, exe, "matmul_vast", q(500, 5000))
    traces(ck, exe, "ieee_products", q(4000, 60000), SEED + 50)
    dyadic(ck, exe, "matmul", q(2500, 50000))
    traces(ck, exe, "par_huge", q(120, 2000), SEED + 3000)


def c07(ck, exe):
    laws(ck, "Products")
    family(ck, exe, "reduce", "ViewPairSetups", "NoCmds", "ReduceViewTail", 0, WIDE)
    traces(ck, exe, "reduce", q(20000, 300000))
    traces(ck, exe, "reduce_big", q(1600, 30000))
    traces(ck, exe, "reduce_rank", q(1600, 40000))
    traces(ck, exe, "reduce_vast", q(240, 5000))
    traces(ck, exe, "ieee_products", q(4000, 60000), SEED + 70)
    traces(ck, exe, "ieee_sums", q(2000, 40000), SEED + 70)
    dyadic(ck, exe, "reduce", q(2500, 50000))


def c08(ck, exe):
    family(ck, exe, "maps", "MapSetups", "NoCmds", "MapTail", 0, FLOAT)
    traces(ck, exe, "maps", q(20000, 300000))
    traces(ck, exe, "maps_big", q(1600, 30000))
    traces(ck, exe, "maps_rank", q(1600, 40000))
    traces(ck, exe, "maps_vast", q(240, 5000))
    traces(ck, exe, "zeros_maps", q(6000, 80000))
    traces(ck, exe, "smooth_maps", q(6000, 80000))
    dyadic(ck, exe, "maps", q(3000, 60000))


def c09(ck, exe):
    family(ck, exe, "graph", "GraphSetups", "GraphCmds", "GraphTail", q(2, 3), FLOAT, "GradIsDerivative GradShapes")
    traces(ck, exe, "autograd", q(15000, 200000))
    traces(ck, exe, "smooth", q(12000, 150000))
    traces(ck, exe, "autograd_big", q(2000, 30000))
    traces(ck, exe, "autograd_rank", q(1600, 40000))
    traces(ck, exe, "autograd_vast", q(240, 5000))
    traces(ck, exe, "ieee_graph", q(6000, 80000))
    traces(ck, exe, "deep", q(900, 9000))
    dyadic(ck, exe, "autograd", q(3000, 60000))
    traces(ck, exe, "par_huge", q(160, 3000))


def c10(ck, exe):
    family(ck, exe, "history", "HistSetups", "HistCmds", "HistTail", q(2, 3), "f64", "LedgerOk GradShapes")
    traces(ck, exe, "history", q(20000, 300000))
    traces(ck, exe, "history_vast", q(200, 4000))
    traces(ck, exe, "life_history", q(10000, 150000))
    dyadic(ck, exe, "history", q(2500, 50000))


POOL_CFG = """SPECIFICATION Spec
CONSTANTS Workers = {%s}
 Outside = {%s}
 Calls = {%s}
 Senders = %d
 Readers = %d
 TwoScopes = %s
 None = None
INVARIANT Complete
PROPERTY Ends
"""
SPLIT_CFG = """SPECIFICATION Spec
CONSTANT Max = %d
INVARIANTS OneSlot EverySlot SumsRight OneOrder
CHECK_DEADLOCK FALSE
"""


def pools(ck):
    """the pool model, and that it would show the deadlock of a single scope"""
    some = lambda x, n: ",".join(x + str(i) for i in range(n))
    for w, o, c, s, r in q([(1, 1, 2, 2, 2), (2, 1, 2, 2, 2)], [(1, 1, 2, 2, 2), (2, 1, 2, 2, 2), (1, 2, 3, 2, 2), (2, 2, 2, 2, 2), (3, 0, 2, 2, 2), (2, 1, 3, 2, 1)]):
        model(ck, "pool_%d_%d_%d" % (w, o, c), "BmmPool", POOL_CFG % (some("w", w), some("o", o), some("c", c), s, r, "TRUE"))
    model(ck, "pool_broken", "BmmPool", POOL_CFG % ("w1,w2", "o1", "c1,c2", 2, 2, "FALSE"), canary="Deadlock")


THREADS = [None, {"RAYON_NUM_THREADS": "1"}, {"RAYON_NUM_THREADS": "2"}, {"RAYON_NUM_THREADS": "5"}]


def c11(ck, exe):
    pools(ck)
    model(ck, "blocks", "SplitWriter", SPLIT_CFG % q(5, 8))
    for k, env in enumerate(THREADS):
        if ck.violations:
            break
        traces(ck, exe, "par", q(3000, 40000), SEED + 100 * k, env)
        traces(ck, exe, "par_big", q(700, 8000), SEED + 100 * k, env)
        traces(ck, exe, "par_huge", q(80, 1000), SEED + 100 * k, env)
        rounding(ck, exe, q(60, 1000), SEED + 100 * k, env)


CELL_CFG = """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 Calls = %d
 Split = %s
INVARIANTS Exclusive Within NothingLost
PROPERTIES Whole%s
"""


def c12(ck, exe):
    model(ck, "cell", "GradCell", CELL_CFG % ("t1,t2", q(2, 3), "FALSE", " Ends"))
    model(ck, "cell3", "GradCell", CELL_CFG % ("t1,t2,t3", q(1, 2), "FALSE", q(" Ends", "")))
    model(ck, "cell_broken", "GradCell", CELL_CFG % ("t1,t2", 1, "TRUE", ""), canary="Whole")
    hooked = None
    try:
        hooked = build(hooks=True)
    except ToolError:
        log("  no schedules: the code does not build with its locks replaced")
    if hooked and not histories(ck, hooked, "scheduled", SEED, q(60, 700), q(200, 600)):
        log("  no schedules: threads wait for something else than the locks")
        hooked = None
    histories(ck, exe, "free", SEED, q(100, 1500), q(20, 40))
    histories(ck, exe, "flood", SEED, q(40, 400), q(60, 200))
    traces(ck, exe, "par", q(2000, 20000), SEED + 1000)
    traces(ck, exe, "par_crowd", q(250, 3000), SEED + 1000)
    ck.part(scheduled=hooked is not None)


def c13(ck, exe):
    pools(ck)
    try:
        histories(ck, build(hooks=True), "scheduled", SEED + 2000, q(40, 500), q(200, 600), only_stuck=True)
    except ToolError as e:
        log("  no schedules: %s" % str(e)[:200])
    histories(ck, exe, "flood", SEED + 2000, q(30, 400), q(60, 200), only_stuck=True)
    for k, env in enumerate(THREADS):
        if ck.violations:
            break
        traces(ck, exe, "par", q(4000, 60000), SEED + 2000 + 100 * k, env)
        traces(ck, exe, "par_big", q(500, 8000), SEED + 2000 + 100 * k, env)
        traces(ck, exe, "par_huge", q(80, 1000), SEED + 2000 + 100 * k, env)
        traces(ck, exe, "par_crowd", q(250, 3000), SEED + 2000 + 100 * k, env)


def c14(ck, exe):
    family(ck, exe, "immutable", "ImmSetups", "ImmCmds", "ObsTail", 2, q("f64", FLOAT))
    traces(ck, exe, "immutable", q(15000, 200000))
    traces(ck, exe, "immutable_vast", q(240, 5000))


def c15(ck, exe):
    family(ck, exe, "sgd", "ModelSetups", "SgdOkCmds", "ModelTail", q(2, 4), FLOAT)
    traces(ck, exe, "sgd", q(15000, 200000))
    traces(ck, exe, "train_vast", q(400, 6000))
    dyadic(ck, exe, "sgd", q(2500, 50000))


def c16(ck, exe):
    family(ck, exe, "models", "ModelSetups", "ModelCmds", "ModelsTail", q(2, 3), FLOAT)
    traces(ck, exe, "models", q(15000, 200000))
    traces(ck, exe, "train_vast", q(300, 5000), SEED + 700)
    dyadic(ck, exe, "models", q(2500, 50000))
    traces(ck, exe, "smooth", q(4000, 50000), SEED + 500)


def c17(ck, exe):
    family(ck, exe, "train", "ModelSetups", "TrainCmds", "ObsTail", q(3, 5), FLOAT)
    traces(ck, exe, "train", q(8000, 100000))
    traces(ck, exe, "train_vast", q(300, 6000), SEED + 900)
    dyadic(ck, exe, "train", q(2500, 50000))
    traces(ck, exe, "smooth_train", q(8000, 100000))
    traces(ck, exe, "long_train", q(2400, 30000))
    traces(ck, exe, "long_life_train", q(20000, 250000))
    rounding(ck, exe, q(60, 1000), SEED + 3000)


def c19(ck, exe):
    family(ck, exe, "mem_train", "ModelSetups", "TrainCmds", "MemTrainTail", q(2, 3), FLOAT)
    family(ck, exe, "mem_graph", "GraphSetups", "GraphCmds", "MemGraphTail", q(1, 2), "f64")
    family(ck, exe, "mem_history", "HistSetups", "MemHistCmds", "MemTail", q(1, 2), "f64")
    traces(ck, exe, "memory", q(6000, 100000))


def c18(ck, exe):
    laws(ck, "Views")
    family(ck, exe, "equality", "EqSetups", "NoCmds", "EqTail", 0, FLOAT)
    traces(ck, exe, "equality", q(20000, 300000))
    dyadic(ck, exe, "equality", q(3000, 60000))
    traces(ck, exe, "equality_big", q(1600, 30000))
    traces(ck, exe, "equality_rank", q(1600, 40000))
    traces(ck, exe, "equality_vast", q(240, 5000))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
          "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}


def main():
    prop = sys.argv[1]
    ck = Check(prop)
    try:
        exe = build()
        CHECKS[prop](ck, exe)
        rc = ck.finish()
    except ToolError as e:
        log("ERROR: %s" % e)
        if ck.violations:
            rc = ck.finish()
        else:
            shutil.rmtree(ck.dir, ignore_errors=True)
            rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
