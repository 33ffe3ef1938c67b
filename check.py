#!/usr/bin/env python3
"""Decide one property by running the real code under monitors.

  check.py <property-id>            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py --replay <file>          run one recorded case again
  check.py --build-only [ids...]    warm the build cache

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..".
Exit 2: the check itself could not give an answer (build failure, nothing observed).
"""
import sys, os, json, subprocess, hashlib, time, re, shutil, tempfile, signal, glob, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS

NCPU = os.cpu_count() or 4
T0 = time.time()
COMMON = ["-std=c++11", "-fopenmp", "-fPIC", "-w", "-I" + REPO, "-I" + REPO + "/synk", "-I" + REPO + "/reordering"]
VARIANTS = {
  # production optimisation level, no asserts
  "rel":  dict(cxx="g++", lib=["-O3", "-DNDEBUG"], har=["-O2"], link=[]),
  # memory errors and undefined behaviour, library asserts on
  "asan": dict(cxx="g++", lib=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
               har=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"], link=["-fsanitize=address,undefined"]),
  # the same without the library's asserts
  "asann": dict(cxx="g++", lib=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
               har=["-O1", "-g1", "-DHV_LIB_NDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address"], link=["-fsanitize=address,undefined"]),
  # schedule perturbation at every basic block of the library + block coverage
  "cov":  dict(cxx="g++", lib=["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"], har=["-O2", "-DHV_COV"], link=[]),
  # the same, with the harness (templates of the library live there) instrumented too
  "covh": dict(cxx="g++", lib=["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"], har=["-O2", "-DHV_COV"], harx=["-O1", "-fsanitize-coverage=trace-pc"], link=[]),
  # run under valgrind's memory checker: values that were never written are followed to their use
  "vg":   dict(cxx="g++", lib=["-O1", "-g1", "-DNDEBUG"], har=["-O1", "-g1", "-DHV_VG"], link=[], wrap=["valgrind", "-q", "--vgdb=no", "--tool=memcheck", "--fair-sched=yes", "--num-callers=12", "--track-origins=no", "--undef-value-errors=yes", "--leak-check=no", "--redzone-size=64", "--error-limit=no", "--max-threads=64", "--show-realloc-size-zero=no", "--suppressions=" + os.path.join(HERE, "vg", "memcheck.supp")]),
  # data races: clang + own instrumented OpenMP runtime (see tsan/)
  "tsan": dict(cxx="clang++", tsan=True),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def hash_files(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def repo_sources():
    s = []
    for d in ("", "reordering", "synk"):
        s += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return s
def repo_headers():
    s = []
    for d in ("", "reordering", "synk"):
        for e in ("hpp", "h"):
            s += glob.glob(os.path.join(REPO, d, "*." + e))
    return sorted(s)

class BuildError(Exception): pass

def compile_one(job):
    cmds, out = job
    if os.path.exists(out): return
    for cmd in cmds:
        r = sh(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(out + ".tmp", out)

def obj_job(variant, src, kind, hdrhash, extra=()):
    v = VARIANTS[variant]
    flags = list(v.get(kind, [])) + list(extra)
    h = hash_files([src], (variant, kind, flags, COMMON, hdrhash))
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s.o" % (os.path.basename(src).replace(".", "_"), variant, h))
    tmp = out + ".tmp"
    if v.get("tsan"):
        ll = tmp + ".ll"; ll2 = tmp + "2.ll"
        omph = os.path.join(HERE, "tsan")
        # 1. plain IR with the sanitizer attribute, 2. volatile accesses become
        # acquire/release atomics (on x86 volatile spin flags are exactly that),
        # 3. ThreadSanitizer instrumentation
        inst = ["-fsanitize=thread"]
        cmds = [["clang++"] + COMMON + ["-I" + omph, "-O1", "-g1", "-DHV_TSAN", "-DNDEBUG"] + inst + list(extra) + ["-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", ll],
                [sys.executable, os.path.join(HERE, "tsan", "volatile2atomic.py"), ll, ll2],
                ["clang++", "-fPIC", "-O1", "-g1", "-w"] + inst + ["-c", "-x", "ir", ll2, "-o", tmp],
                ["rm", "-f", ll, ll2]]
        return (cmds, out)
    return ([[v["cxx"]] + COMMON + flags + ["-c", src, "-o", tmp]], out)

def build(pairs):
    """pairs: iterable of (variant, harness source) -> {pair: binary}"""
    pairs = sorted(set(pairs)); jobs = {}; plan = []
    rh = hash_files(repo_headers(), "h")
    hh = hash_files(glob.glob(os.path.join(HERE, "harness", "*.hpp")) + glob.glob(os.path.join(HERE, "tsan", "*")), rh)
    for variant, har in pairs:
        objs = []
        for s in repo_sources():
            j = obj_job(variant, s, "lib", rh if variant != "tsan" else hh); jobs[j[1]] = j; objs.append(j[1])
        hobjs = []
        for s in ("main.cpp", har):
            j = obj_job(variant, os.path.join(HERE, "harness", s), "har", hh, VARIANTS[variant].get("harx", ()) if s != "main.cpp" else ()); jobs[j[1]] = j; hobjs.append(j[1])
        if VARIANTS[variant].get("tsan"):
            src = os.path.join(HERE, "tsan", "vomp.cpp")
            h = hash_files([src], ("vomp", hh))
            o = os.path.join(BUILD, "obj", "vomp-%s.o" % h)
            jobs[o] = ([["clang++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fsanitize=thread", "-c", src, "-o", o + ".tmp"]], o)
            hobjs.append(o)
        plan.append(((variant, har), objs, hobjs))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, jobs.values()))
    res = {}
    def link(p):
        (variant, har), objs, hobjs = p
        v = VARIANTS[variant]
        name = hashlib.sha256("".join(objs + hobjs).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s-%s-%s" % (har[:-4], variant, name))
        if not os.path.exists(out):
            lib = out + ".a"
            if os.path.exists(lib): os.unlink(lib)
            r = sh(["ar", "qc", lib] + objs)
            if r.returncode: raise BuildError(r.stdout.decode())
            if v.get("tsan"):
                cmd = ["clang++", "-fsanitize=thread", "-o", out + ".tmp"] + hobjs + [lib, "-lpthread", "-lm"]
            else:
                cmd = [v["cxx"], "-fopenmp", "-o", out + ".tmp"] + v["link"] + hobjs + [lib, "-lpthread", "-lm"]
            r = sh(cmd)
            if r.returncode: raise BuildError(" ".join(cmd) + r.stdout.decode(errors="replace")[-4000:])
            os.unlink(lib); os.replace(out + ".tmp", out)
        return (variant, har), out
    with ThreadPoolExecutor(NCPU) as ex:
        for k, o in ex.map(link, plan): res[k] = o
    return res

ENVBASE = {
  "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=6000",
  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
  "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0:suppressions=" + os.path.join(HERE, "tsan", "suppressions.txt"),
  "OMP_DYNAMIC": "false", "OMP_NESTED": "false", "GOMP_SPINCOUNT": "2000", "OMP_WAIT_POLICY": "passive", "LC_ALL": "C",
}

def crash_signature(stderr, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    kind = None
    if m: kind = "asan-" + m.group(1)
    if not kind:
        m = re.search(r"runtime error: (.*)", stderr)
        if m: kind = "ubsan: " + re.sub(r"-?\d+|0x[0-9a-f]+", "#", m.group(1))[:80]
    if not kind:
        m = re.search(r"Assertion `(.*?)' failed", stderr)
        if m: kind = "assert: " + m.group(1)[:80]
    if not kind and "terminate called" in stderr:
        kind = "terminate: " + (re.findall(r"what\(\): *(.*)", stderr) or ["?"])[0][:60]
    if not kind: kind = ("signal %d" % -rc) if rc < 0 else ("exit code %d" % rc)
    fr = re.search(r"#\d+ 0x[0-9a-f]+ in (\S+?)[( ].*?/repo/([\w./]+):\d+", stderr) or re.search(r"in (SpMP::\w+|synk::\w+)()", stderr)
    where = (" in " + fr.group(1)[:60]) if fr else ""
    return kind, where

class Job:
    def __init__(self, spec, binary, pid, tier, seed, scratch):
        self.spec, self.bin, self.pid, self.tier, self.seed, self.scratch = spec, binary, pid, tier, seed, scratch

def args_of(j, extra, out, prog, scratch):
    a = VARIANTS[j.spec["variant"]].get("wrap", []) + [j.bin, "--seed", str(j.seed * 100 + j.spec["job"]), "--mode", j.spec.get("mode", ""), "--scratch", scratch,
         "--maxthreads", str(min(j.spec.get("maxthreads", 8), max(2, NCPU))), "--out", out, "--progress", prog] + extra
    if j.tier == "thorough": a.append("--thorough")
    if j.spec.get("perturb"): a.append("--perturb")
    if j.spec.get("leaks"): a.append("--leaks")
    return a

def run_proc(j, extra, tag, watchdog):
    """one harness process; returns dict(status, recs, stderr, idx, desc)"""
    d = os.path.join(j.scratch, tag); os.makedirs(d, exist_ok=True)
    out, prog, err = (os.path.join(d, x) for x in ("out", "prog", "err"))
    for f in (out, prog, err):
        if os.path.exists(f): os.unlink(f)
    sc = os.path.join(d, "s"); os.makedirs(sc, exist_ok=True)
    env = dict(os.environ); env.update(ENVBASE); env.update(j.spec.get("env", {}))
    if j.spec.get("leaks"): env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0")
    with open(err, "wb") as ef:
        p = subprocess.Popen(args_of(j, extra, out, prog, sc), stdout=ef, stderr=ef, cwd=sc, env=env, start_new_session=True)
    LIVE.add(p.pid)
    last, lastt, status = None, time.time(), None
    while True:
        try:
            p.wait(0.2); break
        except subprocess.TimeoutExpired: pass
        try:
            with open(prog, "rb") as f: cur = f.read(4)
        except OSError: cur = None
        if cur != last: last, lastt = cur, time.time()
        if time.time() - lastt > watchdog: status = "hang"
        if time.time() - T0 > HARD: status = "budget"
        if STOP.is_set(): status = "stopped"
        if os.path.exists(err) and os.path.getsize(err) > 200 << 20: status = "flood"
        if status:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait(); break
    LIVE.discard(p.pid)
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: pass
    with open(err, "rb") as f:
        stderr = f.read(3 << 20).decode(errors="replace")
    idx, desc = None, ""
    try:
        raw = open(prog, "rb").read()[8:].split(b"\0")[0].decode(errors="replace")
        idx, _, desc = raw.partition(" "); idx = int(idx)
    except Exception: pass
    ended = any(r["t"] == "end" for r in recs)
    if status is None:
        if ended and p.returncode in (0, 1, 66): status = "ok"
        elif p.returncode == -9: status = "killed"
        else: status = "crash"
    shutil.rmtree(sc, ignore_errors=True)
    return dict(status=status, recs=recs, stderr=stderr, idx=idx, desc=desc, rc=p.returncode)

HARD = 700
STOP = threading.Event()  # enough violations seen: no need to explore further
LIVE = set()
def on_term(*_):
    for p in list(LIVE):
        try: os.killpg(p, signal.SIGKILL)
        except OSError: pass
    os._exit(3)
def main():
    global HARD
    signal.signal(signal.SIGTERM, on_term); signal.signal(signal.SIGINT, on_term)
    if len(sys.argv) > 1 and sys.argv[1] == "--build-only":
        ids = sys.argv[2:] or sorted(PROPS)
        build([(j["variant"], j.get("harness", PROPS[p].get("harness"))) for p in ids for j in PROPS[p]["jobs"]]); return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        spec = dict(PROPS[r["property"]]["jobs"][r["job"]], job=r["job"])
        har = spec.get("harness", PROPS[r["property"]].get("harness"))
        b = build([(spec["variant"], har)])[(spec["variant"], har)]
        sc = tempfile.mkdtemp(prefix="verif-")
        j = Job(spec, b, r["property"], r["tier"], r["seed"], sc)
        o = run_proc(j, ["--only", str(r["idx"])], "replay", 120)
        shutil.rmtree(sc, ignore_errors=True)
        print(json.dumps([x for x in o["recs"] if x["t"] == "fail"], indent=1)); print(o["status"]); print(o["stderr"][-6000:])
        return 0 if o["status"] == "ok" and not any(x["t"] == "fail" for x in o["recs"]) else 1
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "thorough": HARD = 6 * 3600
    specs = [dict(s, job=i) for i, s in enumerate(P["jobs"])]
    try:
        bins = build([(s["variant"], s.get("harness", P.get("harness"))) for s in specs])
    except BuildError as e:
        print("BUILD FAILED (the check gives no answer)\n" + str(e)); return 2
    tbuild = time.time() - T0
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    known = load_known(pid)
    failures, incon = [], []; cnt = {}; sigs = set(); samples = []; evals = 0
    lock = threading.Lock()
    tasks = []
    for s in specs:
        total = s["count"][0 if tier == "quick" else 1]
        procs = max(1, min(s.get("procs", 4), total))
        for k in range(procs):
            n = (total - k + procs - 1) // procs
            if n > 0: tasks.append((s, k, procs, n))
    sem = {}
    def run_task(t):
        nonlocal evals
        s, k, stride, n = t
        j = Job(s, bins[(s["variant"], s.get("harness", P.get("harness")))], pid, tier, seed, scratch)
        wd = s.get("watchdog", 60)
        start, left, probes, restarts = k, n, (k == 0 and s["variant"] not in ("tsan", "vg")), 0
        while (left > 0 or probes) and not STOP.is_set():
            extra = ["--from", str(start), "--stride", str(stride), "--count", str(left)]
            if probes is True: extra.append("--probes")
            r = run_proc(j, extra, "j%d_%d_%d" % (s["job"], k, restarts), wd)
            done = None
            if s.get("leaks"): name_leaks(r)
            if s["variant"] == "vg": name_memcheck(r)
            with lock:
                for rec in r["recs"]:
                    if rec["t"] == "fail":
                        failures.append(dict(job=s["job"], idx=rec["idx"], key=rec["key"], msg=rec["msg"], desc=rec["desc"], variant=s["variant"]))
                    elif rec["t"] == "end":
                        done = rec; evals += rec["run"]
                        for a, b in rec["cnt"].items():
                            if a.startswith("max:"): cnt[a] = max(cnt.get(a, 0), b)
                            else: cnt[a] = cnt.get(a, 0) + b
                        sigs.update(rec["sigs"])
                        if len(samples) < 12: samples.extend("%s/%s %s" % (s["variant"], s.get("mode", ""), x) for x in rec["samples"][:2])
                if s["variant"] == "tsan": collect_tsan(r, s, failures, cnt)
            with lock:
                nf = [f for f in failures if not match_known(known, f) and f["key"].startswith(P.get("judges", ""))]
                if len(nf) >= 40 or (len(nf) >= 5 and time.time() - T0 > 300): STOP.set()
            if r["status"] == "ok" or STOP.is_set(): return
            if r["status"] in ("budget",):
                with lock: incon.append("time budget reached in job %d" % s["job"])
                return
            idx = r["idx"]
            if r["status"] == "crash" and "LeakSanitizer has encountered a fatal error" in r["stderr"]:
                with lock: incon.append("the leak search cannot run here: " + r["stderr"][-300:])
                return
            if r["status"] == "crash":
                kind, where = crash_signature(r["stderr"], r["rc"])
                with lock:
                    failures.append(dict(job=s["job"], idx=idx, key="crash:" + kind + where, msg=tail(r["stderr"]), desc=r["desc"], variant=s["variant"]))
            else:  # hang / killed / flood: confirm alone before judging
                r2 = run_proc(j, ["--only", str(idx)], "c%d_%d_%d" % (s["job"], k, restarts), 2 * wd)
                if s.get("leaks"): name_leaks(r2)
                with lock:
                    if r2["status"] == "hang" and r["status"] == "hang":
                        failures.append(dict(job=s["job"], idx=idx, key="hang", msg="no progress for %d s, twice" % wd, desc=r["desc"], variant=s["variant"]))
                    elif r2["status"] == "crash":
                        kind, where = crash_signature(r2["stderr"], r2["rc"])
                        failures.append(dict(job=s["job"], idx=idx, key="crash:" + kind + where, msg=tail(r2["stderr"]), desc=r2["desc"], variant=s["variant"]))
                    elif any(x["t"] == "fail" for x in r2["recs"]):
                        for rec in r2["recs"]:
                            if rec["t"] == "fail": failures.append(dict(job=s["job"], idx=rec["idx"], key=rec["key"], msg=rec["msg"], desc=rec["desc"], variant=s["variant"]))
                    else:
                        incon.append("%s in job %d case %s not reproduced" % (r["status"], s["job"], idx))
            with lock:
                nf = [f for f in failures if not match_known(known, f) and f["key"].startswith(P.get("judges", ""))]
                if len([f for f in nf if f["key"] == "hang"]) >= 2 or (nf and time.time() - T0 > 400): STOP.set()
            restarts += 1
            if STOP.is_set() or restarts > 6 or idx is None: return
            if idx < 0:  # crashed inside a probe: run remaining probes one by one
                for q in range(-idx, 64):
                    r3 = run_proc(j, ["--only", str(-1 - q)], "p%d_%d_%d" % (s["job"], k, q), wd)
                    if r3["status"] == "crash" and "no such probe" in r3["stderr"]: break
                    with lock:
                        if r3["status"] == "crash":
                            kind, where = crash_signature(r3["stderr"], r3["rc"])
                            failures.append(dict(job=s["job"], idx=-1 - q, key="crash:" + kind + where, msg=tail(r3["stderr"]), desc=r3["desc"], variant=s["variant"]))
                        for rec in r3["recs"]:
                            if rec["t"] == "fail": failures.append(dict(job=s["job"], idx=rec["idx"], key=rec["key"], msg=rec["msg"], desc=rec["desc"], variant=s["variant"]))
                    if not any(x["t"] == "end" and x["run"] for x in r3["recs"]) and r3["status"] == "ok": break
                probes = False
            else:
                probes = False
                nxt = idx + stride
                left -= (nxt - start) // stride; start = nxt
    conc = P.get("parallel", NCPU)
    # jobs of heavy variants (spinning teams) may ask for exclusive slots
    with ThreadPoolExecutor(conc) as ex:
        list(ex.map(run_task, tasks))
    shutil.rmtree(scratch, ignore_errors=True)
    # ---- verdict
    if "judges" in P:  # this check decides on these kinds of report only; wrong results are for the checks of the operations
        other = [f for f in failures if not f["key"].startswith(P["judges"])]
        failures = [f for f in failures if f["key"].startswith(P["judges"])]
        for f in other: cnt["other failures, left to the operations' own checks"] = cnt.get("other failures, left to the operations' own checks", 0) + 1
        incon.extend("[%s] in job %d case %s: for another check" % (f["key"], f["job"], f["idx"]) for f in other[:5])
    new, matched = [], []
    for f in failures:
        k = match_known(known, f)
        (matched if k else new).append((k, f))
    seen = set()
    for k, f in matched:
        if k["id"] in seen: continue
        seen.add(k["id"])
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    nv = 0; keys = set()
    for _, f in new:
        if f["key"] in keys and nv >= 5: continue
        keys.add(f["key"]); nv += 1
        if nv > 10: break
        rp = os.path.join(rdir, "%s-%d.json" % (pid, nv))
        json.dump(dict(property=pid, tier=tier, seed=seed, **f), open(rp, "w"), indent=1)
        print("  [%s] %s | %s | case %s" % (f["key"], f["msg"][:600], f["desc"][:600], f["idx"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    wall = time.time() - T0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=P["rule"], samples=samples or ["(none)"],
                            observed=dict(sorted(cnt.items())), variants=sorted(set(s["variant"] for s in specs)),
                            inconclusive=incon, build_s=round(tbuild, 1)),
              assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct, %d violations, %d inconclusive, %.1f s (build %.1f s)" % (pid, tier, evals, len(sigs), len(new), len(incon), wall, tbuild))
    if new: return 1
    need = P.get("min_evals", 1)
    if evals < need or not sigs:
        print("nothing observed: no answer"); return 2
    for c in P.get("require", []):
        if not cnt.get(c):
            print("monitor counter '%s' stayed at zero: no answer" % c); return 2
    return 0

def tail(s):
    m = re.search(r"(ERROR: AddressSanitizer|runtime error|Assertion)", s)
    if m:
        a = s.rfind("\n", 0, m.start()) + 1
        return s[a:a + 1500]
    return s[-800:]

def name_leaks(r):
    """attach to a "leak" record the blocks of the leak search whose allocation
    happened inside the library, outermost library function first"""
    files = set(os.path.basename(x) for x in repo_sources() + repo_headers())
    for rec in r["recs"]:
        if rec["t"] != "fail" or rec["key"] != "leak": continue
        named = []
        for b in re.split(r"\n\s*\n", r["stderr"]):
            if not re.search(r"(Direct|Indirect) leak of", b): continue
            for fn, f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?) (?:/\S*/)?([\w.]+):\d+", b):
                if f in files:
                    named.append((not re.search(r"Direct leak", b), re.sub(r"\(.*", "", fn) + "@" + f, b.strip()[:900])); break
        named.sort(key=lambda x: x[0])
        rec["key"] = "leak:" + named[0][1] if named else "leak"
        rec["msg"] += "".join("\n" + b for _, _, b in named[:3])

def name_memcheck(r):
    """attach to a "memcheck" record the reports of its case, the innermost
    library function of the first one in the key"""
    files = set(os.path.basename(x) for x in repo_sources() + repo_headers())
    for rec in r["recs"]:
        if rec["t"] != "fail" or rec["key"] != "memcheck": continue
        part = r["stderr"].split("memcheck case %d begins\n" % rec["idx"])[-1].split("memcheck case ")[0]
        part = "\n".join(re.sub(r"^==\d+== ?", "", l) for l in part.split("\n") if l.startswith("=="))
        blocks = [b for b in re.split(r"\n\s*\n", part) if re.search(r"^\s+at 0x", b, re.M)]
        for b in blocks:
            fr = [(fn, f) for fn, f in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*?) \(([\w.]+):\d+\)", b) if f in files]
            kind = [l for l in b.strip().split("\n") if not l.startswith("Thread ")][0].strip()
            if fr: rec["key"] = "memcheck:" + re.sub(r"\d+", "#", kind)[:60] + " in " + re.sub(r"\(.*", "", fr[0][0]) + "@" + fr[0][1]; break
        rec["msg"] += "".join("\n" + b.strip()[:900] for b in blocks[:2])

def collect_tsan(r, s, failures, cnt):
    blocks = re.findall(r"WARNING: ThreadSanitizer: (.*?)\n(.*?)\n={18}", r["stderr"] + "\n==================", re.S)
    cnt["race reports"] = cnt.get("race reports", 0) + len(blocks)
    seen = set()
    for kind, body in blocks:
        fr = re.findall(r"#\d+ (.*?) (?:/\S*/)?([\w.]+):(\d+)", body)
        st = [re.sub(r"\(.*", "", a)[:60] + "@" + b for a, b, _ in fr if b.endswith(("pp", ".h"))][:1]
        # one key per report kind and pair of outermost accesses, without line numbers
        parts = re.split(r"\n\n", body)
        tops = []
        for p in parts[:2]:
            m = re.search(r"#0 (.*?) (?:/\S*/)?([\w.]+):(\d+)", p)
            if m: tops.append(re.sub(r"\(.*", "", m.group(1))[:50] + "@" + m.group(2))
        key = "tsan:" + kind.split("(")[0].strip() + ":" + "|".join(sorted(tops))
        if key in seen: continue
        seen.add(key)
        failures.append(dict(job=s["job"], idx=r["idx"], key=key, msg=(kind + "\n" + body)[:2500], desc=r["desc"], variant="tsan"))

def load_known(pid):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(f): return out
    for l in open(f):
        l = l.strip()
        m = re.match(r"finding: property=(\S+) id=(\S+) variant=(\S+) probe=(-?\d+) key=`(.*?)` (.*)$", l)
        if m and m.group(1) == pid:
            out.append(dict(id=m.group(2), variant=m.group(3), probe=int(m.group(4)), key=m.group(5), what=m.group(6)))
    return out
def match_known(known, f):
    for k in known:
        if f["idx"] == k["probe"] and f["key"] == k["key"] and k["variant"] in ("*", f["variant"]): return k
    return None

if __name__ == "__main__":
    sys.exit(main())
