#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]

Builds the monitoring harnesses of one property against the working tree of /repo, runs them and decides.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed."""
import array, fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from specs import SPECS, HARNESSES, FLAVOURS

def log(*a):
    print(*a, flush=True)

def die(msg):
    log("CHECK-ERROR: " + msg)
    sys.exit(2)

# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for d in ("harness", "harness/shim"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, f)
            if f.endswith(".hpp"):
                h.update(f.encode()); h.update(open(p, "rb").read())
    return h

def build_lib(flavour, base_hash):
    """The library itself (src/asioext.cpp), instrumented."""
    fl = FLAVOURS[flavour]
    if fl.get("header_only"): return ("lib", flavour, "", "")
    cmd = [fl.get("cxx", "g++"), "-std=c++20", "-g1", "-w", "-DASIOEXT_SEPARATE_COMPILATION", "-I" + os.path.join(REPO, "include")] + fl["flags"]
    h = base_hash.copy()
    h.update(repr(cmd).encode())
    out = os.path.join(BUILD, flavour, "lib-%s.o" % h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        prune(os.path.dirname(out), r"lib-[0-9a-f]{16}\.o")
        tmp = out + ".tmp%d.o" % os.getpid()
        r = subprocess.run(cmd + ["-c", os.path.join(REPO, "src", "asioext.cpp"), "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode: return ("lib", flavour, None, r.stdout[-6000:])
        os.rename(tmp, out)
    return ("lib", flavour, out, "")

def prune(d, pattern):
    for old in os.listdir(d):
        if re.fullmatch(pattern, old):
            try: os.unlink(os.path.join(d, old))
            except OSError: pass

def build_one(name, flavour, base_hash):
    """Compiles the harness to an object; linking happens once the library object is there."""
    hs = HARNESSES[name]
    fl = FLAVOURS[flavour]
    src = os.path.join(VERIF, "harness", hs["src"])
    cmd = [fl.get("cxx", "g++"), "-std=c++20", "-g1", "-w",
           "-DASIOEXT_HEADER_ONLY" if fl.get("header_only") else "-DASIOEXT_SEPARATE_COMPILATION",
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")] + fl["flags"] + hs.get("flags", [])
    h = base_hash.copy()
    h.update(repr((cmd, hs, fl)).encode()); h.update(open(src, "rb").read())
    out = os.path.join(BUILD, flavour, "%s-%s" % (name, h.hexdigest()[:16]))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        prune(os.path.dirname(out), re.escape(name) + r"-[0-9a-f]{16}")
        tmp = out + ".tmp%d.o" % os.getpid()
        t = time.time()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return (name, flavour, None, r.stdout[-6000:])
        log("  compiled %s [%s] in %.1fs" % (name, flavour, time.time() - t))
        return (name, flavour, ("link", tmp, out), "")
    return (name, flavour, out, "")

def link_one(name, flavour, tmp, out, lib):
    hs, fl = HARNESSES[name], FLAVOURS[flavour]
    cmd = [fl.get("cxx", "g++")] + fl["flags"] + [tmp] + ([lib] if lib else []) + ["-o", out + ".tmp"] + ["-Wl,--wrap=" + w for w in hs.get("wrap", [])]
    r = subprocess.run(cmd + hs.get("libs", []) + fl.get("libs", []) + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(tmp)
    if r.returncode: return (name, flavour, None, r.stdout[-6000:])
    os.rename(out + ".tmp", out)
    return (name, flavour, out, "")

# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=0:handle_abort=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=97:report_objects=0",
}

def run_job(job, binary, seed, tier, tmpdir, idx, extra=(), timeout=None, leaks=True):
    d = os.path.join(tmpdir, "job%d" % idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ)
    env.update(SAN_ENV)
    if not leaks or job.get("leaks") is False:
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    if job["flavour"].startswith("tsan"):
        env["TSAN_OPTIONS"] += ":log_path=%s/tsan" % d
        supp = os.path.join(VERIF, "harness", "tsan.supp")
        if os.path.exists(supp):
            env["TSAN_OPTIONS"] += ":suppressions=" + supp
    env["VH_SCRATCH"] = d
    env["TMPDIR"] = d
    cmd = [binary, "--group", job["group"], "--seed", str(seed), "--first", str(job["first"]),
           "--cases", str(job["cases"]), "--stats", d + "/stats.json", "--cur", d + "/cur",
           "--distinct", d + "/distinct"] + (["--thorough"] if tier == "thorough" else []) + list(extra)
    t = time.time()
    timeout = timeout or job.get("timeout", 170)
    errf = open(d + "/stderr", "wb")
    p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=errf, start_new_session=True)
    hang = False
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        hang = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        rc = p.wait()
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    errf.close()
    err = open(d + "/stderr", "rb").read()[-400000:].decode("latin-1")
    cur = ""
    try: cur = open(d + "/cur", "rb").read().split(b"\0")[0].decode("latin-1")
    except OSError: pass
    stats = None
    try: stats = json.load(open(d + "/stats.json"))
    except (OSError, ValueError): pass
    dist = array.array("Q")
    try: dist.frombytes(open(d + "/distinct", "rb").read())
    except OSError: pass
    tsan = ""
    for f in os.listdir(d):
        if f.startswith("tsan."):
            tsan += open(os.path.join(d, f), "rb").read().decode("latin-1")
    subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
    shutil.rmtree(d, ignore_errors=True)
    return dict(job=job, cmd=cmd, rc=rc, hang=hang, err=err, cur=cur, stats=stats, distinct=dist,
                tsan=tsan, wall=time.time() - t)

FRAME = re.compile(r"#\d+\s+(?:0x[0-9a-f]+\s+(?:in\s+)?)?(.*?)\s+(/\S+?)(?::\d+)*(?:\s|$)", re.M)

def shorten(fn):
    fn = re.sub(r"\(.*$", "", fn)
    prev = None
    while prev != fn:
        prev, fn = fn, re.sub(r"<[^<>]*>", "", fn)
    return fn.strip().split(" ")[-1]

def repo_frame(text):
    for fn, path in FRAME.findall(text):
        if "/asioext/" in path and "/verif/" not in path:
            return shorten(fn) + "@" + path[path.index("/asioext/") + 9:]
    for fn, path in FRAME.findall(text):
        if "/verif/" in path or "/harness/" in path:
            return shorten(fn) + "@harness"
    return "?"

def analyse(res):
    """-> (violations [(key, detail)], errors [str])"""
    v, errors = [], []
    err, job = res["err"], res["job"]
    if res["stats"]:
        for x in res["stats"]["violations"]:
            v.append((x["key"], x["detail"], x["case"]))
    else: # ended early: what the monitors had reported until then
        for m in re.finditer(r"^MONITOR (\S+) case=(\d+): (.*)", err, re.M):
            if m.group(1) not in [x[0] for x in v]: v.append((m.group(1), m.group(3)[:2000], int(m.group(2))))
    reported = bool(v)
    case = None
    m = re.match(r"case (\d+):", res["cur"])
    if m: case = int(m.group(1))
    san = False
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        san = True
        v.append(("asan:%s:%s" % (m.group(1), repo_frame(err[m.start():])),
                  err[m.start():m.start() + 3000] + "\n-- " + res["cur"][:1500], case))
    m = re.search(r"([\w/.+-]+):\d+:\d+: runtime error: (.*)", err)
    if m:
        san = True
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))[:80]
        v.append(("ubsan:%s:%s" % (os.path.basename(m.group(1)), what),
                  err[m.start():m.start() + 2500] + "\n-- " + res["cur"][:1500], case))
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks", err)
    if m:
        san = True
        v.append(("lsan:leak:%s" % repo_frame(err[m.start():]), err[m.start():m.start() + 3000], None))
    for blk in re.split(r"={18,}\n", res["tsan"]):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if m:
            san = True
            v.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), repo_frame(blk)), blk[:3500], None))
    if "FATAL: ThreadSanitizer" in err + res["tsan"]:
        errors.append("TSan could not start: " + (err + res["tsan"])[-500:])
    if res["hang"]:
        v.append(("hang:%s:%s" % (job["harness"], job["group"]), "no progress within the watchdog; " + res["cur"][:1500], case))
    elif res["stats"] is None and not san and not reported:
        if res["rc"] < 0 or res["rc"] in (134, 139, 97):
            v.append(("crash:%s:%s:rc%d" % (job["harness"], job["group"], res["rc"]),
                      err[-2500:] + "\n-- " + res["cur"][:1500], case))
        else:
            errors.append("harness %s/%s exited %d without a result: %s" % (job["harness"], job["group"], res["rc"], err[-1500:]))
    elif res["rc"] != 0 and not san and not res["hang"]:
        if "LeakSanitizer has encountered a fatal error" in err:
            errors.append("lsan-unavailable")
        else:
            v.append(("crash-at-exit:%s:%s:rc%d" % (job["harness"], job["group"], res["rc"]), err[-2500:], None))
    return v, errors

def expand(spec, tier):
    jobs = []
    for j in spec["jobs"]:
        n = j["cases"] if tier == "quick" else j.get("thorough", j["cases"] * 8)
        shards = j.get("shards", 1)
        if tier == "thorough":
            shards = max(shards, min(8, j.get("tshards", 4)))
        shards = min(shards, n)
        for s in range(shards):
            lo, hi = n * s // shards, n * (s + 1) // shards
            d = dict(j); d.update(first=lo, cases=hi - lo)
            d.setdefault("flavour", "asan")
            if tier == "thorough": d["timeout"] = j.get("ttimeout", 3000)
            jobs.append(d)
    return jobs

def known_findings(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [e for e in data["findings"] if e["property"] == prop and e["status"] == "known"]

def main():
    args = sys.argv[1:]
    if not args: die("usage: check.py PROPERTY")
    prop = args[0]
    if prop not in SPECS: die("unknown property " + prop)
    spec = SPECS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    replay = None
    if len(args) > 2 and args[1] == "--replay":
        replay = json.load(open(args[2]))
        seed = replay["seed"]
    jobs = expand(spec, tier)
    if replay:
        j = replay["job"]
        jobs = [j]
    need = sorted({(j["harness"], j["flavour"]) for j in jobs})
    log("%s: %s, seed %d: building %d harness(es) from %s" % (prop, tier, seed, len(need), REPO))
    base = tree_hash()
    with ThreadPoolExecutor(NCPU) as ex:
        libs = ex.map(lambda f: build_lib(f, base), sorted({f for _, f in need}))
        built = list(ex.map(lambda x: build_one(x[0], x[1], base), need))
        libs = {f: (out, msg) for _, f, out, msg in libs}
        for f, (out, msg) in libs.items():
            if out is None: die("building the library [%s] failed:\n%s" % (f, msg))
        built = list(ex.map(lambda x: link_one(x[0], x[1], x[2][1], x[2][2], libs[x[1]][0]) if isinstance(x[2], tuple) else x, built))
    # The header-only library must define what it declares (only reported by the properties of the parts concerned).
    for n, f, out, msg in built:
        gone = re.findall(r"undefined reference to [`'](asioext::[\w:]+)", msg) if out is None and FLAVOURS[f].get("header_only") else []
        gone = [g for g in gone if re.match(spec.get("defines", "(?!)"), g)]
        if gone:
            rp = os.path.join("evidence", prop + ".replay0.json")
            with open(os.path.join(VERIF, rp), "w") as fh:
                json.dump(dict(property=prop, key="link:" + gone[0], seed=seed, case=None, detail=msg[-3000:],
                               job=next(j for j in jobs if (j["harness"], j["flavour"]) == (n, f))), fh, indent=1)
            log("--- link:%s\na header-only program which uses it cannot be linked: no definition" % gone[0])
            log("VIOLATION property=%s replay=%s" % (prop, rp))
            sys.exit(1)
    bins = {}
    for n, f, out, msg in built:
        if out is None: die("building %s [%s] failed:\n%s" % (n, f, msg))
        bins[(n, f)] = out
    root = os.environ.get("VERIF_TMP") or tempfile.gettempdir()
    tmpdir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=root)
    os.chmod(tmpdir, 0o755)
    try:
        def go(a):
            i, j = a
            extra = []
            if replay and replay.get("case") is not None:
                extra = ["--only", str(replay["case"])]
            b = bins[(j["harness"], j["flavour"])]
            r = run_job(j, b, seed, tier, tmpdir, i, extra)
            if r["hang"]:
                log("  watchdog fired for %s/%s; running it again" % (j["harness"], j["group"]))
                r = run_job(j, b, seed, tier, tmpdir, i, extra)
            if "LeakSanitizer has encountered a fatal error" in r["err"]:
                r = run_job(j, b, seed, tier, tmpdir, i, extra, leaks=False)
                r["noleak"] = True
            return r
        heavy = spec.get("parallel", NCPU)
        with ThreadPoolExecutor(heavy) as ex:
            results = list(ex.map(go, list(enumerate(jobs))))
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)

    evals, counters, samples, errors, found = 0, {}, [], [], []
    dist = set()
    for r in results:
        v, e = analyse(r)
        if r["job"].get("only"): # reports of this job's monitors which speak about another property
            v = [x for x in v if re.match(r"(asan|ubsan|lsan|tsan|hang|crash|crash-at-exit):", x[0]) or any(fnmatch.fnmatchcase(x[0], k) for k in r["job"]["only"])]
        errors += e
        for key, detail, case in v:
            found.append((key, detail, case, r))
        if r["stats"]:
            evals += r["stats"]["evaluations"]
            for k, n in r["stats"]["counters"].items(): counters[k] = counters.get(k, 0) + n
            for s in r["stats"]["samples"][:2]:
                if len(samples) < 12: samples.append("%s/%s: %s" % (r["job"]["harness"], r["job"]["group"], s))
        g = hash(r["job"]["group"]) & 0xffffffff
        dist.update((r["job"]["group"], x) for x in r["distinct"])
        log("  ran %s/%s [%s] %d cases in %.1fs%s" % (r["job"]["harness"], r["job"]["group"], r["job"]["flavour"],
            r["stats"]["evaluations"] if r["stats"] else -1, r["wall"], "" if not v else "  <-- %d report(s)" % len(v)))
    known = known_findings(prop)
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    fresh = []
    for f in found:
        if any(fnmatch.fnmatchcase(f[0], k["key"]) for k in known): continue
        if f[0] not in [x[0] for x in fresh]: fresh.append(f)
    missing = [c for c in spec.get("require", []) if not counters.get(c)] if not replay else []
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(dist), rule=spec["rule"],
                            samples=samples or ["(none)"], observed=counters,
                            jobs=["%s/%s[%s] x%d" % (j["harness"], j["group"], j["flavour"], j["cases"]) for j in jobs],
                            leak_detection="off (LSan unavailable)" if any(r.get("noleak") for r in results) else "on"),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - start, 2), violations=len(fresh))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")
    if fresh:
        for n, (key, detail, case, r) in enumerate(fresh[:5]):
            rp = os.path.join("evidence", "%s.replay%d.json" % (prop, n))
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump(dict(property=prop, key=key, seed=seed, case=case, job=r["job"],
                               command=r["cmd"], detail=detail, running=r["cur"][:3000]), f, indent=1)
            log("--- %s\n%s" % (key, detail[:1800]))
            log("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    errors = [e for e in errors if e != "lsan-unavailable"]
    if errors: die("\n".join(errors))
    if missing: die("inconclusive: nothing observed for " + ", ".join(missing))
    log("%s held: %d executions, %d distinct, %.1fs" % (prop, evals, len(dist), time.time() - start))
    sys.exit(0)

if __name__ == "__main__":
    main()
