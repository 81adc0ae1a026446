#!/usr/bin/env python3
"""Builds the monitors against /repo's current tree, runs the workloads of one property and decides it.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--scale X] [--build-only] [--task NAME]
       run.py --prebuild
exit 0: held on everything explored; exit 1: "VIOLATION property=<id> replay=<path>"; other: error of the check
"""
import argparse, collections, concurrent.futures as cf, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("K52_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.environ.get("K52_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS, CONFIGS, MODULES   # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
def read(path):
    with open(path, "rb") as f:
        return f.read()


def header_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), SRC):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            if "unit_tests" in d:
                continue
            for f in sorted(files):
                if f.endswith((".h", ".inl", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, top).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def module_sources(modules):
    out = []
    for m in modules:
        root, exclude = MODULES[m]
        if root.endswith(".cpp"):
            out.append(os.path.join(REPO, root))
            continue
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith(".cpp") and not any(x in p for x in exclude):
                    out.append(p)
    return out


KEY_LOCKS = collections.defaultdict(threading.Lock)   # two configurations may compile a file in the same way


def compile_one(src, cfg, hh):
    c = CONFIGS[cfg]
    cmd = [c["cxx"]] + shlex.split(c["flags"]) + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + SRC]
    key = hashlib.sha256(json.dumps([cmd, src]).encode() + hh.encode() + read(src)).hexdigest()[:32]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    with KEY_LOCKS[key]:
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError("compiling %s failed:\n%s" % (src, p.stdout.decode(errors="replace")[-4000:]))
            os.rename(tmp, obj)
    return obj


def build(drivers):
    """drivers: list of (driver, modules, cfg); returns {(driver,cfg): exe}"""
    hh = header_hash()
    jobs = {}
    for drv, mods, cfg in drivers:
        for s in [os.path.join(SRC, drv + ".cpp")] + module_sources(mods):
            jobs[(s, cfg)] = None
        for s in CONFIGS[cfg].get("extra", []):
            jobs[(os.path.join(SRC, s), cfg)] = None
    order = sorted(jobs, key=lambda k: (not k[0].startswith(SRC), k))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for k, o in zip(order, ex.map(lambda k: compile_one(k[0], k[1], hh), order)):
            jobs[k] = o
    exes = {}

    def link(t):
        drv, mods, cfg = t
        c = CONFIGS[cfg]
        objs = [jobs[(os.path.join(SRC, drv + ".cpp"), cfg)]] + [jobs[(s, cfg)] for s in module_sources(mods)]
        objs += [jobs[(os.path.join(SRC, s), cfg)] for s in c.get("extra", [])]
        cmd = [c["cxx"]] + shlex.split(c["flags"]) + objs + shlex.split(c.get("ldflags", "")) + ["-lboost_thread", "-lboost_system", "-lboost_chrono", "-lboost_date_time", "-lfftw3", "-lpthread"]
        key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:24]
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (drv, cfg, key))
        with KEY_LOCKS[exe]:
            if os.path.exists(exe):
                return exe
            tmp = exe + ".%d.tmp" % os.getpid()
            p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise CheckError("linking %s failed:\n%s" % (drv, p.stdout.decode(errors="replace")[-4000:]))
            os.rename(tmp, exe)
        return exe
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for t, e in zip(drivers, ex.map(link, drivers)):
            exes[(t[0], t[2])] = e
    return exes


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "allocator_may_return_null=1:detect_stack_use_after_return=1:detect_leaks=1:exitcode=98:strict_string_checks=1:abort_on_error=0:handle_abort=1:detect_container_overflow=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=97",
    "LSAN_OPTIONS": "exitcode=96:report_objects=0:suppressions=" + os.path.join(SRC, "lsan.supp"),
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=95:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


STOPPED = "stopped"


def run_proc(cmd, cwd, timeout, seed, extra_env=None, log=None, stopped=lambda: False):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["HOME"] = cwd
    env.update(extra_env or {})
    err = open(log or os.path.join(cwd, "stderr.txt"), "wb")
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, start_new_session=True)
    rc, end = None, time.time() + timeout
    while True:
        try:
            rc = p.wait(timeout=max(0.01, min(1.0, end - time.time())))
            break
        except subprocess.TimeoutExpired:
            if stopped():
                rc = STOPPED
                break
            if time.time() >= end:
                break
    if rc is None or rc == STOPPED:
        try:
            os.killpg(p.pid, signal.SIGTERM)   # mpirun ends its processes
            p.wait(timeout=3)
        except (ProcessLookupError, subprocess.TimeoutExpired):
            pass
    # whatever the driver left behind ends with it
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    err.close()
    return rc


def parse_out(path):
    r = {"last": None, "viol": [], "end": None, "obs": []}
    if not os.path.exists(path):
        return r
    with open(path, "r", errors="replace") as f:
        for line in f:
            if line.startswith("C "):
                try:
                    r["last"] = int(line[2:])
                except ValueError:
                    pass
            elif line.startswith("V "):
                try:
                    v = json.loads(line[2:])
                    if v["case"] < 0:
                        v["case"] = r["last"] or 0
                    r["viol"].append(v)
                except ValueError:
                    pass
            elif line.startswith("O"):
                r["obs"] += line.split()[1:]
            elif line.startswith("E "):
                r["end"] = json.loads(line[2:])
    return r


def classify(err, rc):
    """key and short text of an abnormal end"""
    m = re.search(r"SUMMARY: (\w+): (\S+) .*?(?: in (.*))?$", err, re.M)
    if "ThreadSanitizer" in err and m:
        where = re.sub(r"[^\w:~<>]", "", (m.group(3) or "?").split("(")[0])[:80]
        return "tsan-" + (re.search(r"(?:WARNING|ERROR): ThreadSanitizer: ?([\w -]*)|ThreadSanitizer", err).group(1) or "report").strip().replace(" ", "-") + ":" + where, err
    if "LeakSanitizer: detected memory leaks" in err:
        return "sanitizer-leak", err
    m2 = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m2:
        return "asan-" + m2.group(1), err
    m3 = re.search(r"runtime error: (.{0,60})", err)
    if m3:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"[-\d.]+", "", m3.group(1).lower()))[:40].strip("-"), err
    if rc == 94:
        return "valgrind", err
    if rc is not None and rc < 0:
        return "crash-signal-%d" % -rc, err
    return "abnormal-exit-%s" % rc, err


def driver_cmd(exe, cfg, task, seed, a, b, out, thorough, extra=()):
    c = CONFIGS[cfg]
    base = [exe, task, "--seed", str(seed), "--from", str(a), "--to", str(b), "--out", out] + (["--thorough"] if thorough else []) + list(extra)
    return shlex.split(c.get("runner", "")) + base


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.base = tempfile.mkdtemp(prefix="k52v-" + prop + "-")
        self.n = 0
        self.stop = None        # time after which running workloads are no longer waited for
        self.procs = set()

    def violated(self, grace):
        """a violation is certain: what still runs may go on for a while, nothing new is started"""
        if self.stop is None or time.time() + grace < self.stop:
            self.stop = time.time() + grace

    def stopped(self):
        return self.stop is not None and time.time() > self.stop

    def shard(self, exe, cfg, task, a, b, timeout, extra=(), reuse=False):
        self.n += 1
        cwd = tempfile.mkdtemp(prefix="s%d-" % self.n, dir=self.base)
        out = os.path.join(cwd, "out.txt")
        cmd = driver_cmd(exe, cfg, task, self.seed, a, b, out, self.tier == "thorough", extra)
        cmd = [x.replace("@CWD@", cwd) for x in cmd]
        env = dict(CONFIGS[cfg].get("env") or {})
        if cfg.startswith("mpi"):
            env["TMPDIR"] = cwd     # mpirun's session directory: runs at the same time fail on creating a common one
        if reuse and cfg.startswith("asan"):
            # freed memory is handed out again at once: objects at the address of destroyed ones
            env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", SAN_ENV["ASAN_OPTIONS"]) + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        rc = run_proc(cmd, cwd, timeout, self.seed, env, stopped=self.stopped)
        res = parse_out(out)
        with open(os.path.join(cwd, "stderr.txt"), "rb") as f:
            err = f.read()
        err = (err if len(err) < 400000 else err[:200000] + b"\n...\n" + err[-200000:]).decode(errors="replace")
        shutil.rmtree(cwd, ignore_errors=True)
        return rc, res, err

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def run_shard_decided(R, exe, cfg, task, a, b, timeout, reuse=False):
    if R.stopped():
        return [], [], []
    viol, results, notes = decide_shard(R, exe, cfg, task, a, b, timeout, reuse)
    for v in viol:
        v["reuse"] = reuse
        if not match_known(R.prop, v):
            R.violated(20 if R.tier == "quick" else 120)
    return viol, results, notes


def decide_shard(R, exe, cfg, task, a, b, timeout, reuse):
    """Runs [a,b); returns (violations, results, notes). Hangs are confirmed before they count."""
    viol, results, notes = [], [], []
    rc, res, err = R.shard(exe, cfg, task, a, b, timeout, reuse=reuse)
    if "LeakSanitizer has encountered a fatal error" in err:
        os.environ["K52_NO_LSAN"] = "1"
        SAN_ENV["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        notes.append("LeakSanitizer cannot run here: leaks not checked")
        rc, res, err = R.shard(exe, cfg, task, a, b, timeout, reuse=reuse)
    results.append(res)
    for v in res["viol"]:
        viol.append(dict(v, task=task, cfg=cfg))
    if rc == 0 and res["end"] is not None:
        return viol, results, notes
    if rc == 3:
        raise CheckError("driver failed: %s %s: %s" % (exe, task, err[-2000:]))
    if viol or rc == STOPPED:
        # the case already violated the property; what happened afterwards adds nothing
        return viol, results, notes
    last = res["last"] if res["last"] is not None else a
    if rc is None:
        # stuck: try the case alone, then everything from the start once more
        rc2, res2, err2 = R.shard(exe, cfg, task, last, last + 1, max(60, timeout // 2), reuse=reuse)
        if rc2 == STOPPED:
            return viol, results, notes
        if rc2 is None:
            viol.append({"case": last, "key": "hang", "detail": "case did not finish within %d s, twice" % max(60, timeout // 2), "task": task, "cfg": cfg})
        else:
            rc3, res3, err3 = R.shard(exe, cfg, task, a, b, timeout, reuse=reuse)
            if rc3 == STOPPED:
                return viol, results, notes
            if rc3 is None:
                viol.append({"case": res3["last"] if res3["last"] is not None else a, "from": a, "key": "hang", "detail": "workload did not finish within %d s, twice" % timeout, "task": task, "cfg": cfg})
            else:
                notes.append("%s [%d,%d): timed out once, finished when repeated: inconclusive run discarded" % (task, a, b))
                results[:] = [res3]
                for v in res3["viol"]:
                    viol.append(dict(v, task=task, cfg=cfg))
                if rc3 != 0:
                    rc, err, last = rc3, err3, res3["last"] if res3["last"] is not None else a
        if rc is None:
            return viol, results, notes
    key, text = classify(err, rc)
    if rc == -9 and "SUMMARY" not in err:
        # ended from outside (memory guard): once more
        rc2, res2, err2 = R.shard(exe, cfg, task, a, b, timeout, reuse=reuse)
        if rc2 == STOPPED:
            return viol, results, notes
        if rc2 == 0:
            notes.append("%s [%d,%d): killed once, repeated" % (task, a, b))
            return [dict(v, task=task, cfg=cfg) for v in res2["viol"]], [res2], notes
        key, text = classify(err2, rc2)
        last = res2["last"] if res2["last"] is not None else a
    v = {"case": last, "key": key, "detail": text[-6000:] if "valgrind" in key else text[:6000], "task": task, "cfg": cfg}
    if key == "sanitizer-leak" and cfg.startswith("asan"):
        rc2, res2, err2 = R.shard(exe, cfg, task, a, b, timeout, ["--leakcheck"], reuse=reuse)
        if res2["viol"]:
            v["case"] = res2["viol"][0]["case"]
        else:
            v["from"] = a
    if cfg.startswith("tsan") or cfg.startswith("mpi"):
        v["from"] = a
    viol.append(v)
    return viol, results, notes


def known_findings():
    """lines '<property> <regex on key> <regex on detail>' after KNOWN:, see known_findings.json"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def match_known(prop, v):
    for k in known_findings():
        if k["property"] == prop and re.search(k["key"], v["key"]) and re.search(k["detail"], v["detail"], re.S):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--task")
    ap.add_argument("--prebuild", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    if args.prebuild:
        t0 = time.time()
        ds = {}
        for c in CHECKS.values():
            for t in c["tasks"]:
                ds[(t["driver"], t["cfg"])] = (t["driver"], tuple(t["modules"]), t["cfg"])
        build(list(ds.values()))
        print("built %d monitors in %.0f s" % (len(ds), time.time() - t0))
        return 0
    prop, tier = args.property, args.tier
    if prop not in CHECKS:
        raise CheckError("no check for " + str(prop))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    if args.replay:
        rp = json.load(open(args.replay))
        seed = rp["seed"]
        t = [t for t in chk["tasks"] if t["task"] == rp["task"] and t["cfg"] == rp["cfg"]][0]
        exe = build([(t["driver"], tuple(t["modules"]), t["cfg"])])[(t["driver"], t["cfg"])]
        R = Runner(prop, rp.get("tier", tier), seed)
        try:
            a = rp.get("from", rp["case"])
            viol, res, notes = run_shard_decided(R, exe, t["cfg"], t["task"], a, rp["case"] + 1, 300, rp.get("reuse", False))
        finally:
            R.close()
        for v in viol:
            print("case %s: %s\n%s" % (v["case"], v["key"], v["detail"]))
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("replay: no violation")
        return 0

    ds = {}
    for t in chk["tasks"]:
        ds[(t["driver"], t["cfg"])] = (t["driver"], tuple(t["modules"]), t["cfg"])
    exes = build(list(ds.values()))
    t_build = time.time() - t0
    if args.build_only:
        return 0
    jobs = []
    for t in chk["tasks"]:
        if args.task and t["task"] != args.task:
            continue
        n = t["thorough"] if tier == "thorough" else t["quick"]
        n = max(1, int(n * args.scale)) if n else 0
        if n == 0:
            continue
        shards = min(t.get("shards", NPROC), n)
        if tier == "thorough":
            shards = min(n, shards * t.get("thorough_rounds", 1))
        base = t.get("first", 0)
        for i in range(shards):
            a, b = base + n * i // shards, base + n * (i + 1) // shards
            if b > a:
                jobs.append((t, a, b, i % 2 == 1))
    R = Runner(prop, tier, seed)
    viol, notes, results = [], [], []
    width = chk.get("width", NPROC)
    try:
        with cf.ThreadPoolExecutor(width) as ex:
            # longest first
            jobs.sort(key=lambda j: -j[0].get("weight", 1))
            futs = {ex.submit(run_shard_decided, R, exes[(t["driver"], t["cfg"])], t["cfg"], t["task"], a, b,
                              t.get("timeout", 150 if tier == "quick" else 1500), u): (t, a, b) for t, a, b, u in jobs}
            for f in cf.as_completed(futs):
                v, r, nt = f.result()
                viol += v
                results += [(futs[f][0], x) for x in r]
                notes += nt
    finally:
        R.close()

    # evidence
    evals, seen, counters, samples, per = 0, set(), {}, [], {}
    for t, r in results:
        e = r["end"] or {}
        evals += e.get("evals", 0)
        nm = t["task"] + "/" + t["cfg"]
        per.setdefault(nm, {"executions": 0})
        per[nm]["executions"] += e.get("evals", 0)
        th = hashlib.md5(t["task"].encode()).hexdigest()[:6]
        seen.update(th + h for h in r["obs"])
        for k, x in e.get("counters", {}).items():
            counters[k] = max(counters.get(k, 0), x) if k.startswith("max ") else counters.get(k, 0) + x
        if e.get("samples"):
            have = sum(1 for s in samples if s["task"] == nm)
            if have < 2:
                samples.append({"task": nm, "case": e["samples"][0]})
    unknown, known = [], []
    for v in viol:
        k = match_known(prop, v)
        (known if k else unknown).append((v, k))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": chk["rule"],
                       "samples": samples[:12] or [{"task": "-", "case": "no case completed"}],
                       "observed": counters, "per_workload": per, "workload_runs": len(results)},
          "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(unknown)}
    ev["coverage"]["build_s"] = round(t_build, 2)
    if notes:
        ev["coverage"]["inconclusive"] = notes
    if tier == "thorough" or args.scale == 1.0 and not args.task:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d distinct, build %.1f s, total %.1f s" % (prop, tier, evals, len(seen), t_build, time.time() - t0))
    for k, x in sorted(counters.items()):
        print("   %s: %d" % (k, x))
    for n in notes:
        print("   note: " + n)
    shown = set()
    for v, k in known:
        if k["what"] not in shown:
            shown.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if unknown:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        keys = {}
        for v, _ in unknown:
            keys.setdefault(v["key"], v)
        first = None
        for key, v in list(keys.items())[:5]:
            p = os.path.join("replays", "%s-%s.json" % (prop, hashlib.md5((key + str(seed)).encode()).hexdigest()[:10]))
            d = dict(v, property=prop, seed=seed, tier=tier, command="python3 run.py %s --replay %s" % (prop, p))
            with open(os.path.join(VERIF, p), "w") as f:
                json.dump(d, f, indent=1)
            print("  violation %s (task %s, config %s, case %s): %s" % (key, v["task"], v["cfg"], v["case"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if evals == 0:
        raise CheckError("nothing was observed")
    need = chk.get("need", {})
    for k, x in need.items():
        if counters.get(k, 0) < x and args.scale == 1.0 and not args.task:
            raise CheckError("inconclusive: only %d of '%s' observed, %d needed" % (counters.get(k, 0), k, x))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
