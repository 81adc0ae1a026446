#!/usr/bin/env python3
"""Makes, validates and tries the planted bugs of /verif/seeded (see DESIGN.md).

  plant.py make SPEC.py      write seeded/<id>/ for every bug of the spec file
  plant.py run [--no-check] [--checks C01,C02] ID...    validate in a scratch copy of /repo, then run the checks
A scratch copy is mounted over /repo in a mount namespace of its own, so that the real /repo is never changed.
"""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f3c7b82"
DEMO = """#!/bin/bash
# exit 0: the property held; run with cwd /repo after the build
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 @FLAGS@ -w -DBUILD_WITH_BOOST_THREAD -DBUILD_WITH_FFTW3 -D_USE_MATH_DEFINES -I include -I src "$here/demo.cpp" -o "$out/demo" \\
    @LIBS@ \\
    -lboost_thread -lboost_system -lboost_chrono -lboost_serialization -lfftw3 -lpthread || exit 3
cd "$out" && timeout @LIMIT@ ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    for b in ns["BUGS"]:
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="plant-")
        sh("git -C /repo archive HEAD | tar x -C %s" % w)
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % w)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        shutil.rmtree(w)
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
        libs = "-Linstall/lib -lk52_optimization -lk52_dsp -lk52_parallel -lk52_common"
        if b.get("src"):  # compile the library's sources themselves, e.g. with a sanitizer
            libs = b["src"]
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FLAGS@", b.get("flags", "")).replace("@LIBS@", libs).replace("@LIMIT@", str(b.get("limit", 120))))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def touches_base(patch):
    """every hunk's removed lines: is one of them from the original repository?"""
    f, n = None, 0
    for l in open(patch, errors="replace", newline=""):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and f:
            b = sh("git -C /repo blame -s -l -L %d,%d HEAD -- %s" % (n, n, f)).stdout
            if b.startswith("^"):
                return True
            c = b.split()[0]
            if sh("git -C /repo merge-base --is-ancestor %s %s" % (c, BASE)).returncode == 0:
                return True
            n += 1
        elif l.startswith(" "):
            n += 1
    return False


def run(bug, checks, docheck):
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = [bug]
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("cp -a /repo %s/repo && cp -a %s %s/bug && mkdir %s/verif && cd %s && cp -a $(ls -A | grep -v -e seeded -e '^.git$') %s/verif" % (w, d, w, w, V, w))
        inns = lambda c, **kw: sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && { %s\n}'" % (w, w, c), **kw)
        if not touches_base(os.path.join(d, "patch.diff")):
            out.append("NOT-BASE-LINES")
        r = inns("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/bug/demo.sh" % w)
        if r.returncode:
            return out + ["DEMO FAILS UNPATCHED", r.stdout[-1500:]]
        r = inns("git apply %s/bug/patch.diff && bash /opt/vp/test.sh %s/t.json" % (w, w))
        t = json.load(open(w + "/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable") or []
        lost = [x for x in base if x not in t["passed"]]
        if lost or len(t["passed"]) < 73:
            return out + ["TESTS FAIL", str(lost)[:300], r.stdout[-800:]]
        r = inns("bash %s/bug/demo.sh" % w)
        if not r.returncode:
            return out + ["DEMO PASSES PATCHED"]
        out.append("ok(rc %d)" % r.returncode)
        if docheck:
            for c in checks or [meta["property"]]:
                r = inns("cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py %s --tier quick" % c)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                k = [l.strip()[:160] for l in r.stdout.splitlines() if l.strip().startswith("violation")]
                out.append("%s:%s" % (c, "CAUGHT " + (k[0] if k else "") if r.returncode == 1 and v else "missed rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode else "")))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        docheck = "--no-check" not in a
        checks = []
        if "--checks" in a:
            i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
        ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda b: run(b, checks, docheck), ids):
                print(" | ".join(r), flush=True)
