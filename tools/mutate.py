#!/usr/bin/env python3
"""Small mutations of the library in scratch copies, to find what the checks do not watch (see DESIGN.md).

  mutate.py N [--seed S] [--files REGEX] [--workers W] [--log FILE]
Each mutant is built into the monitors of the checks that concern its file; the first check that reports it ends it.
"""
import argparse, concurrent.futures as cf, os, queue, random, re, shutil, subprocess, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = [
    (r"common/(random)", "C31 C27 C29 C21"), (r"common/.*cache", "C32 C12 C19"), (r"settings_manager", "C33"), (r"common/(floating|constants)", "C34 C25 C09 C15"), (r"common/helpers", "C34 C10"),
    (r"dsp/.*(fast_fourier)", "C09 C10 C11 C02 C01"), (r"dsp/.*inverse_fourier", "C10 C01"), (r"dsp/.*/fourier_transform", "C09 C10"), (r"circular_conv", "C11 C01"), (r"fast_wavelet", "C12 C01"), (r"_scale", "C13 C01"),
    (r"dsp/akima_spline", "C14 C01"), (r"dsp/(haar|mhat|morlet|spline|akima_wave|cwt|wavelet)", "C15 C01"),
    (r"params/(int_parameter|double_parameter)", "C16 C17 C01"), (r"params/", "C17 C16 C01 C07"),
    (r"genetic_algorithm/(linear_mutator|flip_bit|gen_mut)", "C21 C20"), (r"genetic_algorithm/individual|optimization/individual", "C20 C35 C18"), (r"genetic_algorithm/|genetic_algorithm.h|generation_stat", "C22 C18 C35 C19 C30"),
    (r"objective_function_counter|objective_function_task|count_objective", "C19 C18 C30 C35 C07"),
    (r"random_search|optimization_task|optimization_parameters|simple_parameters", "C27 C30 C23 C07 C18"), (r"grid_search", "C28"), (r"simulated_ann", "C29 C26 C25 C23"),
    (r"hooke|hlebor|conjug|steepest|nelder|continuous_opt", "C23 C25 C24 C26"),
    (r"parallel/mpi/identif", "C08 C07"), (r"parallel/mpi", "C07"), (r"statistics", "C08 C07"), (r"thread_safe_queue", "C06 C03 C05"), (r"parallel/", "C03 C04 C05 C08 C02"),
]


def checks_for(path):
    for rx, c in FILES:
        if re.search(rx, path):
            return c.split()
    return []


def candidates(path, text):
    """(line, new text, what)"""
    out = []
    lines = text.split("\n")
    comment = False
    for i, raw in enumerate(lines):
        l = raw.rstrip("\r")
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using", "typedef", "template", "namespace", "friend", ":", ",", "virtual", "class", "struct", "std::cout", "polygon")):
            continue
        def put(new, what):
            if new != l:
                out.append((i, new + ("\r" if raw.endswith("\r") else ""), what))
        code = re.sub(r'"(\\.|[^"])*"', lambda m: "\x00" * len(m.group(0)), l)
        for a, b in ((r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
                     (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r" % ", " / ")):
            for m in re.finditer(a, code):
                if a in (" < ", " > ") and "<<" in l or "template" in l:
                    continue
                put(l[:m.start()] + b + l[m.end():], "%s ->%s" % (l[m.start():m.end()], b))
        for m in re.finditer(r"(?<![\w.])([012])(?![\w.])", code):
            for b in {"0": ["1"], "1": ["0", "2"], "2": ["1", "3"]}[m.group(1)]:
                put(l[:m.start()] + b + l[m.end():], "%s -> %s" % (m.group(1), b))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?![\w])", code):
            put(l[:m.start()] + "(1.01 * " + m.group(1) + " + 0.001)" + l[m.end():], "constant")
        if re.match(r"\s*if ?\(.*\)\s*$", l):
            put(re.sub(r"if ?\((.*)\)\s*$", r"if (!(\1))", l), "negated")
            put(re.sub(r"if ?\((.*)\)\s*$", r"if (false && (\1))", l), "never")
        if re.search(r"return true|return false", l):
            put(l.replace("return true", "return \x01").replace("return false", "return true").replace("\x01", "false"), "return")
        if re.match(r"\s*[\w\[\]\.\->_\(\):]+(\(.*\)| [+\-*/]?= .*);\s*$", l) and not re.match(r"\s*(return|throw|delete|int|double|size_t|bool|const|std::\w+[ <])", l) and "(" + l.strip() and not re.match(r"\s*[\w:<>]+ \w+\(", l):
            put(re.match(r"\s*", l).group(0) + ";", "removed: " + s[:60])
        if re.match(r"\s*(break|continue);", l):
            put(";", "removed " + s)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=".")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--log", default="/tmp/mutants.log")
    a = ap.parse_args()
    tracked = subprocess.run("git -C /repo ls-files", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
    pool = []
    for f in tracked:
        if not re.match(r"(src|include)/", f) or "unit_tests" in f or "examples" in f or not f.endswith((".cpp", ".h")) or not re.search(a.files, f) or not checks_for(f):
            continue
        text = open("/repo/" + f, newline="").read()
        pool += [(f, c) for c in candidates(f, text)]
    rnd = random.Random(a.seed)
    rnd.shuffle(pool)
    print("%d candidates" % len(pool))
    repos = queue.Queue()
    base = tempfile.mkdtemp(prefix="mutants-")
    for w in range(a.workers):
        d = os.path.join(base, "r%d" % w)
        subprocess.run("git clone -q /repo %s" % d, shell=True, check=True)
        subprocess.run("cp -al %s/build %s-build" % (V, d), shell=True, check=True)
        repos.put(d)
    log = open(a.log, "a")

    def one(f, c):
        d = repos.get()
        try:
            p = os.path.join(d, f)
            text = open(p, newline="").read()
            lines = text.split("\n")
            old = lines[c[0]]
            lines[c[0]] = c[1]
            open(p, "w", newline="").write("\n".join(lines))
            name = "%s:%d  %s  | %s" % (f, c[0] + 1, c[2], old.strip()[:110])
            t0, res = time.time(), "SURVIVED"
            for chk in checks_for(f):
                r = subprocess.run(["timeout", "700", "python3", "run.py", chk], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, K52_REPO=d, K52_BUILD=d + "-build", VERIF_SEED="1"))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    v = [l for l in r.stdout.split("\n") if l.startswith("  violation")]
                    res = "caught %s %s" % (chk, v[0][2:120] if v else "")
                    break
                if r.returncode:
                    t = r.stdout[-400:].replace("\n", " ")
                    if "error:" in r.stdout or "compil" in r.stdout:
                        res = "INVALID"
                        break
                    res = "ODD rc %d %s" % (r.returncode, t)
                    break
            open(p, "w", newline="").write(text)
            subprocess.run("find %s-build -newermt @%d -type f -delete" % (d, int(t0)), shell=True)
            log.write("%s | %s | %.0f s\n" % (res, name, time.time() - t0))
            log.flush()
        finally:
            repos.put(d)

    with cf.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(lambda x: one(*x), pool[:a.n]))
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
