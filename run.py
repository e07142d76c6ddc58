#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [quick|thorough] [options]

Builds the driver of the property from /repo's working tree, runs it, merges
the evidence of its stages into evidence/<ID>.json and exits 0 (held on
everything explored), 1 (violation) or 2 (the check itself could not run).
"""
import concurrent.futures, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

WARN = ["-Wno-deprecated", "-w"]
VARIANTS = {
    # Asserts of the code under test on, memory errors visible.
    "asan": dict(cc="g++", flags=["-std=c++14", "-O1", "-g0", "-fsanitize=address",
                                  "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
    # What a release build of the library does.
    "release": dict(cc="g++", flags=["-std=c++14", "-O2", "-g0", "-DNDEBUG"]),
    "debug": dict(cc="g++", flags=["-std=c++14", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS"]),
    # Coverage-guided search over the choice bytes.
    "fuzz": dict(cc="clang++", flags=["-std=c++14", "-O1", "-g0", "-DPBT_FUZZ",
                                      "-fsanitize=fuzzer,address", "-D_GLIBCXX_ASSERTIONS"]),
}


def tree_hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def vtk_flags():
    out = []
    inc = sorted(glob.glob("/usr/include/vtk-9*"))
    if inc:
        out += ["-isystem", inc[-1]]
    return out


def build(check, variant):
    """Returns the path of the driver binary, building what is missing."""
    v = VARIANTS[variant]
    inc = [REPO + "/include"]
    srcs = sorted(glob.glob(REPO + "/src/walnut/*.cpp"))
    deps = sorted(glob.glob(REPO + "/include/walnut/*.h"))
    flags = list(v["flags"]) + WARN
    libs = ["-lgmpxx", "-lgmp", "-lpthread"]
    if check.get("vtk"):
        inc.append(REPO + "/vtk_interface/include")
        deps += sorted(glob.glob(REPO + "/vtk_interface/include/walnut/*.h"))
        if check.get("vtk_src", True):
            srcs += sorted(glob.glob(REPO + "/vtk_interface/src/*.cpp"))
        flags += vtk_flags()
        libs += ["/usr/lib/x86_64-linux-gnu/libvtk%s-9.1.so" % l for l in check["vtk_libs"]]
    flags += check.get("flags", [])
    own = [VERIF + "/harness/" + check["src"], VERIF + "/harness/pbt.cpp"]
    hdrs = sorted(glob.glob(VERIF + "/harness/*.h"))
    key_lib = tree_hash(srcs + deps, (v, flags, REPO))
    lib_dir = os.path.join(VERIF, "build", "%s-%s%s" % (variant, "vtk-" if check.get("vtk") else "", key_lib))
    key_own = tree_hash(own + hdrs, (v, flags))
    binary = os.path.join(lib_dir, "%s-%s" % (check["src"].replace(".cpp", ""), key_own))
    if os.path.exists(binary):
        return binary
    os.makedirs(lib_dir, exist_ok=True)
    incs = ["-I" + i for i in inc] + ["-I" + VERIF + "/harness"]
    jobs = []
    for s in srcs:
        jobs.append((s, os.path.join(lib_dir, os.path.basename(s) + ".o")))
    jobs.append((own[1], os.path.join(lib_dir, "pbt-%s.o" % key_own)))
    jobs.append((own[0], os.path.join(lib_dir, "driver-%s-%s.o" % (check["src"], key_own))))

    def compile_one(job):
        s, o = job
        if os.path.exists(o):
            return None
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        r = subprocess.run([v["cc"]] + flags + incs + ["-c", s, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return s + ":\n" + r.stdout[:4000]
        os.rename(tmp, o)
        return None

    # The driver is the longest job: start it first.
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errors = [e for e in ex.map(compile_one, list(reversed(jobs))) if e]
    if errors:
        print("build failed:\n" + errors[0])
        sys.exit(2)
    tmp = "%s.%d.tmp" % (binary, os.getpid())
    link = [v["cc"]] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-O")]
    r = subprocess.run(link + [o for _, o in jobs] + libs + ["-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("link failed:\n" + r.stdout[:4000])
        sys.exit(2)
    os.rename(tmp, binary)
    for o in (jobs[-1][1],):
        try:
            os.unlink(o)
        except OSError:
            pass
    return binary


def prune_build():
    """Keeps the build directory from growing with every edit of /repo."""
    d = os.path.join(VERIF, "build")
    if not os.path.isdir(d):
        return
    entries = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime)
    now = time.time()
    for e in entries[:-10]:
        if now - os.path.getmtime(e) > 1800:
            shutil.rmtree(e, ignore_errors=True)


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
    return env


def stage(check, pid, variant, seed, cases, time_cap, tier, replay_dir, workers):
    binary = build(check, variant)
    ev = tempfile.NamedTemporaryFile(suffix=".json", delete=False).name
    cmd = [binary, "--seed", str(seed), "--cases", str(cases), "--time", str(time_cap),
           "--workers", str(workers), "--evidence", ev, "--tier", tier,
           "--replay-dir", replay_dir, "--labels", os.environ.get("PBT_LABELS", "0")]
    r = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    data = None
    try:
        with open(ev) as f:
            data = json.load(f)
    except Exception as e:
        print("no evidence from stage %s: %s" % (variant, e))
    os.unlink(ev)
    if r.returncode == 1 and "VIOLATION property=" not in r.stdout:
        return 2, data
    return (r.returncode if r.returncode in (0, 1) else 2), data


def fuzz_stage(check, pid, seed, seconds, replay_dir, workers):
    """Coverage-guided search over the same choice sequences (libFuzzer)."""
    binary = build(check, "fuzz")
    plain = build(check, "asan")
    tmp = tempfile.mkdtemp(prefix="verif-fuzz-")
    total = 0
    rc = 0
    try:
        procs = []
        for w in range(workers):
            c = os.path.join(tmp, "c%d" % w)
            os.mkdir(c)
            log = open(os.path.join(tmp, "log%d" % w), "w")
            procs.append((w, subprocess.Popen(
                [binary, "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % seconds,
                 "-max_len=4096", "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1",
                 "-artifact_prefix=%s/a%d-" % (tmp, w), c],
                stdout=log, stderr=subprocess.STDOUT, env=run_env())))
        for w, p in procs:
            p.wait()
        for w, p in procs:
            for line in open(os.path.join(tmp, "log%d" % w), errors="replace"):
                if line.startswith("stat::number_of_executed_units:"):
                    total += int(line.split()[-1])
        for art in sorted(glob.glob(tmp + "/a*-crash-*") + glob.glob(tmp + "/a*-timeout-*")):
            r = subprocess.run([plain, "--from-bytes", art, "--replay-dir", replay_dir],
                               env=run_env(), stdout=subprocess.PIPE, text=True)
            sys.stdout.write(r.stdout)
            if r.returncode == 1:
                rc = 1
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("%s coverage-guided: %d executions" % (pid, total))
    return rc, total


def merge(stages, pid, tier, seed, wall, violations, fuzz_execs):
    cov = dict(evaluations=0, distinct_nontrivial=0, discarded=0, known_finding_hits=0,
               not_reproduced=0, rule="", labels={}, samples=[], stages=[])
    for name, d in stages:
        if not d:
            continue
        c = d["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "discarded", "known_finding_hits", "not_reproduced"):
            cov[k] += c[k]
        cov["rule"] = c["rule"]
        for l, n in c["labels"].items():
            cov["labels"][l] = cov["labels"].get(l, 0) + n
        cov["samples"] += c["samples"][:6 if len(stages) > 1 else 12]
        cov["stages"].append(dict(build=name[0], seed=name[1], evaluations=c["evaluations"],
                                  distinct_nontrivial=c["distinct_nontrivial"], wall_s=d["wall_s"]))
    if fuzz_execs is not None:
        cov["coverage_guided_executions"] = fuzz_execs
    return dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=["GMP arithmetic and the oracle code in /verif/harness are correct",
                             "inputs outside the generator described in DESIGN.md are not explored"],
                wall_s=wall, violations=violations)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py ID [quick|thorough]; ids: " + " ".join(sorted(CHECKS)))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    t0 = time.time()
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    prune_build()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        binary = build(check, os.environ.get("VERIF_VARIANT", "asan"))
        return subprocess.run([binary, "--replay", sys.argv[3]], env=run_env()).returncode
    stages = []
    rc = 0
    fuzz_execs = None
    plan = []
    q = int(check["cases"] * float(os.environ.get("VERIF_SCALE", "1")))
    if tier == "quick":
        plan.append(("asan", seed, q, check.get("time", 150)))
    else:
        f = check.get("thorough", 10)
        plan.append(("asan", seed, q, 600))
        plan.append(("asan", seed + 7919, q * f, 1200))
        plan.append(("release", seed + 104729, q * f * 2, 900))
    for variant, s, cases, cap in plan:
        r, d = stage(check, pid, variant, s, cases, cap, tier, replay_dir, workers)
        stages.append(((variant, s), d))
        rc = max(rc, r)
        if r:
            break
    if tier == "thorough" and rc == 0 and check.get("fuzz", True):
        r, fuzz_execs = fuzz_stage(check, pid, seed, int(os.environ.get("VERIF_FUZZ_S", "420")),
                                   replay_dir, workers)
        rc = max(rc, r)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(merge(stages, pid, tier, seed, time.time() - t0, 1 if rc == 1 else 0, fuzz_execs), f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    return rc


if __name__ == "__main__":
    sys.exit(main())
