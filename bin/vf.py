#!/usr/bin/env python3
"""Build /repo, build a harness, explore, confirm, report.

  vf.py setup                     build everything (library variants and all harnesses)
  vf.py check ID [--tier T]       run one check
  vf.py replay FILE               re-execute one recorded violation
  vf.py manifest                  regenerate MANIFEST.json from checks.py
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

JOBS = 8
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def die(msg, code=2):
    print("ERROR:", msg, flush=True)
    sys.exit(code)


# --------------------------------------------------------------------------- building
SRC_DIRS = ("src", "include", "cmake", "share", "modules", "test/CMakeLists.txt", "CMakeLists.txt")


def repo_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard"], capture_output=True, text=True)
    if out.returncode == 0 and out.stdout:
        fs = out.stdout.split("\n")
    else:
        fs = []
        for d, dn, fn in os.walk(REPO):
            dn[:] = [x for x in dn if x not in (".git", "_build")]
            fs += [os.path.relpath(os.path.join(d, f), REPO) for f in fn]
    keep = []
    for f in fs:
        if f and (f in SRC_DIRS or f.split("/")[0] in SRC_DIRS or f.endswith(("CMakeLists.txt", ".cmake", ".in"))):
            if os.path.isfile(os.path.join(REPO, f)):
                keep.append(f)
    return sorted(set(keep))


def digest(f):
    h = hashlib.sha256()
    with open(f, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def run_cmd(cmd, logf, env=None, cwd=None):
    with open(logf, "a") as lf:
        lf.write("$ " + " ".join(cmd) + "\n")
        lf.flush()
        return subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=cwd).returncode


def start_cmd(cmd, logf):
    lf = open(logf, "w")
    return subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT), logf


def tail(f, n=3000):
    try:
        with open(f, errors="replace") as fh:
            return fh.read()[-n:]
    except OSError:
        return ""


def is_stale(stampf, cur, bdir):
    """True if ninja's mtime comparison cannot be trusted for the difference between stamp and cur."""
    try:
        with open(stampf) as fh:
            st = json.load(fh)
    except (OSError, ValueError):
        return True
    for f, h in cur.items():
        if st["files"].get(f) != h:
            if f.startswith("#"):
                return True
            # content changed: ninja notices only when the file looks newer than the last build
            if os.path.getmtime(os.path.join(REPO, f)) <= st["time"] + 1:
                return True
    if set(st["files"]) - set(cur):
        return True
    return False


def build_lib(variant):
    v = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    logf = os.path.join(BUILD, variant + ".log")
    open(logf, "w").close()
    stampf = os.path.join(bdir, "vf-stamp.json")
    cur = {f: digest(os.path.join(REPO, f)) for f in repo_files()}
    cur["#flags"] = v["flags"] + v.get("copts", "") + digest(os.path.join(HERE, "lib", "vpch.h")) + digest(os.path.join(HERE, "lib", "skip-mi.cmake"))
    if is_stale(stampf, cur, bdir):
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
    t = time.time()
    pchd = os.path.join(bdir, "pch")
    cflags = v["flags"]
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPATH"):
        env.pop(k, None)
    if not os.path.exists(os.path.join(pchd, "vpch.h.gch")):
        os.makedirs(pchd, exist_ok=True)
        shutil.copy(os.path.join(HERE, "lib", "vpch.h"), pchd)
        run_cmd(["g++"] + cflags.split() + v.get("copts", "").split() + ["-std=gnu++20", "-fPIC", "-fopenmp", "-x", "c++-header",
                 os.path.join(pchd, "vpch.h"), "-o", os.path.join(pchd, "vpch.h.gch")], logf, env=env)
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        rc = run_cmd(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                      "-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja",
                      "-DBUILD_TESTING=OFF", "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=" + os.path.join(HERE, "lib", "skip-mi.cmake"),
                      "-DENABLE_NETCDF=ON", "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON", "-DENABLE_ECCODES=ON",
                      "-DENABLE_LOG4CPP=OFF", "-DENABLE_FIMEX_OMP=ON", "-DENABLE_FORTRAN=OFF", "-DENABLE_PYTHON=OFF",
                      "-DCMAKE_CXX_FLAGS=%s -include %s" % (cflags, os.path.join(pchd, "vpch.h")),
                      "-DCMAKE_C_FLAGS=" + cflags] + (["-DVF_COPTS=" + v["copts"]] if v.get("copts") else []), logf, env=env)
        if rc:
            die("cmake failed\n" + tail(logf))
    p = subprocess.Popen(["ninja", "-C", bdir, "-j", str(JOBS), "libfimex", "libfimex-io-netcdf", "libfimex-io-felt",
                          "libfimex-io-grib"], stdout=open(logf, "a"), stderr=subprocess.STDOUT, env=env)
    return dict(proc=p, cur=cur, stamp=stampf, t=t, log=logf, dir=bdir, variant=variant)


def finish_lib(b):
    if b["proc"].wait() != 0:
        die("building /repo failed (variant %s)\n%s" % (b["variant"], tail(b["log"])))
    with open(b["stamp"], "w") as fh:
        json.dump({"time": b["t"], "files": b["cur"]}, fh)
    log("library", b["variant"], "built")


def harness_inputs(cfg):
    return [os.path.join(HERE, "harness", s) for s in cfg["sources"]] + [os.path.join(HERE, "lib", s) for s in cfg.get("lib", [])]


def build_check(cid):
    """build library variant(s) and harness(es) of a check; returns {name: binary}"""
    cfg = CHECKS[cid]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        bins = {}
        for prog in cfg["programs"]:
            variant = prog.get("variant", "asan")
            v = VARIANTS[variant]
            lib = build_lib(variant)
            odir = os.path.join(BUILD, variant + "-h")
            os.makedirs(odir, exist_ok=True)
            # harness objects are compiled concurrently with the library (headers only)
            inc = ["-I" + os.path.join(HERE, "lib"), "-I" + REPO + "/include", "-I" + lib["dir"] + "/include",
                   "-I" + lib["dir"] + "/src", "-I" + REPO + "/src/io/grib", "-I/usr/include/libxml2"]
            srcs = [os.path.join(HERE, "lib", "vf.cc")] + [os.path.join(HERE, "lib", s) for s in prog.get("lib", [])] + \
                   [os.path.join(HERE, "harness", s) for s in prog["sources"]]
            jobs, objs = [], []
            for s in srcs:
                o = os.path.join(odir, os.path.basename(s) + ".o")
                objs.append(o)
                cc = "gcc" if s.endswith((".c", ".S")) else "g++"
                std = [] if s.endswith((".c", ".S")) else ["-std=gnu++20"]
                key = hashlib.sha256((v.get("hflags", v["flags"]) + prog.get("cflags", "")).encode())
                for dep in [s] + [os.path.join(HERE, "lib", x) for x in sorted(os.listdir(os.path.join(HERE, "lib")))]:
                    key.update(open(dep, "rb").read())
                for f in sorted(lib["cur"]):
                    if f.startswith("include/") or (f.startswith("src/io/") and f.endswith(".h")):
                        key.update(lib["cur"][f].encode())
                kf = o + ".key"
                if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key.hexdigest():
                    continue
                jobs.append(start_cmd([cc] + v.get("hflags", v["flags"]).split() + std + ["-fPIC", "-fopenmp"] + inc +
                                      prog.get("cflags", "").split() + ["-c", s, "-o", o], o + ".log") + (kf, key.hexdigest()))
            finish_lib(lib)
            for p, lf, kf, k in jobs:
                if p.wait() != 0:
                    die("compiling harness failed\n" + tail(lf))
                with open(kf, "w") as fh:
                    fh.write(k)
            exe = os.path.join(odir, prog["name"])
            d = lib["dir"] + "/src"
            libs = []
            for root, _, files in os.walk(d):
                for f in files:
                    if re.match(r"libfimex-[0-9.]+\.so$", f):
                        libs.append(os.path.join(root, f))
            cmd = ["g++"] + v["flags"].split() + ["-fopenmp", "-o", exe] + objs + libs + ["-Wl,-rpath," + d] + \
                prog.get("ldflags", "").replace("@LIB@", os.path.join(HERE, "lib")).replace("@BUILD@", lib["dir"]).split() + ["-lxml2", "-lnetcdf", "-lproj", "-ludunits2", "-ldl", "-lpthread"]
            lf = exe + ".link.log"
            open(lf, "w").close()
            if run_cmd(cmd, lf) != 0:
                die("linking harness failed\n" + tail(lf))
            bins[prog["name"]] = (exe, lib["dir"])
        log("harness built")
        return bins
    finally:
        lock.close()


# --------------------------------------------------------------------------- running
def run_env(bdir, scratch, prog):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMP_", "GOMP_", "FIMEX", "MIFI")):
            del e[k]
    e.update(LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                          "detect_odr_violation=0:handle_abort=1:quarantine_size_mb=16",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=78",
             TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:suppressions=" +
                          os.path.join(HERE, "lib", "tsan.supp"),
             FIMEX_IO_PLUGINS_PATH=":".join(os.path.join(bdir, "src", "io", x) for x in ("netcdf", "felt", "grib")),
             VF_SCRATCH=scratch, VF_SHARE=REPO + "/share", VF_VERIF=HERE)
    e.update(prog.get("env", {}))
    return e


def read_jsonl(f):
    r = []
    try:
        with open(f) as fh:
            for l in fh:
                try:
                    r.append(json.loads(l))
                except ValueError:
                    pass
    except OSError:
        pass
    return r


def run_prog(exe, bdir, prog, tier, scratch, extra, hang, jobs=JOBS):
    out = os.path.join(scratch, "out-%d" % (time.time_ns()))
    cmd = [exe, "--out", out, "--scratch", scratch, "--jobs", str(jobs), "--hang", str(hang)]
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += extra
    p = subprocess.run(cmd, env=run_env(bdir, scratch, prog), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                       start_new_session=True)
    return out, p.returncode, p.stderr


def collect(out, jobs=JOBS):
    viol, samples, ends, errors, states, capped = [], [], [], [], set(), False
    for k in range(jobs):
        for r in read_jsonl("%s.%d.jsonl" % (out, k)):
            t = r["t"]
            if t == "viol":
                r["shard"] = k
                viol.append(r)
            elif t == "sample":
                samples.append(r)
            elif t == "end":
                ends.append(r)
            elif t == "capped":
                capped = True
            elif t == "error":
                errors.append(r)
        try:
            with open("%s.%d.states" % (out, k), "rb") as fh:
                d = fh.read()
                for i in range(0, len(d), 8):
                    states.add(d[i:i + 8])
        except OSError:
            pass
    for r in read_jsonl(out + ".driver.jsonl"):
        if r["t"] == "crash":
            lg = "%s.%d.log" % (out, r["shard"])
            txt = tail(lg, 20000)
            m = re.findall(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|what\(\): [^\n]*)", txt)
            viol.append({"idx": r["idx"], "shard": r["shard"], "space": "", "desc": None, "key": "",
                         "msg": "process %s %s" % ("did not terminate" if r["how"] == "hang" else "died: " + r["how"], m[-1] if m else ""),
                         "crash": True, "hang": r["how"] == "hang", "log": txt[-4000:]})
        elif r["t"] == "capped":
            capped = True
        elif r["t"] == "error":
            errors.append(r)
    return viol, samples, ends, errors, states, capped


def describe(exe, bdir, prog, tier, scratch, idx):
    cmd = [exe, "--describe", str(idx), "--scratch", scratch] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.run(cmd, env=run_env(bdir, scratch, prog), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p.stdout.strip()


def known_findings(cid):
    r = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == cid:
                r.append((m.group(2), m.group(3)))
    return r


def confirm(exe, bdir, prog, tier, scratch, v):
    """re-execute the failing point alone; then, if needed, its whole shard"""
    out, rc, _ = run_prog(exe, bdir, prog, tier, scratch, ["--only", str(v["idx"])], 180)
    vv = collect(out)[0]
    if vv:
        return "alone"
    out, rc, _ = run_prog(exe, bdir, prog, tier, scratch, ["--shard", str(v["shard"])], 180)
    vv = collect(out)[0]
    if any(x["idx"] == v["idx"] for x in vv):
        return "in its sequence"
    return None


def check(cid, tier):
    cfg = CHECKS[cid]
    t0 = time.time()
    bins = build_check(cid)
    build_s = time.time() - t0
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
        shutil.disk_usage("/dev/shm").free > 2 << 30 else None
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % cid, dir=base)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], spaces=[], exhaustive=True)
    violations, unstable = [], []
    try:
        for prog in cfg["programs"]:
            exe, bdir = bins[prog["name"]]
            t1 = time.time()
            out, rc, err = run_prog(exe, bdir, prog, tier, scratch, [], prog.get("hang", 60))
            viol, samples, ends, errors, states, capped = collect(out)
            if rc != 0 or errors:
                logs = "\n".join(tail("%s.%d.log" % (out, k), 1500) for k in range(JOBS))
                die("harness %s failed rc=%s %s %s\n%s" % (prog["name"], rc, err[-500:], errors[:3], logs))
            cov["states"] += len(states)
            cov["transitions"] += sum(e["steps"] for e in ends)
            cov["traces_validated_against_impl"] += sum(e["executed"] for e in ends)
            sp = {}
            for e in ends:
                for s in e["spaces"]:
                    x = sp.setdefault(s["name"], [s["enumerated"], 0])
                    x[1] += s["executed"]
            cov["spaces"] += [{"program": prog["name"], "space": k, "enumerated": a, "executed": b} for k, (a, b) in sp.items()]
            seen = set()
            for s in sorted(samples, key=lambda s: s["idx"]):
                if s["space"] not in seen and len(cov["samples"]) < 12:
                    seen.add(s["space"])
                    cov["samples"].append("[%s] %s" % (s["space"], s["desc"]))
            if capped or viol:
                cov["exhaustive"] = False
            log(prog["name"], "explored in %.1fs:" % (time.time() - t1), sum(e["executed"] for e in ends), "points,",
                len(states), "states,", len(viol), "violations")
            viol.sort(key=lambda v: v["idx"])
            if os.environ.get("VF_DEV"):
                for v in viol:
                    if v["desc"] is None:
                        v["desc"] = describe(exe, bdir, prog, tier, scratch, v["idx"])
                    print("DEV %s [%s] %s\n      -> %s" % (v["idx"], v["space"], v["desc"], v["msg"]))
                return 5
            keys = set()
            kn = dict(known_findings(cid))
            nconf = 0
            for v in viol:
                if v["key"] and v["key"] in kn:
                    keys.add(v["key"])
                    continue
                if nconf >= 5:
                    continue
                nconf += 1
                how = confirm(exe, bdir, prog, tier, scratch, v)
                if v["desc"] is None:
                    v["desc"] = describe(exe, bdir, prog, tier, scratch, v["idx"])
                if how:
                    v["confirmed"] = how
                    v["program"] = prog["name"]
                    violations.append(v)
                else:
                    unstable.append(v)
            for k in sorted(keys):
                print("KNOWN-FINDING: property=%s %s" % (cid, kn[k]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if cfg["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("traces_validated_against_impl")
        cov["distinct_nontrivial"] = cov.pop("states")
        cov["rule"] = cfg["rule"]
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=cfg["level"], coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    cov["build_s"] = round(build_s, 2)
    cov["bounds"] = cfg.get("bounds", "")
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for u in unstable:
        print("NOT-REPRODUCED: property=%s point %s: %s" % (cid, u["idx"], u["msg"]))
    if violations:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            rf = os.path.join(rd, "%s-%d.json" % (cid, i))
            with open(rf, "w") as fh:
                json.dump(dict(property=cid, tier=tier, **v), fh, indent=1)
            print("  point %s %s\n    %s\n    %s (reproduced %s)" % (v["idx"], v["space"], v["desc"], v["msg"], v["confirmed"]))
            print("VIOLATION property=%s replay=%s" % (cid, rf))
        sys.stdout.flush()
        return 1
    print("OK property=%s tier=%s points=%s states=%s wall=%.1fs" %
          (cid, tier, cov.get("traces_validated_against_impl", cov.get("evaluations")), cov.get("states", cov.get("distinct_nontrivial")),
           time.time() - t0))
    return 0


def replay(f):
    v = json.load(open(f))
    cid = v["property"]
    bins = build_check(cid)
    prog = [p for p in CHECKS[cid]["programs"] if p["name"] == v["program"]][0]
    exe, bdir = bins[prog["name"]]
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        how = confirm(exe, bdir, prog, v["tier"], scratch, v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(v["desc"])
    print(v["msg"])
    print("reproduced:", how)
    return 1 if how else 0


def manifest():
    m = dict(version=1, setup_cmd="python3 bin/vf.py setup", checks=[], not_applicable=[], notes="see DESIGN.md")
    for cid, c in CHECKS.items():
        m["checks"].append(dict(property=cid, quick_cmd="python3 bin/vf.py check %s --tier quick" % cid,
                                thorough_cmd="python3 bin/vf.py check %s --tier thorough" % cid,
                                evidence_file="evidence/%s.json" % cid, technique=c["technique"], level=c["level"],
                                level_note=c["level_note"]))
    from checks import NOT_APPLICABLE
    m["not_applicable"] = [dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    from props import PROPS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in PROPS:
            if q["id"] in CHECKS or q["id"] in NOT_APPLICABLE:
                fh.write(json.dumps(q) + "\n")


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "setup":
        for cid in CHECKS:
            build_check(cid)
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "manifest":
        return manifest() or 0
    die(__doc__)


if __name__ == "__main__":
    sys.exit(main())
