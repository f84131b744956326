#!/usr/bin/env python3
"""Driver: builds the harness of one property from /repo's working tree under a sanitizer, runs its seeded
workloads, folds what the monitors observed into evidence/<id>.json and decides.

exit 0: property held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import threading, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS, BINS, MODULES, WEIGHT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class CheckError(Exception):
    pass

# ---------------------------------------------------------------- build
CONFIG = {  # the configuration the repository is built with in this sandbox (GLSL off: there is no GPU/display here)
 "LITIV_VERSION":"1.6.0","LITIV_VERSION_MAJOR":"1","LITIV_VERSION_MINOR":"6","LITIV_VERSION_PATCH":"0","GIT_SHA1":"verif",
 "USE_PROFILING":"OFF","USE_OPENCV_MAT_CONSTR_FIX":"0","USE_OPENCV_x264_TEST":"ON","BUILD_TESTS_FULL_FLOAT":"OFF",
 "USE_SIGNEXT_SHIFT_TRICK":"OFF","USE_FAST_SQRT_FOR_CDIST":"OFF","USE_BSDS500_BENCHMARK":"ON","USE_KINECTSDK_STANDALONE":"TRUE",
 "USE_CVCORE_WITH_UTILS":"ON","EXTERNAL_DATA_ROOT":"/nonexistent","SAMPLES_DATA_ROOT":REPO+"/samples/data",
 "TEST_INPUT_DATA_ROOT":REPO+"/modules/test/data","TEST_OUTPUT_DATA_ROOT":"/nonexistent","DATASETS_CACHE_SIZE":"4096",
 "USE_RLUTIL_ANSI_DEFINE":"OFF","RLUTIL_STRING_TYPE":"const char*","TARGET_PLATFORM_x64":"TRUE","BUILD_SHARED_LIBS":"ON",
 "USE_LINK_TIME_OPTIM":"OFF","USE_FAST_MATH":"OFF","USE_OPENMP":"ON","USE_WORLD_SOURCE_GLOB":"OFF","USE_SOSPD":"0","USE_OFDIS":"ON",
 "USE_LZ4":"OFF","USE_VERSION_TAGS":"","USE_GLSL":"OFF","TARGET_GL_VER_MAJOR":"4","TARGET_GL_VER_MINOR":"4","USE_GLEW_EXPERIMENTAL":"ON",
 "USE_GLFW":"OFF","USE_FREEGLUT":"OFF","USE_VPTZ_STANDALONE":"ON","USE_CUDA":"OFF","CUDA_VERSION_MAJOR":"","CUDA_VERSION_MINOR":"",
 "CUDA_VERSION":"","CUDA_64_BIT_DEVICE_CODE":"ON","CUDA_PROPAGATE_HOST_FLAGS":"ON","USE_OPENCL":"0","USE_BOOST":"ON",
 "Boost_CHRONO_FOUND":"1","Boost_DATE_TIME_FOUND":"1","Boost_SYSTEM_FOUND":"1","Boost_FILESYSTEM_FOUND":"1",
 "Boost_PROGRAM_OPTIONS_FOUND":"1","Boost_REGEX_FOUND":"1","Boost_SERIALIZATION_FOUND":"1","USE_OPENGM":"OFF",
 "USE_OPENGM_WITH_CPLEX":"","USE_OPENGM_WITH_GUROBI":"","USE_OPENGM_WITH_HDF5":"","USE_OPENGM_WITH_EXTLIB":"ON",
 "HAVE_OPENGM_EXTLIB_FASTPD":"OFF","HAVE_OPENGM_EXTLIB_QPBO":"OFF","USE_KINECTSDK":"","USE_NEON":"OFF","USE_MMX":"OFF","USE_SSE":"ON",
 "USE_SSE2":"ON","USE_SSE3":"ON","USE_SSSE3":"ON","USE_SSE4_1":"ON","USE_SSE4_2":"ON","USE_POPCNT":"ON","USE_AVX":"ON","USE_AVX2":"ON",
 "USE_STL_ALIGNED_ALLOC":"1","USE_POSIX_ALIGNED_ALLOC":"1",
}

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def gen_defines(gendir, overrides):
    cfg = dict(CONFIG); cfg.update(overrides)
    src = open(REPO + "/modules/utils/include/litiv/utils/defines.hpp.in").read()
    txt = re.sub(r"@([A-Za-z_0-9]+)@", lambda m: cfg.get(m.group(1), ""), src)
    write_if_changed(gendir + "/litiv/utils/defines.hpp", txt)
    if cfg["USE_GLSL"] == "ON":  # the stand-alone vptz library has its own copies of these headers
        write_if_changed(gendir + "/litiv/vptz/defines.hpp", txt)
        src = open(REPO + "/modules/vptz/include/litiv/vptz/utils.hpp.in").read()
        write_if_changed(gendir + "/litiv/vptz/utils.hpp", re.sub(r"@([A-Za-z_0-9]+)@", lambda m: cfg.get(m.group(1), ""), src))

SAN = {
 "asan": ["-O1","-g1","-fno-omit-frame-pointer","-fsanitize=address,undefined","-fno-sanitize=alignment,vptr",
          "-fno-sanitize-recover=all","-D_GLIBCXX_ASSERTIONS","-fopenmp"],
 "tsan": ["-O1","-g1","-fno-omit-frame-pointer","-fsanitize=thread","-Wno-tsan"],
 "plain": ["-O2","-g1","-fopenmp"],
}
LINKSAN = {"asan":["-fsanitize=address,undefined","-fopenmp"],"tsan":["-fsanitize=thread"],"plain":["-fopenmp"]}
OPENCV_LIBS = ["core","imgproc","imgcodecs","highgui","videoio","calib3d","features2d","video","flann","photo","objdetect","ximgproc","bgsegm"]

def expand_sources(mods):
    out = []
    for m in mods:
        for s in MODULES[m]:
            out.append(REPO + "/" + s)
    return out

def plan_bin(name, san):
    """compile commands, link command and executable of harness `name` under `san`"""
    b = BINS[name]
    outdir = os.path.join(BUILD, "%s-%s" % (name, san))
    os.makedirs(outdir, exist_ok=True)
    overrides = dict(b.get("config", {}))
    if san == "tsan":
        overrides["USE_OPENMP"] = "OFF"  # libgomp is not instrumented: its barriers are invisible to the race detector
    gendir = os.path.join(BUILD, "gen-" + hashlib.sha1(json.dumps(overrides, sort_keys=True).encode()).hexdigest()[:8])
    gen_defines(gendir, overrides)
    inc = ["-I" + gendir]
    for m in ("utils", "features2d", "imgproc", "video", "datasets", "vptz"):
        inc.append("-I%s/modules/%s/include" % (REPO, m))
    inc += ["-I%s/3rdparty/ofdis/include" % REPO, "-I%s/3rdparty/bsds500/include" % REPO, "-I/usr/include/eigen3",
            "-I" + VERIF + "/harness", "-isystem", "/usr/include/opencv4", "-include", "/opt/vp/support/compat/opencv4_compat.hpp"]
    base = ["-DLITIV_BUILD","-DLITIV_DEBUG=0","-DNDEBUG","-DLV_EXPORT_API","-DDATASETS_LITIV2018_DATA_VERSION=2","-DLITIV_VERIF_HOOKS=1",
            "-std=gnu++14","-fPIC","-w","-fpermissive","-march=x86-64-v3"] + SAN[san] + b.get("flags", [])
    srcs = expand_sources(b["modules"]) + [VERIF + "/harness/" + s for s in b["harness"]]
    fl = hashlib.sha1(" ".join(base + inc).encode()).hexdigest()[:8]
    objdir = os.path.join(BUILD, "obj-" + fl)  # objects are shared by harnesses compiled with the same flags
    os.makedirs(objdir, exist_ok=True)
    objs, todo = [], []
    for s in srcs:
        o = os.path.join(objdir, hashlib.sha1(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".o")
        objs.append(o)
        todo.append((s, (["gcc"] + [f for f in base if not f.startswith("-std") and f != "-fpermissive" and "GLIBCXX" not in f] + [f for f in inc if "compat" not in f and f != "-include"] if s.endswith(".c") else ["g++"] + base + inc) + ["-c", s, "-o", o]))
    exe = os.path.join(outdir, "h_" + name)
    link = ["g++", "-o", exe] + objs + LINKSAN[san] + b.get("link", []) + ["-lopencv_" + l for l in OPENCV_LIBS] + ["-lpthread", "-lboost_filesystem", "-lboost_system"]
    return todo, link, exe

def build_all(pairs):
    """compiles the harnesses and the /repo sources they exercise, always from the current working tree"""
    ccache = shutil.which("ccache")
    env = dict(os.environ)
    if ccache:
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "3G"
        env["CCACHE_NOHASHDIR"] = "1"
    exes, todo, links = {}, {}, []
    for p in pairs:
        t, link, exe = plan_bin(*p)
        for s, cmd in t:
            todo[cmd[-1]] = (s, cmd)
        links.append(link)
        exes[p] = exe
    def cost(s):
        return (-WEIGHT.get(os.path.basename(s), 0), -os.path.getsize(s))
    work = sorted(todo.values(), key=lambda x: cost(x[0]))
    lock = open(os.path.join(BUILD, ".lock-build"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    def comp(sc):
        r = subprocess.run(([ccache] if ccache else []) + sc[1], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, sc[0], r.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, s, o in ex.map(comp, work):
            if rc != 0:
                raise CheckError("compilation failed: %s\n%s" % (s, o[-4000:]))
        for rc, o in ex.map(lambda c: (lambda r: (r.returncode, r.stdout))(subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)), links):
            if rc != 0:
                raise CheckError("link failed: %s" % o[-4000:])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes

# ---------------------------------------------------------------- run
def sanenv(san, logbase):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:strict_string_checks=1:detect_odr_violation=0:handle_abort=1:log_path=%s" % logbase
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=%s" % logbase
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1:suppressions=%s:log_path=%s" % (os.path.join(VERIF, "tools", "tsan.supp"), logbase)
    env["OMP_NUM_THREADS"] = env.get("VERIF_OMP", "4")
    env["OPENCV_LOG_LEVEL"] = "SILENT"
    return env

def san_key(text):
    """stable key of a sanitizer report: kind + first frames inside the repository, line numbers stripped"""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text) or re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", text)
    if m:
        kind = m.group(1).strip().replace(" ", "-")
    m2 = re.search(r"runtime error: ([^\n]+)", text)
    if m2 and not m:
        kind = "ub:" + re.sub(r"[-0-9.e+x]{2,}|\d+", "N", m2.group(1)).strip().replace(" ", "-")[:60]
    frames = []
    for fm in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?([^\n]+?) (/[^\s:]+)(?::\d+)*", text):
        if fm.group(2).startswith(REPO + "/") or "/litiv/" in fm.group(2):
            fn = re.sub(r"\(.*", "", fm.group(1)).strip()
            if fn not in frames:
                frames.append(fn)
        if len(frames) >= 1:
            break
    return kind + (("@" + frames[0]) if frames else "")

STOP = threading.Event()  # set once a violation is established: nothing more to learn from the remaining shards of a quick run

def run_shard(exe, san, scen, seed, start, n, thorough, timeout, tmpdir, tag):
    out = os.path.join(tmpdir, tag + ".json"); status = os.path.join(tmpdir, tag + ".status"); log = os.path.join(tmpdir, tag + ".san")
    work = os.path.join(tmpdir, tag + ".work"); os.makedirs(work, exist_ok=True)
    for f in os.listdir(tmpdir):
        if f.startswith(tag + ".san"):
            os.unlink(os.path.join(tmpdir, f))
    cmd = [exe, "--scenario", scen, "--seed", str(seed), "--start", str(start), "--cases", str(n), "--out", out, "--status", status, "--workdir", work]
    if thorough:
        cmd.append("--thorough")
    so = open(os.path.join(tmpdir, tag + ".stdout"), "wb")
    p = subprocess.Popen(cmd, env=sanenv(san, log), stdout=so, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=work, start_new_session=True)
    # a shard hangs when the case it reports has not changed for 'timeout' seconds
    timed, rc, last, since = False, None, None, time.time()
    while rc is None and not timed:
        try:
            rc = p.wait(timeout=1)
        except subprocess.TimeoutExpired:
            try:
                cur = open(status, "rb").read(4096).split(b"\0")[0]
            except OSError:
                cur = b""
            if cur != last:
                last, since = cur, time.time()
            timed = time.time() - since > timeout or STOP.is_set()
    if timed:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.wait()
    so.close()
    shutil.rmtree(work, ignore_errors=True)
    res = dict(scen=scen, seed=seed, start=start, n=n, rc=rc, timed=timed, san=san, violations=[], data=None, log="")
    logs = ""
    for f in sorted(os.listdir(tmpdir)):
        if f.startswith(tag + ".san"):
            logs += open(os.path.join(tmpdir, f), errors="replace").read()
    tail = open(os.path.join(tmpdir, tag + ".stdout"), errors="replace").read()[-6000:]
    cur = ""
    try:
        cur = open(status, errors="replace").read().split("\0")[0]
    except OSError:
        pass
    res["log"] = logs[-30000:] + tail
    if timed:
        res["hang_case"] = cur
        return res
    if rc in (0, 7):
        try:
            res["data"] = json.load(open(out))
        except Exception as e:
            raise CheckError("unreadable harness output for %s: %s" % (scen, e))
        for v in res["data"]["violations"]:
            res["violations"].append(dict(key=v["key"], msg=v["msg"], desc=v["desc"], case=v["case"]))
        return res
    if rc == 3:
        raise CheckError("harness refused scenario %s: %s" % (scen, tail))
    # crash / sanitizer report
    key = san_key(logs if logs else tail)
    if not logs:
        key = "signal:%d" % (-rc) if rc < 0 else "exit:%d" % rc
        m = re.search(r"(terminate called[^\n]*|Assertion[^\n]*failed)", tail)
        if m:
            key += ":" + re.sub(r"[^A-Za-z ]+", "", m.group(1)).strip().replace(" ", "-")[:60]
    case = cur.split(" ", 1)
    res["violations"].append(dict(key="%s:%s" % (scen, key), msg=(logs or tail)[:3000], desc=case[1] if len(case) > 1 else "", case=int(case[0]) if case and case[0].isdigit() else -1))
    res["crashed"] = True
    return res

def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", l.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    t0 = time.time()
    spec = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + prop), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    tmpdir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        rc = decide(prop, spec, tier, thorough, seed, tmpdir, t0, only, scale)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    return rc

def decide(prop, spec, tier, thorough, seed, tmpdir, t0, only, scale):
    exes = build_all(sorted(set((b, san) for (b, san, _pat) in spec["runs"])))
    tbuild = time.time() - t0
    jobs = []
    for (b, san, pat) in spec["runs"]:
        exe = exes[(b, san)]
        lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=sanenv(san, os.path.join(tmpdir, "list")))
        if lst.returncode != 0:
            raise CheckError("cannot list scenarios of %s: rc=%d %s" % (b, lst.returncode, lst.stderr[-2000:]))
        names = 0
        for l in lst.stdout.split("\n"):
            if not l.strip():
                continue
            name, q, t = l.split()
            if not re.fullmatch(pat, name) or (only and not re.fullmatch(only, name)):
                continue
            names += 1
            n = int(int(t) if thorough else int(q))
            if san == "tsan":
                n = max(1, int(n * spec.get("tsan_frac", 1.0)))
            n = max(1, int(n * scale))
            shards = min(n, 8 if not thorough else 16)
            per = (n + shards - 1) // shards
            for i in range(shards):
                st_ = i * per
                k = min(per, n - st_)
                if k > 0:
                    jobs.append((exe, san, name, st_, k))
        if names == 0 and not only:
            raise CheckError("no scenario of %s matches %s" % (b, pat))
    timeout = spec.get("timeout", 60 if not thorough else 600)
    results = []
    kn = known_findings().get(prop, {})
    def go(ij):
        r = go1(ij) if not STOP.is_set() else None
        if r and not thorough and any(v["key"] not in kn for v in r["violations"]):
            time.sleep(2)  # let the other shards report as well
            STOP.set()
        return r
    def go1(ij):
        i, (exe, san, name, st_, k) = ij
        r = run_shard(exe, san, name, seed, st_, k, thorough, timeout, tmpdir, "j%d" % i)
        if r["timed"] and not STOP.is_set():  # inconclusive: run once more, alone in its slot, before calling it a hang
            r2 = run_shard(exe, san, name, seed, st_, k, thorough, timeout * 2, tmpdir, "j%dr" % i)
            if not r2["timed"] or STOP.is_set():
                return r2
            r2["violations"].append(dict(key="%s:hang" % name, msg="no progress within %d s, twice" % timeout, desc=r2.get("hang_case", ""), case=int(r2.get("hang_case", "0").split(" ")[0] or 0)))
            return r2
        return r
    par = spec.get("parallel", JOBS)
    with cf.ThreadPoolExecutor(par) as ex:
        results = [r for r in ex.map(go, enumerate(jobs)) if r]
    known = known_findings().get(prop, {})
    evals = checks = 0
    distinct, stats, samples = set(), {}, []
    new, seen_known = [], {}
    per = {}
    for r in results:
        d = r["data"]
        k = "%s/%s" % (r["scen"], r["san"])
        if d:
            evals += d["cases"]; checks += d["checks"]
            per.setdefault(k, [0, 0]); per[k][0] += d["cases"]; per[k][1] += d["checks"]
            distinct.update(d["distinct"])
            for a, b in d["stats"].items():
                kk = r["scen"] + "." + a
                stats[kk] = max(stats.get(kk, 0), b) if a.startswith("max_") else stats.get(kk, 0) + b
            if d["samples"] and sum(1 for s in samples if s["scenario"] == r["scen"]) < 2:
                for s in d["samples"][:1]:
                    samples.append(dict(scenario=r["scen"], build=r["san"], case=s[:400]))
        for v in r["violations"]:
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                new.append((r, v))
    rdir = os.path.join(VERIF, "replays")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec["rule"], samples=samples[:24],
                            oracle_checks=checks, per_workload={k: dict(cases=v[0], checks=v[1]) for k, v in sorted(per.items())},
                            observed=dict(sorted(stats.items())), builds=sorted(set("%s:%s" % (b, s) for b, s, _ in spec["runs"])), build_s=round(tbuild, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d oracle checks, %d distinct non-trivial, %d workloads, build %.0f s, total %.0f s" % (prop, tier, seed, evals, checks, len(distinct), len(per), tbuild, time.time() - t0))
    if os.environ.get("VERIF_DEBUG"):
        for k, v in sorted(per.items()):
            print("   ", k, v)
        for k, v in sorted(stats.items()):
            print("   ", k, v)
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    if new:
        os.makedirs(rdir, exist_ok=True)
        seenk = set()
        for i, (r, v) in enumerate(new):
            if v["key"] in seenk:
                continue
            seenk.add(v["key"])
            path = os.path.join(rdir, "%s-%d.txt" % (prop, len(seenk)))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\nscenario: %s build=%s\nreplay: %s (seed %d, case %d)\ncase: %s\n\n%s\n\n---- log ----\n%s\n" % (
                    prop, v["key"], r["scen"], r["san"],
                    "<harness> --scenario %s --seed %d --start %d --cases 1%s" % (r["scen"], seed, max(v["case"], 0), " --thorough" if thorough else ""),
                    seed, v["case"], v["desc"], v["msg"], r["log"]))
            print("  %s: %s | %s" % (v["key"], v["desc"][:300], v["msg"][:600].replace("\n", " / ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if evals == 0 or not distinct:
        if not only:
            raise CheckError("the monitors observed nothing")
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
