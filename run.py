#!/usr/bin/env python3
"""Builds and runs the check of one property.  Usage: run.py ID [--tier quick|thorough] [--replay FILE] [--build-only] [extra args for the harness]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check could not decide."""
import concurrent.futures, fcntl, json, os, shutil, subprocess, sys, tempfile, time, signal, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CXX = "/usr/bin/g++"
SAN = {"asan": "-fsanitize=address", "tsan": "-fsanitize=thread", "plain": "", "cov": "--coverage -fprofile-update=atomic -fprofile-abs-path -Wl,-u,__gcov_dump"}
COMMON = "-O1 -g1 -fno-omit-frame-pointer"
WRAPS = "fopen fopen64 fclose read write writev pread pwrite open open64 ftruncate ftruncate64 unlink rename fsync close lseek lseek64".split()

def load_config():
    with open(os.path.join(V, "checks", "checks.json")) as f:
        return json.load(f)

def sh(cmd, log):
    env = dict(os.environ, CC="/usr/bin/gcc", CXX=CXX, LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"): env.pop(k, None)
    with open(log, "ab") as f:
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env).returncode

def fail_build(log):
    try:
        with open(log, errors="replace") as f: sys.stdout.write(f.read()[-6000:])
    except OSError: pass
    print("error: the build of the check failed")
    sys.exit(2)

def up_to_date(obj, stamp, cmdline):
    if not os.path.exists(obj) or not os.path.exists(stamp): return False
    try:
        with open(stamp) as f: s = json.load(f)
        if s["cmd"] != cmdline: return False
        for p, (m, z) in s["deps"].items():
            st = os.stat(p)
            if st.st_mtime_ns != m or st.st_size != z: return False
        return True
    except (OSError, ValueError, KeyError): return False

def write_stamp(dep, stamp, cmdline):
    with open(dep) as f: t = f.read().replace("\\\n", " ")
    deps = {}
    for p in t.split(":", 1)[1].split():
        st = os.stat(p); deps[p] = (st.st_mtime_ns, st.st_size)
    with open(stamp, "w") as f: json.dump({"cmd": cmdline, "deps": deps}, f)

def build(pid, cfg, variant="asan", with_lib=True):
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    log = os.path.join(bd, "build-%s.log" % pid)
    open(log, "w").close()
    lock = open(os.path.join(bd, ".lock"), "w")
    if with_lib: fcntl.flock(lock, fcntl.LOCK_EX)
    flags = (COMMON + " " + SAN[variant]).strip()
    lib = os.path.join(bd, "lib")
    rc = with_lib and sh(["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS=" + flags,
             "-DCMAKE_CXX_FLAGS_RELEASE= -DNDEBUG ", "-DTPIE_USE_GIT_COMMIT=OFF", "-DTPL_LOGGING=ON", "-DTPIE_PARALLEL_SORT=ON",
             "-DTPIE_USE_SNAPPY=ON", "-DTPIE_USE_LZ4=ON", "-DTPIE_USE_ZSTD=ON", "-DCOMPILE_TEST=ON", "-Wno-dev"], log)
    if rc: fail_build(log)
    res = {}
    def lib_build(): res["lib"] = sh(["ninja", "-C", lib, "tpie"], log)
    srcs = [os.path.join(V, "engine", "pbt.cpp")] + [os.path.join(V, "checks", s) for s in cfg.get("sources", [pid + ".cpp"])]
    objs = []
    def cc(src):
        o = os.path.join(bd, os.path.basename(src) + ".o")
        cmd = [CXX, "-std=c++17"] + flags.split() + ["-DNDEBUG", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-w",
               "-I", os.path.join(V, "engine"), "-I", os.path.join(V, "checks"), "-I", lib, "-I", os.path.join(lib, "tpie"), "-I", REPO] + cfg.get("cflags", [])
        cmd += ["-MD", "-MF", o + ".d", "-c", src, "-o", o]
        if not up_to_date(o, o + ".stamp", cmd):
            if os.path.exists(o): os.unlink(o)
            if sh(cmd, log): res[src] = 1; return
            write_stamp(o + ".d", o + ".stamp", cmd)
    threads = [threading.Thread(target=lib_build)] if with_lib else []
    for s in srcs:
        objs.append(os.path.join(bd, os.path.basename(s) + ".o"))
        threads.append(threading.Thread(target=cc, args=(s,)))
    for t in threads: t.start()
    for t in threads: t.join()
    if any(res.values()): fail_build(log)
    exe = os.path.join(bd, "check-" + pid)
    wraps = ["-Wl,--wrap=" + w for w in WRAPS] if cfg.get("wrap") else []
    if os.path.exists(exe): os.unlink(exe)
    if sh([CXX] + flags.split() + objs + wraps + cfg.get("ldflags", []) + [os.path.join(lib, "tpie", "libtpie.a"), "-lsnappy", "-llz4", "-lzstd", "-pthread", "-o", exe], log): fail_build(log)
    if cfg.get("apps"): # programs of the repository that the check runs
        if not with_lib: fcntl.flock(lock, fcntl.LOCK_EX)
        if sh(["ninja", "-C", lib] + cfg["apps"], log): fail_build(log)
    lock.close()
    return exe

def findings(pid):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                rep, what = rest.split(" ", 1)
                out.append((rep[len("replay="):], what))
    return out

def demote():
    if os.geteuid() == 0:
        try:
            os.setgroups([]); os.setgid(65534); os.setuid(65534)
        except OSError: pass

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup": # builds everything
        todo = {"asan": [], "tsan": []}
        for p, c in sorted(load_config().items()):
            todo["asan"].append((p, c))
            if c.get("tsan_scale"): todo["tsan"].append((p, c))
        for variant, l in todo.items(): # the library and the engine first, then the checks in parallel
            if not l: continue
            build(l[0][0], l[0][1], variant)
            with concurrent.futures.ThreadPoolExecutor(6) as ex: list(ex.map(lambda pc: build(pc[0], pc[1], variant, False), l[1:]))
        return 0
    pid = args.pop(0)
    cfg = load_config()[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed = str(int(seed) & 0x7fffffffffffffff)
    except ValueError: seed = "1"
    replay = None; extra = []; build_only = False; factor = 1.0
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = args.pop(0)
        elif a == "--replay": replay = os.path.abspath(args.pop(0))
        elif a == "--build-only": build_only = True
        elif a == "--scale": factor = float(args.pop(0))
        else: extra.append(a)
    t0 = time.time()
    # first pass with AddressSanitizer and UBSan; checks of concurrent code have a second, smaller one with ThreadSanitizer
    passes = [("asan", "1")]
    ts = cfg.get("tsan_scale") or (tier == "thorough" and cfg.get("tsan_thorough"))
    if ts: passes.append(("tsan", str(ts)))
    if replay:
        with open(replay, errors="replace") as f: passes = [("tsan", "1")] if "\nsanitizer: tsan\n" in f.read() else [("asan", "1")]
    if build_only:
        for v, _ in passes: build(pid, cfg, v)
        return 0
    total = None
    for variant, scale in passes:
        scale = "%g" % (float(scale) * factor)
        rc, ev = one_pass(pid, cfg, tier, seed if variant == "asan" else str((int(seed) + 1000003) & 0x7fffffffffffffff), replay, extra, variant, scale, t0)
        if ev: ev["seed"] = int(seed)
        if ev is None: return rc
        if total is None: total = ev
        else:
            c, d = total["coverage"], ev["coverage"]
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "planned", "search_s", "build_s"): c[k] += d[k]
            c["time_cap_reached"] = c["time_cap_reached"] or d["time_cap_reached"]
            c["scenarios_under_" + variant] = d["scenarios"]
            total["violations"] += ev["violations"]; total["wall_s"] = ev["wall_s"]
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(total, f, indent=1)
        if rc: return rc
    return 0

def one_pass(pid, cfg, tier, seed, replay, extra, variant, scale, t0):
    tb0 = time.time()
    exe = build(pid, cfg, variant)
    tb = time.time() - tb0
    scratch = tempfile.mkdtemp(prefix="tpiev-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        run = os.path.join(scratch, "run"); os.mkdir(run)
        exe2 = os.path.join(scratch, "check"); shutil.copy(exe, exe2); os.chmod(exe2, 0o755)
        for a in cfg.get("apps", []):
            shutil.copy(os.path.join(os.path.dirname(exe), "lib", "apps", a, a), os.path.join(scratch, "app-" + a)); os.chmod(os.path.join(scratch, "app-" + a), 0o755)
        os.chmod(scratch, 0o755)
        if os.geteuid() == 0:
            try: os.chown(run, 65534, 65534)
            except OSError: pass
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": run, "TMPDIR": run}
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:quarantine_size_mb=8:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_malloc_fill_size=65536:check_initialization_order=0"
        env["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=0:detect_deadlocks=0:suppressions=" + os.path.join(run, "tsan.supp")
        with open(os.path.join(run, "tsan.supp"), "w") as f: f.write("\n".join(cfg.get("tsan_suppressions", [])) + "\n")
        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]; hard = 1 << 40 if hard == resource.RLIM_INFINITY else min(hard, 1 << 40)
            resource.setrlimit(resource.RLIMIT_FSIZE, (min(2 << 30, hard), hard))  # checks that need sparse files raise the soft limit
            os.setsid()
            demote()
        def launch(cmd, limit):
            p = subprocess.Popen(cmd, env=env, cwd=run, preexec_fn=pre, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try: o, _ = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.communicate()
                return None, ""
            return p.returncode, o
        if replay:
            shutil.copy(replay, os.path.join(run, "replay.txt")); os.chmod(os.path.join(run, "replay.txt"), 0o644)
            rc, o = launch([exe2, "--scratch", run, "--tier", tier, "--replay", os.path.join(run, "replay.txt")], 800)
            print(o); return (rc if rc is not None else 2), None
        for rep, what in findings(pid) if variant == "asan" else []:
            shutil.copy(os.path.join(V, rep), os.path.join(run, "finding.txt")); os.chmod(os.path.join(run, "finding.txt"), 0o644)
            rc, o = launch([exe2, "--scratch", run, "--tier", tier, "--replay", os.path.join(run, "finding.txt")], 300)
            if rc == 1: print("KNOWN-FINDING: property=%s %s" % (pid, what)); sys.stdout.flush()
        res = os.path.join(run, "result.json"); repf = os.path.join(run, "violation.txt")
        budget = cfg.get("time_quick", 240) if tier == "quick" else cfg.get("time_thorough", 560)
        hard = max(60, 870 - (time.time() - t0))
        if variant != "asan": budget = max(30, min(budget, hard - 60))
        rc, o = launch([exe2, "--scratch", run, "--tier", tier, "--seed", seed, "--out", res, "--replay-out", repf, "--time", str(budget), "--workers", str(cfg.get("workers", 8)), "--scale", scale] + extra, hard)
        if not os.path.exists(res):
            print(o[-4000:] if o else ""); print("error: the harness gave no result (rc=%s)" % rc); return 2, None
        with open(res) as f: r = json.load(f)
        ev = {"property": pid, "tier": tier, "seed": int(seed), "level": cfg.get("level", "exploration"),
              "coverage": {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
                           "samples": r["samples"], "nontrivial": r["nontrivial"], "planned": r["planned"], "time_cap_reached": r["truncated"],
                           "scenarios": r["scenarios"], "classes": r["labels"], "search_s": r["search_s"], "build_s": round(tb, 1)},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if r["rc"] == 1 else 0}
        print("%s %s %s seed=%s: %d cases, %d distinct non-trivial, search %.1f s, build %.1f s%s" % (pid, variant, tier, seed, r["evaluations"], r["distinct_nontrivial"], r["search_s"], tb, ", time cap reached" if r["truncated"] else ""))
        if r["rc"] == 1:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            dst = os.path.join(V, "replays", "%s-%s-%s.txt" % (pid, tier, seed))
            shutil.copy(repf, dst)
            if variant != "asan":
                with open(dst, "a") as f: f.write("\nsanitizer: %s\n" % variant)
            print(r["message"])
            print("VIOLATION property=%s replay=%s" % (pid, dst)); return 1, ev
        if r["rc"] != 0 or rc != 0: print("error: " + r.get("message", "")); print((o or "")[-2000:]); return 2, None
        return 0, ev
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
