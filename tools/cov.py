#!/usr/bin/env python3
"""Line coverage of /repo's sources by the checks.  cov.py [--scale X] ID...  Writes $VERIF_BUILD/cov/ID.json {file: {line: count}}."""
import gzip, json, os, subprocess, sys, tempfile, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
scale = "0.3"
args = sys.argv[1:]
if args[0] == "--scale": scale = args[1]; args = args[2:]
for pid in args:
    cfg = run.load_config()[pid]
    exe = run.build(pid, cfg, "cov")
    bd = os.path.join(run.BUILD, "cov")
    scratch = tempfile.mkdtemp(prefix="tpievc-", dir="/tmp"); os.chmod(scratch, 0o755)
    try:
        rd = os.path.join(scratch, "run"); cv = os.path.join(scratch, "cov"); os.mkdir(rd); os.mkdir(cv)
        os.chown(rd, 65534, 65534); os.chown(cv, 65534, 65534)
        exe2 = os.path.join(scratch, "check"); shutil.copy(exe, exe2)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": rd, "TMPDIR": rd, "GCOV_PREFIX": cv}
        p = subprocess.run([exe2, "--scratch", rd, "--tier", "quick", "--seed", "1", "--out", rd + "/r.json", "--replay-out", rd + "/v.txt", "--time", "600", "--workers", "8", "--scale", scale], env=env, cwd=rd, preexec_fn=run.demote, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(pid, "rc", p.returncode, p.stdout[-300:])
        res = {}
        for root, _, fs in os.walk(cv):
            for f in fs:
                if not f.endswith(".gcda"): continue
                src = os.path.join("/" + os.path.relpath(root, cv), f)
                gcno = src[:-5] + ".gcno"
                if not os.path.exists(gcno): continue
                shutil.copy(gcno, os.path.join(root, f[:-5] + ".gcno"))
                o = subprocess.run(["gcov", "-t", "-j", os.path.join(root, f)], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
                for line in o.splitlines():
                    if not line.strip(): continue
                    for fl in json.loads(line)["files"]:
                        n = os.path.normpath(fl["file"])
                        if not n.startswith(run.REPO + "/tpie/"): continue
                        n = n[len(run.REPO) + 1:]
                        d = res.setdefault(n, {})
                        for l in fl["lines"]: d[l["line_number"]] = d.get(l["line_number"], 0) + l["count"]
        json.dump(res, open(os.path.join(bd, pid + ".json"), "w"))
        for g in cfg.get("none", []): pass
    finally: shutil.rmtree(scratch, ignore_errors=True)
