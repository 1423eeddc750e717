#!/usr/bin/env python3
"""Mutation testing of a check.  mutate.py ID --base DIR --src REPO --out FILE [--n N] [--seed S] [--scale X] [--cov COV.json] [--files f,..] [--workers W]
Applies one small textual change at a time to a clone of REPO and runs the check on it; writes a line per mutant."""
import argparse, json, os, random, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--base", default="/tmp/m"); ap.add_argument("--src", default="/repo"); ap.add_argument("--out", required=True)
ap.add_argument("--n", type=int, default=25); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--scale", default="0.4"); ap.add_argument("--cov"); ap.add_argument("--files"); ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--checks", default=V)
a = ap.parse_args()
files = a.files.split(",") if a.files else []
if not files:
    for l in open(os.path.join(V, "properties.jsonl")) if os.path.exists(os.path.join(V, "properties.jsonl")) else open("/verif/properties.jsonl"):
        d = json.loads(l)
        if d["id"] == a.id: files = d["anchors"]["files"]
    ext = []
    for f in files:
        s = os.path.splitext(f)[0]
        for e in (".h", ".inl", ".cpp"):
            if os.path.exists(os.path.join(a.src, s + e)) and s + e not in ext: ext.append(s + e)
    files = ext
cov = json.load(open(a.cov)) if a.cov else {}
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])(?=\s)", " <=".strip()), (r"(?<![<>=!\-])>(?![>=])(?=\s)", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\+1\b", ""), (r"-1\b", ""), (r"\+\+", "--"), (r"--", "++"), (r"(?<=\w) \+ (?=\w)", " - "), (r"(?<=\w) - (?=\w)", " + "), (r"\+=", "-="), (r"-=", "+="),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"(?<=[\w)]) / (?=[\w(])", " * "), (r"(?<=[\w)]) % (?=[\w(])", " / ")]
muts = []
for f in files:
    p = os.path.join(a.src, f)
    if not os.path.exists(p): continue
    lines = open(p, errors="replace").read().split("\n"); incomment = False; dbg = 0
    for i, l in enumerate(lines):
        st = l.strip()
        if "/*" in st and "*/" not in st: incomment = True
        if incomment:
            if "*/" in st: incomment = False
            continue
        if st.startswith("#"):
            if re.match(r"#\s*if(ndef TPIE_NDEBUG|def _?WIN32| 0)", st): dbg += 1
            elif re.match(r"#\s*(endif|else)", st) and dbg: dbg -= 1
            continue
        if dbg or not st or st.startswith(("//", "*", "typedef", "template", "using", "class ", "struct ", "log_", "tp_assert", "assert", "namespace", "static_assert", "friend", "throw", "virtual", "tpie::log", "<<", "enum", "public", "private", "case ")): continue
        if cov:
            n = cov.get(f, {}).get(str(i + 1))
            if not n: continue
        code = l.split("//")[0]
        if 'exception(' in code or '"' in code: continue
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if rx in (r"\b0\b", r"\b1\b") and not re.search(r"[=<>(,+\-\s]$", code[:m.start()]): continue
                if re.search(r"template|operator|#include|= 0;\s*$", code) and rx in (r"\b0\b",): continue
                if "operator" in code: continue
                muts.append((f, i, l, l[:m.start()] + to + l[m.end():], "op"))
        if re.match(r"^\s*[\w:.\->\[\]()*&]+(\s*[-+|&]?=[^=].*|\(.*\)|\+\+|--);\s*$", code) and not re.match(r"\s*(return|break|continue|delete|else|default|T |auto )", code) and not re.match(r"^\s*[\w:<>]+\s+[\w]+\s*(\(|=)", code):
            muts.append((f, i, l, re.match(r"\s*", l).group(0) + ";", "delete"))
        m = re.match(r"^(\s*(?:\}\s*else\s+)?if\s*)\((.*)\)(\s*\{?\s*)$", code)
        if m: muts.append((f, i, l, m.group(1) + "(!(" + m.group(2) + "))" + m.group(3), "negate"))
        m = re.match(r"^(\s*)(break|continue);\s*$", code)
        if m: muts.append((f, i, l, m.group(1) + ";", "drop " + m.group(2)))
rnd = random.Random(a.seed); rnd.shuffle(muts)
# spread over files and lines
seen = {}; pick = []
for m in muts:
    if seen.get((m[0], m[1]), 0): continue
    seen[(m[0], m[1])] = 1; pick.append(m)
pick = pick[:a.n]
print(a.id, len(muts), "mutants possible,", len(pick), "picked from", len(files), "files"); sys.stdout.flush()
lock = threading.Lock(); it = iter(pick)
def worker(k):
    repo = "%s/%d/repo" % (a.base, k)
    if not os.path.exists(repo):
        os.makedirs(os.path.dirname(repo), exist_ok=True); subprocess.run(["git", "clone", "-q", a.src, repo], check=True)
    subprocess.run("git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % a.src, shell=True, cwd=repo, check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD="%s/%d/build" % (a.base, k))
    while True:
        with lock:
            m = next(it, None)
        if m is None: return
        f, i, old, new, kind = m; p = os.path.join(repo, f); orig = open(p, errors="surrogateescape").read(); ls = orig.split("\n"); assert ls[i] == old; ls[i] = new
        open(p, "w", errors="surrogateescape").write("\n".join(ls)); t = time.time(); res = "?"; msg = ""
        try:
            for sc in (a.scale, "1"):
                try: r = subprocess.run([sys.executable, os.path.join(a.checks, "run.py"), a.id, "--scale", sc, "--seed", "%d" % (100 + k)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                except subprocess.TimeoutExpired: res = "timeout"; break
                if r.returncode == 1: res = "killed@" + sc; msg = [x for x in r.stdout.split("\n") if x.strip()][-2][:200]; break
                if r.returncode != 0: res = "nobuild" if "build of the check failed" in r.stdout else "error"; msg = r.stdout[-200:] if res == "error" else ""; break
                res = "SURVIVED"
                if sc == "1" or a.scale == "1": break
        finally: open(p, "w", errors="surrogateescape").write(orig)
        with lock:
            with open(a.out, "a") as o: o.write(json.dumps({"id": a.id, "res": res, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "kind": kind, "t": round(time.time() - t), "msg": msg}) + "\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
for t in ts: t.start()
for t in ts: t.join()
