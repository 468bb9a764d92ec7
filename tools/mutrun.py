#!/usr/bin/env python3
"""Development tool: which single-edit variants of /repo build, pass the tests and still escape the checks?
mutrun.py filter MUTANTS.jsonl OUT.jsonl        keep the variants that build and pass the tests
mutrun.py check IN.jsonl OUT.jsonl [SLOTS]      run this file's checks on each (scratch copies under /tmp)"""
import json, os, shutil, subprocess, sys, tempfile, threading, queue
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "v2/xcache.go": "C02 C01 C05 C04 C03",
 "v2/xdataset.go": "C07 C13 C06 C08 C10",
 "v2/xdatasetcollection.go": "C07 C13 C06 C09 C10",
 "v2/xdatasetcollectionts.go": "C07 C13 C06 C09 C10 C12",
 "v2/xdatasetts.go": "C07 C13 C06 C08 C10 C11",
 "v2/xlanguage.go": "C16 C15 C14 C29 C17",
 "v2/xtemplate.go": "C20 C21 C22 C19 C18 C29 C32",
 "xcache.go": "C24 C25", "xdataset.go": "C26", "xlanguage.go": "C27 C29", "xtemplate.go": "C28 C29 C32",
}
REPO = os.environ.get("MUT_REPO", "/repo")  # the tree the variants were made from
def rel(f): return os.path.relpath(f, "/repo")
def mutated(m):
    s = open(REPO + "/" + rel(m["file"]), "rb").read()
    for a, b, t in sorted(m["edits"], key=lambda e: -int(e[0])):
        s = s[:int(a)] + t.encode() + s[int(b):]
    return s
def pool(items, n, fn):
    q = queue.Queue()
    for i, x in enumerate(items): q.put((i, x))
    def w(k):
        while True:
            try: i, x = q.get_nowait()
            except queue.Empty: return
            try: fn(k, i, x)
            except Exception as e: print("error", i, e, flush=True)
    ts = [threading.Thread(target=w, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
def modfile(d, m):
    shutil.copy(f"/repo/{m}/go.mod", f"{d}/x.mod")
    import glob
    l = set(open(f"/repo/{m}/go.sum").read().splitlines())
    for f in glob.glob("/opt/vp/gomod/*.extra.sum"): l |= set(open(f).read().splitlines())
    open(f"{d}/x.sum", "w").write("\n".join(sorted(l)) + "\n")
def filt(src, dst, slots=8):
    ms = [json.loads(l) for l in open(src)]
    s = tempfile.mkdtemp(prefix="mutfilter.", dir="/tmp")
    out = open(dst, "w"); lock = threading.Lock(); n = [0]
    for k in range(slots):
        shutil.copytree(REPO, f"{s}/{k}/repo"); os.makedirs(f"{s}/{k}/mod")
    def f(k, i, m):
        mod = "v2" if rel(m["file"]).startswith("v2/") else "."
        d = f"{s}/{k}"; modfile(d + "/mod", mod)
        p = f"{d}/repo/{rel(m['file'])}"
        orig = open(p, "rb").read()
        open(p, "wb").write(mutated(m))
        try:
            r = subprocess.run(f"ulimit -v 8000000; exec timeout 60 go test -vet=off -count=1 -timeout 50s ./...", shell=True, executable="/bin/bash", cwd=f"{d}/repo/{mod}", capture_output=True,
              env=dict(ENV, GOFLAGS=f"-mod=mod -modfile={d}/mod/x.mod"))
        finally: open(p, "wb").write(orig)
        with lock:
            n[0] += 1
            if r.returncode == 0: out.write(json.dumps(m) + "\n"); out.flush()
            if n[0] % 100 == 0: print(n[0], "of", len(ms), flush=True)
    pool(ms, slots, f); shutil.rmtree(s)
def check(src, dst, slots=4):
    ms = [json.loads(l) for l in open(src)]
    s = tempfile.mkdtemp(prefix="mutcheck.", dir="/tmp")
    out = open(dst, "w"); lock = threading.Lock()
    for k in range(slots):
        d = f"{s}/{k}"
        shutil.copytree(REPO, d + "/repo"); os.makedirs(d + "/verif"); os.makedirs(d + "/tmp")
        shutil.copytree(V + "/mc", d + "/verif/mc"); shutil.copy(V + "/run.sh", d + "/verif/run.sh")
        subprocess.run(f"sed -i 's#/repo#{d}/repo#g' {d}/verif/run.sh {d}/verif/mc/go.mod && sed -i 's/nw > 8/nw > {8//slots}/; s/nw = 8/nw = {8//slots}/; s/hangAfter = 240/hangAfter = 40/; s/for runs < 5 /for runs < 2 /' {d}/verif/mc/fw/fw.go", shell=True, check=True)
    def f(k, i, m):
        d = f"{s}/{k}"; p = f"{d}/repo/{rel(m['file'])}"
        orig = open(p, "rb").read()
        open(p, "wb").write(mutated(m))
        res = {}
        try:
            for c in (m.get("checks") or PROPS[rel(m["file"])]).split():
                r = subprocess.run(["bash", d + "/verif/run.sh", c], cwd=d + "/verif", capture_output=True, text=True, env=dict(ENV, VERIF_TIER="quick", VERIF_SEED="1", VERIF_BUDGET="1500", TMPDIR=d + "/tmp"))
                res[c] = r.returncode
                if r.returncode == 1: break
                if r.returncode != 0: m["log"] = r.stdout[-600:] + r.stderr[-600:]
        finally: open(p, "wb").write(orig)
        m["res"] = res; m["caught"] = [c for c in res if res[c] == 1]
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
            if not m["caught"]: print("SURVIVED", rel(m["file"]), m["line"], m["func"], "|", m["kind"], res, flush=True)
    pool(ms, slots, f); shutil.rmtree(s)
if sys.argv[1] == "filter": filt(sys.argv[2], sys.argv[3])
else: check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 4)
