#!/usr/bin/env python3
"""sweep.py MUTANTS.py [ID...]: applies small changes to scratch copies of /repo, keeps those that pass the existing
tests, and runs the quick checks of the named properties against them. A tool for finding what the checks miss; no check uses it.
Works in /tmp/swp only: <k>/repo and <k>/verif are copies, and the output of TLC on specifications without a trace is reused."""
import json, os, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/swp"
WORKERS = int(os.environ.get("SWEEP_WORKERS", "4"))
WRAP = '''
import os, sys, json, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import checks, vlib
real = vlib.Ctx.tlc
def tlc(self, module, cfg, emit=None, env=None, **kw):
    if env: return real(self, module, cfg, emit=emit, env=env, **dict(kw, workers=3))
    key = os.path.join("/tmp/swp/cache", cfg)
    if not os.path.exists(key + ".json"):
        r = real(self, module, cfg, emit=emit or (cfg + ".x"), env=env, **kw)
        tmp = key + ".%d" % os.getpid()
        shutil.copy(os.path.join(self.dir, emit or (cfg + ".x")), tmp)
        os.rename(tmp, key + ".ndjson")
        open(tmp, "w").write(json.dumps(r)); os.rename(tmp, key + ".json")
    r = json.load(open(key + ".json"))
    if emit:
        p = os.path.join(self.dir, emit)
        if os.path.exists(p): os.unlink(p)
        os.symlink(key + ".ndjson", p)
    return r
vlib.Ctx.tlc = tlc
sys.exit(vlib.run(sys.argv[1], checks.CHECKS[sys.argv[1]]))
'''

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def prepare(k):
    d = "%s/%d" % (S, k)
    os.makedirs(d, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ repo/ 2>/dev/null || (rm -rf %s/repo/src; cp -a /repo/. repo/)" % d, d)
    os.makedirs(d + "/verif", exist_ok=True)
    for x in ("spec", "tools", "harness/src", "known-findings.txt", "harness/Cargo.toml", "harness/Cargo.lock"):
        dst = d + "/verif/" + x
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        (shutil.copytree if os.path.isdir(V + "/" + x) else shutil.copy)(V + "/" + x, dst)
    sh("sed -i 's#/repo#%s/repo#' harness/Cargo.toml harness/src/sector.rs tools/vlib.py" % d, d + "/verif")
    open(d + "/verif/cached.py", "w").write(WRAP)

def one(k, m):
    d = "%s/%d" % (S, k)
    done = {}
    for file, old, new in m["edits"]:
        f = d + "/repo/src/" + file
        src = open(f).read()
        done.setdefault(f, src)
        nth = 0
        if "@@" in old[:4]: nth, old = int(old.split("@@")[0]), old.split("@@", 1)[1]
        n = src.count(old)
        if n < 1 or (n > 1 and not nth):
            for g, t in done.items(): open(g, "w").write(t)
            return "BAD(%d matches of %r)" % (n, old[:40]), {}
        parts = src.split(old); i = nth or 1
        open(f, "w").write(old.join(parts[:i]) + new + old.join(parts[i:]))
    try:
        rc, out = sh("CARGO_TARGET_DIR=%s/t cargo test --workspace --all-features --offline 2>&1" % d, d + "/repo", 300)
        if rc != 0:
            return ("NOBUILD" if "could not compile" in out else "TESTS"), {"out": out[-600:]}
        res = {}
        for p in m["props"]:
            t = time.time()
            rc, out = sh("VERIF_TIER=quick VERIF_SEED=1 python3 cached.py %s" % p, d + "/verif", 600)
            open("%s/log/%s.%s" % (S, m["id"], p), "w").write(out)
            res[p] = "%d(%.0fs)" % (rc, time.time() - t)
            if rc == 1 and not os.environ.get("SWEEP_ALL"): break
        hit = any(v.startswith("1(") for v in res.values())
        return ("caught" if hit else "MISSED"), res
    finally:
        for g, t in done.items(): open(g, "w").write(t)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    # (id, [(file, old, new), ...], "C01 C02"); "2@@old" means the second occurrence
    ms = [{"id": i, "edits": e, "props": p.split()} for i, e, p in ns["M"]]
    if sys.argv[2:]: ms = [m for m in ms if any(re.fullmatch(a, m["id"]) for a in sys.argv[2:])]
    os.makedirs(S + "/cache", exist_ok=True); os.makedirs(S + "/log", exist_ok=True)
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    def work(k):
        prepare(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r, det = one(k, m)
            except Exception as e: r, det = "ERROR", {"e": repr(e)}
            with lock: print(r, m["id"], m["props"], json.dumps(det)[:700], flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(WORKERS, len(ms)))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
