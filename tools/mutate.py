#!/usr/bin/env python3
"""mutate.py SEED COUNT [FILES]: random small changes which survive the test suite, run against all units.  A tool to find
holes in the checks; works on copies under /tmp/mut.  Results: /tmp/mut/results.jsonl"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading, time, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
M = "/tmp/mut"; os.makedirs(M, exist_ok=True)
random.seed(int(sys.argv[1])); COUNT = int(sys.argv[2]); FILES = sys.argv[3].split(",") if len(sys.argv) > 3 else None
CAP = int(os.environ.get("CAP", "45"))
SKIP = re.compile(r'^\s*(assert|AN\(|AZ\(|CHECK_OBJ|CAST_OBJ|XXX|ALLOC_OBJ|FREE_OBJ|INIT_OBJ|#|//|\*|/\*|usage|fprintf\(stderr|printf|\}|\{|case |default:|return \(NULL\)|static|extern|struct|const|WRONG|else$|\(void\))')
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\+= ', '= '), (r'\+\+', '--'), (r'!(?=[a-z(])', ''), (r' & ', ' | '), (r'\|= ', '= '),
       (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'\bsizeof (\w)', r'sizeof \1 - 1 + 0 * sizeof \1'), (r'break;', 'continue;'), (r'\belse if\b', 'if')]
def cands():
    r = []
    for f in sorted(glob.glob("/repo/*.c")):
        b = os.path.basename(f)
        if FILES and b not in FILES: continue
        bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", b], capture_output=True, text=True).stdout.splitlines()
        fn = False; L = open(f).read().split("\n")
        for i, l in enumerate(L):
            if l.startswith("{"): fn = True
            if l.startswith("}"): fn = False
            if not fn or SKIP.match(l) or not l.strip() or not bl[i].startswith("^"): continue
            for k, (a, c) in enumerate(OPS):
                for m in re.finditer(a, l):
                    n = l[:m.start()] + re.sub(a, c, l[m.start():], count=1)
                    if n != l: r.append((b, i, n))
            if re.match(r'^\s+[^=]*\(.*\);$|^\s+\S.* [-+|]?= .*;$', l): r.append((b, i, re.match(r'\s*', l).group(0) + ";"))
            if re.match(r'^\s+(if|while) \(.*\)\s*\{?$', l): r.append((b, i, re.sub(r'\((.*)\)', r'(0 && (\1))', l, count=1)))
    return r
def copy(k):
    d = "%s/w%d" % (M, k); shutil.rmtree(d, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", d], check=True)
    for s in ("build.sh", "test.sh"): open("%s/%s.%d" % (M, s, k), "w").write(open("/opt/vp/" + s).read().replace("/repo", d).replace("-k 5 120", "-k 1 30").replace("bash /opt/vp/build.sh", "bash %s/build.sh.%d" % (M, k)))
    return d
BASE = None
def survives(k, mut):
    d = "%s/w%d" % (M, k); b, i, n = mut
    src = open("/repo/" + b).read().split("\n"); src[i] = n; open("%s/%s" % (d, b), "w").write("\n".join(src))
    time.sleep(1.1); os.utime("%s/%s" % (d, b))
    try:
        r = subprocess.run(["bash", "%s/build.sh.%d" % (M, k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        if r.returncode: return False
        o = "%s/o.%d.json" % (M, k)
        subprocess.run(["bash", "%s/test.sh.%d" % (M, k), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        x = json.load(open(o)); return len(x["passed"]) >= len(BASE) and not x["failed"]
    except subprocess.TimeoutExpired: return False
    finally:
        shutil.copy("/repo/" + b, "%s/%s" % (d, b)); subprocess.run(["rm", "-rf", d + "/_build/test", "%s/_build/%s" % (d, b.replace(".c", ".o"))])
def main():
    global BASE
    C = cands(); random.shuffle(C)
    o = json.load(open("/opt/vp/BASELINE.json")); BASE = set()
    for k in ("stable", "passed", "tests", "stable_tests"):
        if k in o: BASE = set(o[k]); break
    N = 8
    for k in range(N): copy(k)
    # survivors first
    seen = set(); surv = []; tried = 0; lock = threading.Lock(); it = iter(C)
    per = {}
    for l in (open(M + "/results.jsonl") if os.path.exists(M + "/results.jsonl") else []): x = json.loads(l); seen.add((x["file"], x["line"]))
    def worker(k):
        nonlocal tried
        while True:
            with lock:
                if len(surv) >= COUNT: return
                m = next(it, None)
                while m and ((m[0], m[1]) in seen): m = next(it, None)
                if m is None: return
                seen.add((m[0], m[1])); tried += 1
            if survives(k, m):
                with lock: surv.append(m); print("survivor %d/%d: %s:%d %s" % (len(surv), tried, m[0], m[1] + 1, m[2].strip()), flush=True)
    if os.environ.get("SURV"):	# survivors of an earlier run, from its log
        for l in open(os.environ["SURV"]):
            m = re.match(r"survivor \d+/\d+: (\S+):(\d+) (.*)", l)
            if m and (m[1], int(m[2])) not in seen: surv.append((m[1], int(m[2]) - 1, m[3]))
    else:
        with cf.ThreadPoolExecutor(N) as ex: list(ex.map(worker, range(N)))
    print("tried", tried, "survive", len(surv), flush=True)
    while os.environ.get("WAITFOR") and not os.path.exists(os.environ["WAITFOR"]): time.sleep(5)
    os.environ["AARD_REPO"] = M + "/w0"
    import check, units
    exe = check.build_engine()
    cov = json.load(open(V + "/build/cov.json")) if os.path.exists(V + "/build/cov.json") else {}
    for mut in surv[:COUNT]:
        t0 = time.time(); b, i, n = mut; d = M + "/w0"
        src = open("/repo/" + b).read().split("\n"); old = src[i]; src[i] = n; open("%s/%s" % (d, b), "w").write("\n".join(src))
        us = [u for u in units.UNITS if not cov or b in cov.get(u["name"], [b])]
        us = [u for u in us if u["name"] not in os.environ.get("NOT", "").split(",")]
        us.sort(key=lambda u: (len(cov.get(u["name"], [])), u["quick"]["time"]))
        w = "%s/build" % M; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        B = check.Build(w); stop = threading.Event(); found = []
        try:
            B.compile(); print("running", b, i + 1, n.strip(), flush=True)
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(B.link, sorted({u["file"] for u in us})))
        except Exception as e: print("NO BUILD", e); continue
        def one(u):
            if stop.is_set(): return
            uu = dict(u); q = dict(u["quick"]); q["time"] = min(CAP, q["time"]); uu["quick"] = q
            try: R = check.run_unit(B, exe, uu, "all", "quick", 1, False)
            except Exception as e: return
            if R["confirmed"]: found.append((u["name"], R["confirmed"][0].get("prop", ""), R["confirmed"][0]["kind"], R["confirmed"][0]["msg"])); stop.set()
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, us))
        shutil.copy("/repo/" + b, "%s/%s" % (d, b))
        x = dict(file=b, line=i + 1, old=old.strip(), new=n.strip(), found=found[:3], units=len(us), wall=round(time.time() - t0))
        open(M + "/results.jsonl", "a").write(json.dumps(x) + "\n"); print("CAUGHT" if found else "MISSED", json.dumps(x), flush=True)
main()
