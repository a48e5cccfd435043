#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [--tier quick|thorough] [--unit NAME] [-v]
Compiles /repo's current sources to LLVM bitcode, executes the property's harness units
symbolically (engine/), replays every reported counterexample natively (gcc + ASan build of the
same sources against the same environment model) and writes evidence/<PROPERTY>.json."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AARD_REPO", "/repo")
sys.path.insert(0, V)
import units as U

COMMON = ["-std=gnu99", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-include", V + "/env/freebsd.h",
          "-DLIBBSD_NETBSD_VIS", "-isystem", "/usr/include/x86_64-linux-gnu/bsd", "-DLIBBSD_OVERLAY",
          '-DGITREV="verif"']
BC = ["-O1", "-g", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-w", "-ffp-contract=off",
      "-mllvm", "-simplifycfg-merge-cond-stores=false"]
NAT = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w", "-fno-pie"]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def filehash(*fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build_engine():
    srcs = sorted(glob.glob(V + "/engine/*"))
    hh = filehash(*srcs); bd = V + "/build"; os.makedirs(bd, exist_ok=True)
    exe = "%s/aardsym.%s" % (bd, hh)
    if os.path.exists(exe): return exe
    with open(bd + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        t = tempfile.mkdtemp(prefix="aardeng")
        try:
            cxx = run(["llvm-config-18", "--cxxflags"]).split()
            cxx = [x for x in cxx if x != "-fno-exceptions" and not x.startswith("-std=")]
            jobs = [["g++", "-O2", "-std=c++17", "-c", V + "/engine/%s.cpp" % n, "-o", "%s/%s.o" % (t, n)] for n in ("exec", "expr", "solver")]
            jobs.append(["g++", "-O2"] + cxx + ["-std=c++17", "-c", V + "/engine/load.cpp", "-o", t + "/load.o"])
            with cf.ThreadPoolExecutor(4) as ex: list(ex.map(run, jobs))
            run(["g++", "-o", exe + ".tmp"] + ["%s/%s.o" % (t, n) for n in ("exec", "expr", "solver", "load")] +
                run(["llvm-config-18", "--ldflags"]).split() + ["-lLLVM-18", "-lz3"])
            os.rename(exe + ".tmp", exe)
        finally: shutil.rmtree(t, ignore_errors=True)
    return exe

class Build:
    """bitcode and native objects of the current tree, plus per-harness links"""
    def __init__(self, work):
        self.w = work; os.makedirs(work, exist_ok=True)
        self.srcs = sorted(glob.glob(REPO + "/*.c"))
        self.links = {}
    def main_flags(self, f): return ["-Dmain=aardwarc_main"] if os.path.basename(f) == "main.c" else []
    def compile(self):
        w = self.w
        eng = run([sys.executable, V + "/env/gen_remap.py", V + "/env/env_fs.c", V + "/env/env_zlib.c", "engine"])
        open(w + "/env_remap.h", "w").write(eng)
        nat = run([sys.executable, V + "/env/gen_remap.py", V + "/env/env_fs.c", V + "/env/env_zlib.c", "native"])
        open(w + "/redef.syms", "w").write(nat)
        jobs = []
        for f in self.srcs:
            b = os.path.basename(f)[:-2]
            jobs.append(["clang"] + BC + COMMON + self.main_flags(f) + ["-I", REPO, "-emit-llvm", "-c", f, "-o", "%s/r_%s.bc" % (w, b)])
            jobs.append(["gcc"] + NAT + COMMON + self.main_flags(f) + ["-I", REPO, "-c", f, "-o", "%s/r_%s.o" % (w, b)])
        for f in ("env_libc", "env_fs", "env_zlib", "env_vas"):
            jobs.append(["clang"] + BC + COMMON + ["-DENV_ENGINE", "-I", w, "-I", V + "/env", "-I", REPO, "-emit-llvm", "-c", "%s/env/%s.c" % (V, f), "-o", "%s/e_%s.bc" % (w, f)])
            if f != "env_libc":
                jobs.append(["gcc"] + NAT + COMMON + ["-I", V + "/env", "-I", REPO, "-c", "%s/env/%s.c" % (V, f), "-o", "%s/e_%s.o" % (w, f)])
        jobs.append(["gcc"] + NAT + ["-I", V + "/env", "-c", V + "/env/sym_native.c", "-o", w + "/sym_native.o"])
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        objs = ["%s/r_%s.o" % (w, os.path.basename(f)[:-2]) for f in self.srcs]
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda o: run(["objcopy", "--redefine-syms=" + w + "/redef.syms", "--set-section-flags", ".bss=alloc,load,contents", "--rename-section", ".bss=prog_bss,alloc,load,data,contents", "--rename-section", ".data=prog_data,alloc,load,data,contents", o]), objs))
        run(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link", "-o", w + "/base.bc"] + ["%s/r_%s.bc" % (w, os.path.basename(f)[:-2]) for f in self.srcs] +
            ["%s/e_%s.bc" % (w, f) for f in ("env_libc", "env_fs", "env_zlib", "env_vas")])
    def link(self, h):
        w = self.w; src = "%s/harness/%s.c" % (V, h)
        inc = ["-I", V + "/env", "-I", V + "/harness", "-I", REPO]
        entries = re.findall(r"^void (h_\w+)\(void\)", open(src).read(), re.M)
        glue = "%s/glue_%s.c" % (w, h)
        open(glue, "w").write("#include <string.h>\n#include <stdio.h>\n" + "".join("void %s(void);\n" % e for e in entries) +
            "void sym_dispatch(const char *n) {\n" + "".join('\tif (!strcmp(n, "%s")) { %s(); return; }\n' % (e, e) for e in entries) + "}\n")
        run(["clang"] + BC + COMMON + inc + ["-emit-llvm", "-c", src, "-o", "%s/%s.bc" % (w, h)])
        run(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link", "-o", "%s/L_%s.bc" % (w, h), w + "/base.bc", "%s/%s.bc" % (w, h)])
        run(["gcc"] + NAT + COMMON + inc + ["-c", src, "-o", "%s/%s.o" % (w, h)])
        run(["objcopy", "--redefine-syms=" + w + "/redef.syms", "%s/%s.o" % (w, h)])
        run(["gcc"] + NAT + ["-c", glue, "-o", "%s/glue_%s.o" % (w, h)])
        run(["gcc", "-fsanitize=address", "-no-pie", "-o", "%s/N_%s" % (w, h), "%s/%s.o" % (w, h), "%s/glue_%s.o" % (w, h), w + "/sym_native.o"] +
            ["%s/r_%s.o" % (w, os.path.basename(f)[:-2]) for f in self.srcs] + ["%s/e_%s.o" % (w, f) for f in ("env_fs", "env_zlib", "env_vas")] +
            ["-lbsd", "-lmd", "-lm", "-lz"])
        return entries

def native(w, unit, args, inp, timeout=60, prop=None):
    """run one input on the compiled code: (verdict, detail, notes)"""
    d = tempfile.mkdtemp(prefix="aardnat")
    try:
        open(d + "/in", "w").write(" ".join(map(str, inp)) + "\n")
        env = {"PATH": os.environ.get("PATH", ""), "SYM_IN": d + "/in", "SYM_OUT": d + "/out", "TZ": "UTC",
               "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0"}
        if os.environ.get("SYM_DEBUG"): env["SYM_DEBUG"] = "1"
        if prop and prop != "all": env["SYM_PROP"] = prop
        for k, v in args.items(): env["SYM_ARG_" + k] = str(v)
        try:
            r = subprocess.run(["%s/N_%s" % (w, unit["file"]), unit["entry"]], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return "hang", "no answer in %d s" % timeout, []
        if os.environ.get("SYM_DEBUG"): sys.stderr.write(r.stderr.decode(errors="replace"))
        out = open(d + "/out", errors="replace").read() if os.path.exists(d + "/out") else ""
        notes = [tuple(map(int, l.split()[1:3])) for l in out.splitlines() if l.startswith("NOTE ")]
        if r.returncode == 77:
            m = re.search(r"^ASSERT-FAIL (.*)$", out, re.M); return "assert", m.group(1) if m else "", notes
        if r.returncode == 78: return "diverged", out[-200:], notes
        if r.returncode == 76: return "panic", out[-200:], notes
        if r.returncode == 0 and re.search(r"^END$", out, re.M): return "ok", "", notes
        if r.returncode == 0: return "ok", "ended", notes
        err = r.stderr.decode(errors="replace")
        m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
        return "memory", m.group(1)[:200] if m else "exit %d %s" % (r.returncode, err[-300:]), notes
    finally: shutil.rmtree(d, ignore_errors=True)

def props_of(s): return [x.strip() for x in s.split(",")]

def run_unit(b, exe, unit, prop, tier, jobs, verbose):
    t0 = time.time()
    q = dict(unit["quick"]); 
    if tier == "thorough": q.update(unit.get("thorough") or {})
    args = dict(unit.get("args", {})); args.update(q.get("args", {}))
    out = tempfile.mkdtemp(prefix="aardout")
    try:
        cmd = [exe, "%s/L_%s.bc" % (b.w, unit["file"]), "--entry", unit["entry"], "--out", out, "--prop", prop, "--time", str(q["time"]),
               "--jobs", str(jobs), "--repo", REPO, "--samples", str(q.get("samples", 12)), "--max-inst", str(q.get("max_inst", 40000000)),
               "--grace", "15", "--solver-timeout", str(q.get("solver_ms", 20000))]
        if os.environ.get("SYM_DUMP"): cmd += ["--dump", os.environ["SYM_DUMP"]]
        for k, v in args.items(): cmd += ["--arg", "%s=%d" % (k, v)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=q["time"] * 3 + 120, errors="replace")
        if verbose and r.stdout: sys.stderr.write(r.stdout[-3000:])
        R = {"violations": [], "samples": [], "labels": {}, "asserts": {}, "unsupported": {}, "functions": {}, "coverage_permille": {}, "stats": {}}
        nf = 0
        for f in glob.glob(out + "/r.*.json"):
            nf += 1
            d = json.load(open(f))
            R["violations"] += d["violations"]; R["samples"] += d["samples"]
            for k in ("labels", "asserts", "unsupported", "functions"):
                for a, c in d[k].items(): R[k][a] = R[k].get(a, 0) + c
            for a, c in d["coverage_permille"].items(): R["coverage_permille"][a] = max(R["coverage_permille"].get(a, 0), c)
            for a, c in d["stats"].items(): R["stats"][a] = max(R["stats"].get(a, 0), c) if a in ("solver_max", "max_symbols") else R["stats"].get(a, 0) + c
        if nf == 0 or r.returncode not in (0, 1): R["broken"] = "engine exit %d: %s" % (r.returncode, r.stdout[-500:])
    finally: shutil.rmtree(out, ignore_errors=True)
    # replay
    conf, unconf = [], []
    seen = set()
    for v in R["violations"]:
        ps = props_of(v["prop"]) if v["kind"] == "assert" else ["*"]
        if v["prop"] == "env": R["unsupported"]["model: " + v["msg"]] = R["unsupported"].get("model: " + v["msg"], 0) + 1; continue
        if prop != "all" and prop not in ps and "*" not in ps: continue
        key = (v["kind"], v["msg"], "" if v["kind"] == "hang" else v["where"])
        if key in seen: continue
        verdict, det, notes = native(b.w, unit, args, v["in"], 10 if v["kind"] == "hang" else 60, prop)
        ok = False
        if verdict == "assert": ok = prop == "all" or prop in props_of(det.split("|")[0]) or "*" in props_of(det.split("|")[0])
        elif verdict in ("panic", "memory", "hang"): ok = v["kind"] in ("memory", "panic", "hang") or verdict in ("panic", "memory")
        v["native"] = [verdict, det]
        v["unit"] = unit["name"]; v["args"] = args
        if ok: seen.add(key); conf.append(v)
        else: unconf.append(v)
    val, div = 0, []
    for s in R["samples"]:
        verdict, det, notes = native(b.w, unit, args, s["in"], 60, prop)
        want = [tuple(x) for x in s["notes"]]
        if verdict == "ok" and notes == want: val += 1
        else: div.append({"unit": unit["name"], "in": s["in"][:200], "verdict": verdict, "detail": det, "notes": notes[:20], "expected": want[:20]})
    R.update(confirmed=conf, unconfirmed=unconf, validated=val, diverged=div, wall=time.time() - t0, unit=unit["name"], args=args, bounds=unit.get("bounds", ""))
    return R

def known():
    p = V + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def matches(k, v):
    if k["unit"] != v["unit"] or k["kind"] != v["kind"]: return False
    if "msg" in k and k["msg"] != v["msg"]: return False
    if "where" in k and not re.search(k["where"], v["where"] + " " + v["trace"]): return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit"); ap.add_argument("-v", action="store_true"); ap.add_argument("--keep")
    a = ap.parse_args(); prop = a.prop; t0 = time.time()
    exe = build_engine()
    if prop == "setup": return 0
    us = [u for u in U.UNITS if (prop in u["props"] or prop == "all") and (not a.unit or u["name"] in a.unit.split(","))]
    if a.unit and not us: us = [u for u in U.UNITS if u["name"] in a.unit.split(",")]
    work = a.keep or tempfile.mkdtemp(prefix="aardbuild")
    try:
        b = Build(work)
        try: b.compile()
        except RuntimeError as e:
            print("ERROR: /repo does not compile for checking: %s" % e); return 2
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(b.link, sorted({u["file"] for u in us})))
        tb = time.time() - t0
        ncpu = os.cpu_count() or 8
        conc = min(len(us), ncpu)
        jobs = max(1, (ncpu + conc - 1) // conc) if len(us) <= ncpu else 1
        if len(us) > ncpu: conc = ncpu
        with cf.ThreadPoolExecutor(conc) as ex:
            Rs = list(ex.map(lambda u: run_unit(b, exe, u, prop, a.tier, u.get("jobs", jobs), a.v), us))
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    kf = [k for k in known() if k["property"] == prop]
    nviol = 0; outl = []; kseen = set()
    rdir = V + "/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob("%s/%s.*.json" % (rdir, prop)): os.unlink(f)
    for R in Rs:
        for v in R["confirmed"]:
            hit = [k for k in kf if matches(k, v)]
            if hit:
                if hit[0]["id"] not in kseen: kseen.add(hit[0]["id"]); outl.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
                continue
            fn = "%s/%s.%d.json" % (rdir, prop, nviol); nviol += 1
            json.dump({"property": prop, "unit": v["unit"], "args": v["args"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "trace": v["trace"],
                       "in": v["in"], "native": v["native"], "how": "python3 /verif/replay.py " + fn}, open(fn, "w"), indent=1)
            outl.append("VIOLATION property=%s replay=%s" % (prop, fn))
            outl.append("  unit %s: %s: %s at %s [native: %s %s]" % (v["unit"], v["kind"], v["msg"], v["where"], v["native"][0], v["native"][1][:120]))
    # evidence
    S = {}
    for R in Rs:
        for k, x in R["stats"].items(): S[k] = max(S.get(k, 0), x) if k in ("solver_max", "max_symbols") else S.get(k, 0) + x
    incomplete = []
    for R in Rs:
        why = []
        if R.get("broken"): why.append(R["broken"])
        if R["stats"].get("pending"): why.append("%d states not finished in the time given" % R["stats"]["pending"])
        if R["stats"].get("dropped"): why.append("%d states dropped" % R["stats"]["dropped"])
        if R["stats"].get("unknown"): why.append("%d solver timeouts" % R["stats"]["unknown"])
        if R["unsupported"]: why.append("unsupported: " + "; ".join(list(R["unsupported"])[:5]))
        if R["unconfirmed"]: why.append("%d counterexamples did not reproduce natively: %s" % (len(R["unconfirmed"]), "; ".join("%s %s@%s [%s] native=%s" % (v["kind"], v["msg"], v["where"], v["trace"][:300], v["native"]) for v in R["unconfirmed"][:4])))
        if R["diverged"]: why.append("%d sampled paths behave differently natively: %s" % (len(R["diverged"]), json.dumps(R["diverged"][:2])[:1500]))
        if why: incomplete.append({"unit": R["unit"], "why": why})
    fns = {}; cov = {}
    for R in Rs:
        for f, c in R["functions"].items(): fns[f] = fns.get(f, 0) + c
        for f, c in R["coverage_permille"].items(): cov[f] = max(cov.get(f, 0), c)
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
            "states": int(S.get("paths", 0)), "transitions": int(S.get("instructions", 0)),
            "traces_validated_against_impl": sum(R["validated"] for R in Rs) + sum(len(R["confirmed"]) for R in Rs),
            "samples": [{"unit": R["unit"], "input": s["in"][:64], "notes": s["notes"][:8]} for R in Rs for s in R["samples"][:2]][:12],
            "exhaustive": not incomplete,
            "meaning": "states = symbolic paths completed; transitions = IR instructions executed symbolically",
            "forks": int(S.get("forks", 0)), "queries": int(S.get("queries", 0)), "queries_sat": int(S.get("sat", 0)), "queries_unsat": int(S.get("unsat", 0)),
            "query_cache_hits": int(S.get("cache_hits", 0)), "model_hits": int(S.get("model_hits", 0)),
            "solver_time_s": round(S.get("solver_time", 0), 3), "solver_max_s": round(S.get("solver_max", 0), 3), "max_symbols": int(S.get("max_symbols", 0)),
            "functions_encoded": {f: {"instructions_executed": c, "coverage_permille": cov.get(f, 0)} for f, c in sorted(fns.items())},
            "units": [{"unit": R["unit"], "bounds": R["bounds"], "args": R["args"], "paths": R["stats"].get("paths", 0), "queries": R["stats"].get("queries", 0),
                       "asserts": R["asserts"], "labels": R["labels"], "validated": R["validated"], "wall_s": round(R["wall"], 1)} for R in Rs],
            "incomplete": incomplete,
            "known_findings": sorted(kseen)},
          "assumptions": U.ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for l in outl: print(l)
    for i in incomplete: print("INCOMPLETE unit=%s: %s" % (i["unit"], " | ".join(i["why"])))
    for R in Rs:
        print("unit %-22s paths %-7d inst %-9d queries %-6d solver %.1fs validated %d/%d wall %.1fs" % (R["unit"], R["stats"].get("paths", 0), R["stats"].get("instructions", 0),
              R["stats"].get("queries", 0), R["stats"].get("solver_time", 0), R["validated"], len(R["samples"]), R["wall"]))
    print("property %s: %d violations, %d units, build %.1fs, total %.1fs" % (prop, nviol, len(Rs), tb, time.time() - t0))
    if nviol: return 1
    if any(R.get("broken") for R in Rs): return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
