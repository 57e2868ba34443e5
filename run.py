#!/usr/bin/env python3
"""Decide one property: regenerate the encoding (LLVM bitcode) from /repo's working tree, execute every harness of the
property symbolically (engine/), replay counterexamples and sample paths against a native build of the same sources,
write evidence/<id>.json.  exit 0: held on everything explored; exit 1: VIOLATION (confirmed natively).

usage: run.py P01 [--tier quick|thorough] [--harness NAME] [--shard N] [--keep] [--time S]
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, hashlib, argparse
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
DIRS = ["compiler", "data-structures", "interpreter", "util", "std"]
JOBS = int(os.environ.get("VP_JOBS", "8"))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def engine():
    out = os.path.join(HERE, "build")
    r = sh(["make", "-s", "-C", os.path.join(HERE, "engine"), "-j8", "OUT=" + out])
    exe = os.path.join(out, "symex")
    if r.returncode or not os.path.exists(exe):
        print(r.stdout[-3000:]); raise SystemExit("engine build failed")
    return exe

def repo_sources():
    # what CMakeLists.txt lists for the library, so that files added there are picked up; fall back to a glob
    srcs = []
    try:
        m = re.search(r"add_library\(yaslapi\s+(.*?)\)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.S)
        srcs = [os.path.join(REPO, s) for s in m.group(1).split() if s.endswith(".c")]
    except Exception:
        pass
    if not srcs or not all(os.path.exists(s) for s in srcs):
        srcs = [os.path.join(REPO, "yasl.c"), os.path.join(REPO, "yasl_aux.c")]
        for d in DIRS: srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return srcs

INC = ["-I" + REPO] + ["-I" + os.path.join(REPO, d) for d in DIRS]
VINC = ["-I" + os.path.join(HERE, "engine", "include"), "-I" + os.path.join(HERE, "harness")]
BCF = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-g", "-emit-llvm", "-c", "-std=gnu99", "-w"]
NATF = ["gcc", "-O0", "-g", "-std=gnu99", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "rand"))]

class Build:
    def __init__(self, work, native=True):
        self.work = work
        jobs = []
        srcs = repo_sources()
        for i, s in enumerate(srcs):
            b = os.path.join(work, "r%d_%s" % (i, os.path.basename(s)[:-2]))
            jobs.append((BCF + VINC + INC + [s, "-o", b + ".bc"], s))
            if native: jobs.append((NATF + INC + [s, "-o", b + ".o"], s))
        e = os.path.join(HERE, "engine")
        jobs.append((BCF + VINC + [os.path.join(e, "minilibc.c"), "-o", os.path.join(work, "libc_model.bc")], "minilibc"))
        if native:
            jobs.append((["gcc", "-O1", "-g", "-w", "-I" + os.path.join(e, "include"), "-c", os.path.join(e, "native.c"), "-o", os.path.join(work, "native_rt.obj")], "native"))
        with ThreadPoolExecutor(JOBS) as ex:
            for (cmd, s), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
                if r.returncode: raise SystemExit("cannot compile %s:\n%s" % (s, r.stdout[-2000:]))
        self.lib = os.path.join(work, "lib.bcl")
        r = sh(["llvm-link-18"] + sorted(glob.glob(work + "/r*.bc")) + [work + "/libc_model.bc", "-o", self.lib])
        if r.returncode: raise SystemExit("llvm-link: " + r.stdout[-2000:])
        os.makedirs(os.path.join(self.work, "ninc"), exist_ok=True)
        shutil.copy(os.path.join(HERE, "engine/include/vp.h"), os.path.join(self.work, "ninc/vp.h"))
        self.natobjs = sorted(glob.glob(work + "/r*.o"))
        self.hashes = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    def harness(self, h, tier):
        n = os.path.basename(h)[:-2]; bc = os.path.join(self.work, n + ".hbc"); linked = os.path.join(self.work, n + ".lbc"); nat = os.path.join(self.work, n + ".exe")
        d = ["-DVP_TIER=%d" % (2 if tier == "thorough" else 1)]
        r = sh(BCF + d + VINC + INC + [h, "-o", bc])
        if r.returncode: raise SystemExit("harness %s: %s" % (n, r.stdout[-3000:]))
        r = sh(["llvm-link-18", self.lib, bc, "-o", linked])
        if r.returncode: raise SystemExit("link %s: %s" % (n, r.stdout[-3000:]))
        ninc = ["-I" + os.path.join(self.work, "ninc")]
        r = sh(NATF + d + ninc + ["-I" + os.path.join(HERE, "harness")] + INC + [h, "-o", nat + ".o"])
        if r.returncode: raise SystemExit("native harness %s: %s" % (n, r.stdout[-3000:]))
        r = sh(["gcc", "-fsanitize=address"] + WRAP + [nat + ".o"] + self.natobjs + [os.path.join(self.work, "native_rt.obj"), "-lm", "-ldl", "-o", nat])
        if r.returncode: raise SystemExit("native link %s: %s" % (n, r.stdout[-3000:]))
        return linked, nat

def meta(path):
    """`// vp: key=value ...` and `// bounds: text` lines at the head of a harness."""
    m = {"shards": "1", "quick": "40", "thorough": "300", "opts": "", "samples": "6", "bounds": "", "outside": ""}
    for line in open(path):
        if line.startswith("// vp:"):
            for k, v in re.findall(r"(\w+)=(\"[^\"]*\"|\S+)", line[6:]): m[k] = v.strip('"')
        for k in ("bounds", "outside"):
            if line.startswith("// %s:" % k): m[k] += (" " if m[k] else "") + line.split(":", 1)[1].strip()
    return m

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=86:handle_sigfpe=1:max_allocation_size_mb=512")
def native_run(exe, data, work, timeout=15):
    fd, p = tempfile.mkstemp(dir=work); os.write(fd, data); os.close(fd)
    sc = tempfile.mkdtemp(dir=work)
    try:
        r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=sc, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %ds" % timeout
    finally:
        os.unlink(p); shutil.rmtree(sc, ignore_errors=True)

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) shard=(\S+) msg=\"(.*?)\" what=(.*)", l)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--harness"); ap.add_argument("--shard", type=int); ap.add_argument("--keep", action="store_true"); ap.add_argument("--time", type=float); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); t0 = time.time(); prop = a.prop; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hs = sorted(glob.glob(os.path.join(HERE, "harness", prop.lower() + "_*.c")))
    if a.harness: hs = [h for h in hs if a.harness in h]
    if not hs: raise SystemExit("no harness for " + prop)
    symex = engine()
    base = os.environ.get("VP_WORK") or tempfile.gettempdir()
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=base)
    rc = 0
    try:
        rc = decide(a, prop, tier, seed, hs, symex, work, t0)
    finally:
        if a.keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(a, prop, tier, seed, hs, symex, work, t0):
    B = Build(work)
    with ThreadPoolExecutor(JOBS) as ex: built = dict(zip(hs, ex.map(lambda h: B.harness(h, tier), hs)))
    jobs = []
    for h in hs:
        m = meta(h); n = int(m["shards2"] if tier == "thorough" and "shards2" in m else m["shards"])
        for s in range(n):
            if a.shard is not None and s != a.shard: continue
            jobs.append((h, s, n, m))
    deadline = t0 + (780 if tier == "quick" else 100000)
    def run(j):
        h, s, n, m = j; name = os.path.basename(h)[:-2]; out = os.path.join(work, "%s.%d.json" % (name, s))
        T = a.time or float(m[tier]); T = max(2, min(T, deadline - time.time() - 30))
        cmd = [symex, built[h][0], "--time", str(T), "--seed", str(seed), "--out", out, "--samples", m["samples"]]
        if n > 1: cmd += ["--fix", str(s)]
        cmd += m["opts"].split() + (["--profile"] if a.v else [])
        try: r = sh(cmd, timeout=T + 60)
        except subprocess.TimeoutExpired: return j, None, "engine timeout"
        if r.returncode or not os.path.exists(out): return j, None, "engine rc=%s %s" % (r.returncode, r.stdout[-500:])
        if a.v: print(r.stdout)
        return j, json.load(open(out)), r.stdout
    jobs.sort(key=lambda j: -float(j[3].get("weight", "1")))
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(run, jobs))
    # ---- counterexample replay
    viol, known, unconf, notes = [], [], [], []
    rdir = os.path.join(HERE, "build", "replay", prop); os.makedirs(rdir, exist_ok=True)
    kf = known_findings(prop)
    seen = {}
    tot = dict(paths=0, instr=0, queries=0, z3=0.0, z3calls=0, asserts=0, assertq=0, forks=0, pruned=0, err=0, sat=0, unsat=0, unknown=0)
    funcs, reach, per, complete = set(), {}, [], True
    ncx = 0
    for (h, s, n, m), d, log in res:
        name = os.path.basename(h)[:-2]
        if d is None:
            complete = False; notes.append("%s[%d]: %s" % (name, s, log)); continue
        tot["paths"] += d["paths"]; tot["instr"] += d["instructions"]; tot["queries"] += d["solver"]["queries"]; tot["z3"] += d["solver"]["z3_time_s"]; tot["z3calls"] += d["solver"]["z3_calls"]; tot["asserts"] += d["asserts"]; tot["assertq"] += d["assert_queries"]; tot["forks"] += d["forks"]; tot["pruned"] += d["assumed_out"] + d["skipped"]; tot["err"] += d["error_paths"]; tot["sat"] += d["solver"]["sat"]; tot["unsat"] += d["solver"]["unsat"]; tot["unknown"] += d["solver"]["unknown"]
        funcs.update(d["functions"])
        for k, v in d["reach"].items(): reach[name + ":" + k] = reach.get(name + ":" + k, 0) + v
        if not d["complete"]:
            complete = False; notes.append("%s[%d]: not exhausted within its budget: pending=%d truncated=%d %s" % (name, s, d["pending"], d["truncated"], d["truncated_why"]))
        per.append({"harness": name, "shard": s, "complete": d["complete"], "paths": d["paths"], "time_s": d["time_s"], "queries": d["solver"]["queries"], "z3_time_s": d["solver"]["z3_time_s"], "max_input_bytes": d["max_vars"], "errors": len(d["errors"])})
        for e in d["errors"]:
            key = (name, s, e["kind"], e["msg"])
            if seen.get(key) == "ok": continue
            ncx += 1
            if ncx > 60 and viol: continue
            data = bytes.fromhex(e["input"]); c, out = native_run(built[h][1], data, work)
            ok = c not in (0, 77)
            if ok:
                seen[key] = "ok"
                p = os.path.join(rdir, "%s-%d-%d.bin" % (name, s, ncx)); open(p, "wb").write(data)
                with open(p + ".txt", "w") as f:
                    f.write("property %s harness %s shard %d\nengine: %s: %s at %s\nnative: exit=%s\n%s\n" % (prop, name, s, e["kind"], e["msg"], e["where"], c, out[-6000:]))
                k = [x for x in kf if x[0] == name and (x[1] == "*" or int(x[1]) == s) and x[2] == (e["msg"] if e["kind"] == "assert" else e["kind"])]
                (known if k else viol).append((name, s, e, p, c, k[0][3] if k else out.strip().split("\n")[-1][:200]))
            else: unconf.append("%s[%d] %s: %s at %s (native exit %s)" % (name, s, e["kind"], e["msg"], e["where"], c)); seen[key] = seen.get(key, 0) + 1
    # ---- conformance: sample paths natively
    val = mism = 0; samples = []
    sj = [(h, s, x) for (h, s, n, m), d, log in res if d for x in d["samples"]]
    lim = 160 if tier == "quick" else 1000
    if len(sj) > lim: sj = sj[::(len(sj) + lim - 1) // lim]
    with ThreadPoolExecutor(JOBS) as ex: outs = list(ex.map(lambda t: native_run(built[t[0]][1], bytes.fromhex(t[2]["input"]), work), sj))
    for (h, s, x), (c, out) in zip(sj, outs):
        name = os.path.basename(h)[:-2]
        if c == 0 and "VP_OK " + x["obs"] in out: val += 1
        else:
            mism += 1; notes.append("sample of %s[%d] input %s: engine obs %s, native exit %s %s" % (name, s, x["input"], x["obs"], c, out.strip()[-200:]))
        if len(samples) < 6: samples.append("%s shard %d input 0x%s -> native exit %s, observation %s" % (name, s, x["input"][:64], c, "equal" if ("VP_OK " + x["obs"]) in out else "different"))
    # a sample path on which the native build itself fails the assertion is a violation as well
    for (h, s, x), (c, out) in zip(sj, outs):
        if c in (66, 86, "hang") or (isinstance(c, int) and c < 0):
            name = os.path.basename(h)[:-2]; key = (name, s, "native", out.strip().split("\n")[-1][:80])
            if key in seen: continue
            seen[key] = "ok"; p = os.path.join(rdir, "%s-%d-n%d.bin" % (name, s, len(seen))); open(p, "wb").write(bytes.fromhex(x["input"])); open(p + ".txt", "w").write(out[-6000:])
            msg = "native: " + key[3]; k = [y for y in kf if y[0] == name and (y[1] == "*" or int(y[1]) == s) and y[2] == msg]
            (known if k else viol).append((name, s, {"kind": "native", "msg": msg, "where": ""}, p, c, k[0][3] if k else msg))
    bounds = " | ".join("%s: %s" % (os.path.basename(h)[:-2], meta(h)["bounds"]) for h in hs)
    outside = " | ".join(sorted(set(meta(h)["outside"] for h in hs if meta(h)["outside"])))
    level = "model_checking"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {"states": tot["paths"] + tot["pruned"] + tot["err"], "transitions": tot["instr"], "traces_validated_against_impl": val, "samples": samples,
                       "explanation": "states = symbolic path ends (each covers every input value satisfying its path condition); transitions = LLVM instructions executed symbolically",
                       "symbolic_paths_completed": tot["paths"], "paths_outside_the_domain": tot["pruned"], "error_paths": tot["err"], "forks": tot["forks"],
                       "assertions_reached": tot["asserts"], "assertions_decided_by_query": tot["assertq"], "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"], "z3_calls": tot["z3calls"], "solver_time_s": round(tot["z3"], 3),
                       "exhaustive_within_bounds": complete, "bounds": bounds, "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
                       "native_mismatches": mism, "reach": reach, "per_shard": per, "unconfirmed_counterexamples": unconf[:20], "notes": notes[:40], "known_findings": [k[5] for k in known], "repo_sources_sha256": B.hashes},
          "assumptions": ["bounds of each harness as listed under coverage.bounds; outside: " + (outside or "inputs beyond those bounds"),
                          "x86-64 clang -O0 semantics of the C sources; C library behaves as engine/minilibc.c; sin/cos/pow/fmod... are uninterpreted for the solver and checked by concrete evaluation",
                          "malloc succeeds for blocks up to 128 MiB and returns NULL above; fresh memory has an arbitrary fixed fill"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.harness and a.shard is None: json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d shard runs, %d paths, %d error paths, %d queries (%.1fs solver), %d samples replayed (%d differ), exhaustive=%s, %.1fs" % (prop, tier, len(res), tot["paths"], tot["err"], tot["queries"], tot["z3"], val + mism, mism, complete, time.time() - t0))
    for x in notes[:12]: print("  note:", x.strip())
    for x in unconf[:8]: print("  unconfirmed:", x)
    for k in {x[5] for x in known}: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        for name, s, e, p, c, o in viol[:12]: print("  violation: %s[%d] %s: %s at %s; native exit %s: %s" % (name, s, e["kind"], e["msg"], e["where"], c, o))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][3]))
        return 1
    broken = [r for r in res if r[1] is None]
    if broken:
        print("no answer: the engine could not run %d of %d shards" % (len(broken), len(res))); return 2
    return 0

main()
