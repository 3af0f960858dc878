#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current sources.

  check.py C01                     run the property's check (VERIF_TIER=quick|thorough)
  check.py --replay FILE           replay a recorded counterexample natively

Every run recompiles the sources under /repo/src to LLVM bitcode, links them
with the property's harnesses and the runtime (rt/), lets the symbolic executor
(build/symx) explore every path and decide every obligation with Z3, and replays
each counterexample against the same sources compiled by g++ with ASan/UBSan (or
under valgrind) before reporting it.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLANG, GXX, LINK = "/usr/bin/clang++", "/usr/bin/g++", "/usr/bin/llvm-link"
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "symx")
sys.path.insert(0, VERIF)
import specs  # noqa: E402

UB = "bool,enum,shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return"
STD = ["-std=c++17", "-fno-rtti", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"]
INC = ["-I" + SRC, "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "stubs")]
BC = [CLANG] + STD + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w",
      "-fsanitize=" + UB, "-fsanitize-trap=all", "-emit-llvm", "-c"]
RTBC = [CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-w", "-DSYMX_ENGINE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c"]
NAT = [GXX] + STD + ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-c"]
VAL = [GXX] + STD + ["-g", "-O0", "-w", "-DSYMX_NO_NEW", "-c"]
# Schedule replay: instrumented for rt/native_threads.cpp, which stands in for the TSan runtime.
THR = [CLANG] + STD + ["-g", "-O0", "-w", "-fsanitize=thread", "-c"]
THRRT = [GXX] + STD[:1] + STD[2:] + ["-g", "-O0", "-w", "-fPIC", "-fvisibility-inlines-hidden", "-fno-gnu-unique", "-c"]
ENV_ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=79:allocator_may_return_null=1:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "exitcode=79:halt_on_error=1:print_stacktrace=1"}


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode("utf8", "replace")


def ensure_engine():
    rc, out = sh(["make", "-s", "-C", os.path.join(VERIF, "engine")])
    if rc:
        print(out)
        raise SystemExit("cannot build the symbolic executor")


class Builder:
    """Compiles /repo's sources and harnesses into a scratch directory."""

    def __init__(self, work):
        self.work = work
        self.memo = {}

    def obj(self, kind, src, extra=()):
        name = hashlib.sha1((kind + src + " ".join(extra)).encode()).hexdigest()[:12] + "_" + os.path.basename(src)
        out = os.path.join(self.work, name + (".bc" if kind in ("bc", "rt") else ".o"))
        cmd = {"bc": BC, "rt": RTBC, "nat": NAT, "val": VAL, "thr": THRRT if src.startswith(os.path.join(VERIF, "rt")) else THR}[kind] + list(extra) + INC + [src, "-o", out]
        if kind in ("nat", "val") and os.path.basename(src).startswith("native"):
            cmd = [c for c in cmd if c != "-fno-rtti"]
        rc, o = sh(cmd, timeout=600)
        if rc:
            raise RuntimeError("compilation of %s failed:\n%s" % (src, "\n".join([l for l in o.splitlines() if "error" in l][:6])[:2500]))
        return out

    def objs(self, pool, kind, srcs, extra=()):
        futs = []
        for s in srcs:
            k = (kind, s, tuple(extra))
            if k not in self.memo:
                self.memo[k] = pool.submit(self.obj, kind, s, extra)
            futs.append(self.memo[k])
        return futs


def repo_src(names):
    return [os.path.join(SRC, "arpc", n) for n in names]


def harness_parts(h):
    d = specs.HARNESS[h]
    thr = d.get("threads")
    thrsrc = ["threads.cpp"] + (["posix.cpp"] if d.get("kernel") else []) if thr else []
    return os.path.join(VERIF, "harness", h), repo_src(d.get("repo", [])), [os.path.join(VERIF, "rt", r) for r in ["rt.cpp"] + thrsrc], \
        [os.path.join(VERIF, "rt", r) for r in ["native.cpp"] + (thrsrc + ["native_threads.cpp"] if thr else [])], d.get("flags", []) + (["-DSYMX_THREADS", "-D_GLIBCXX_TSAN=1"] if thr else [])


def native_kind(h):
    return "thr" if specs.HARNESS[h].get("threads") else "nat"


def link_bc(b, pool, h):
    hs, rs, rts, _, fl = harness_parts(h)
    fs = b.objs(pool, "bc", [hs] + rs, fl) + b.objs(pool, "rt", rts, fl)

    def run():
        out = os.path.join(b.work, h.replace("/", "_") + ".linked.bc")
        rc, o = sh([LINK] + [f.result() for f in fs] + ["-o", out])
        if rc:
            raise RuntimeError("llvm-link: " + o[-2000:])
        return out
    return run


def link_native(b, pool, h, kind):
    hs, rs, _, nat, fl = harness_parts(h)
    fs = b.objs(pool, kind, [hs] + rs, fl)
    ns = b.objs(pool, kind, nat, fl)

    def run():
        out = os.path.join(b.work, h.replace("/", "_") + "." + kind)
        extra = ["-fsanitize=address,undefined"] if kind == "nat" else []
        objs = [f.result() for f in fs]
        nobjs = [f.result() for f in ns]
        if kind == "thr":  # the runtime keeps its own, uninstrumented template instances
            so = out + ".rt.so"
            rc, o = sh([GXX, "-shared", "-Wl,-Bsymbolic"] + nobjs + ["-o", so, "-lpthread", "-ldl"])
            if rc:
                raise RuntimeError("native link: " + o[-2000:])
            nobjs = [so]
        rc, o = sh([GXX] + extra + ["-rdynamic"] + objs + nobjs + ["-o", out, "-lpthread", "-ldl"])
        if rc:
            raise RuntimeError("native link: " + o[-2000:])
        return out
    return run


def replay_native(exe, cex, kind, timeout=60):
    """Returns (confirmed, description)."""
    rc, out = sh([exe, cex], timeout=timeout, env=ENV_ASAN)
    first = next((l for l in out.splitlines() if re.search(r"SYMX-CHECK-FAILED|SYMX-MEMORY|SYMX-RACE|ERROR: AddressSanitizer|runtime error|terminate called|Assertion", l)), out.strip().splitlines()[-1] if out.strip() else "")
    if rc == 0:
        return False, "native run passed (%s)" % first
    if rc == 72:
        return False, "native run diverged: " + first
    if rc == 124:
        return True, "native run does not terminate within %d s" % timeout
    if rc in (77, 78, 79, 80, 81) or rc < 0 or rc >= 128:
        return True, first or "signal %d" % rc
    if rc == 71:
        return False, first
    return False, "native run: exit %d %s" % (rc, first)


def replay_valgrind(exe, cex, timeout=300):
    rc, out = sh(["valgrind", "-q", "--error-exitcode=79", "--track-origins=no", exe, cex], timeout=timeout)
    if rc == 79:
        return True, next((l for l in out.splitlines() if "uninit" in l.lower()), "valgrind error")
    return False, "valgrind: exit %d" % rc


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                r.append(json.loads(l))
    return r


def run_symx(bc, job, params, out, cexdir, witdir, timeout, dump=None):
    cmd = [SYMX, bc, "--entry", job["entry"], "--out", out, "--cex", cexdir, "--wit", witdir, "--wit-max", str(job.get("wit", 6)),
           "--timeout", str(timeout), "--src", SRC + "/", "--solver-ms", str(job.get("solver_ms", 60000))]
    for p in params:
        cmd += ["--param", str(p)]
    if dump:
        cmd += ["--dump", dump[0], "--dump-every", str(dump[1])]
    cmd += [str(x) for x in job.get("opts", [])]
    rc, o = sh(cmd, timeout=timeout + 120)
    if rc or not os.path.exists(out):
        return None, "symx exit %d: %s" % (rc, o[-1500:])
    return json.load(open(out)), o


def main():
    if sys.argv[1] == "--replay":
        return replay_cmd(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ensure_engine()
    work = tempfile.mkdtemp(prefix="symx_%s_" % prop)
    try:
        return decide(prop, tier, seed, t0, work, only)
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)


def decide(prop, tier, seed, t0, work, only):
    jobs = []
    for j in specs.JOBS:
        if j["prop"] != prop or (only and only not in j["entry"]):
            continue
        plist = j.get(tier, j.get("quick", [[]]))
        if plist is None:
            continue
        for i, p in enumerate(plist):
            jobs.append((j, p, "%s%s.%d" % (j["entry"], j.get("tag", ""), i)))
    if not jobs:
        raise SystemExit("no jobs for " + prop)
    budget = 600 if tier == "quick" else 3000
    njobs = os.cpu_count() or 4
    b = Builder(work)
    pool = cf.ThreadPoolExecutor(njobs)      # compilations
    rpool = cf.ThreadPoolExecutor(njobs)     # symbolic executions
    lpool = cf.ThreadPoolExecutor(16)        # waits only
    hs = sorted({j["h"] for j, _, _ in jobs})
    bcs = {h: lpool.submit(link_bc(b, pool, h)) for h in hs}
    nats = {h: lpool.submit(link_native(b, pool, h, native_kind(h))) for h in hs}
    vals = {h: lpool.submit(link_native(b, pool, h, "val")) for h in hs if any(j["h"] == h and j.get("replay") == "val" for j, _, _ in jobs)}
    results, errors = [], []

    def one(j, p, name):
        bc = bcs[j["h"]].result()
        d = os.path.join(work, "out", name)
        os.makedirs(d + "/wit", exist_ok=True)
        tmo = j.get("timeout", 240 if tier == "quick" else 1500)
        dump = (d, 50) if tier == "thorough" else None
        rep, log = run_symx(bc, j, p, d + "/r.json", d, d + "/wit", tmo, dump)
        return j, p, name, d, rep, log

    futs = [lpool.submit(lambda a=a: rpool.submit(one, *a).result()) for a in jobs if bcs[a[0]["h"]] is not None]
    for f in futs:
        try:
            results.append(f.result())
        except RuntimeError as e:
            errors.append(str(e)) if str(e) not in errors else None
    # native validation: witnesses, then counterexamples
    wit_ok = wit_bad = 0
    witness_notes, samples = [], []
    violations, unconfirmed = [], []
    notes = []
    for j, p, name, d, rep, log in results:
        if rep is None:
            errors.append("%s: %s" % (name, log))
            continue
        miss = [r for r in j.get("reach", []) if r not in rep["reached"]]
        if miss and not rep["violations"]:
            notes.append("%s: labels never reached: %s" % (name, ", ".join(miss)))
        for k in ("incomplete", "unsupported", "undefined_functions"):
            for x in rep[k]:
                notes.append("%s: %s: %s" % (name, k, x))
    wjobs = []
    for j, p, name, d, rep, log in results:
        if rep is None:
            continue
        if j.get("native", True):
            for w in sorted(os.listdir(d + "/wit")):
                wjobs.append((j, name, os.path.join(d, "wit", w)))
    try:
        natx = {h: f.result() for h, f in nats.items()}
        valx = {h: f.result() for h, f in vals.items()}
    except RuntimeError as e:
        natx = {}
        valx = {}
        errors.append(str(e)) if str(e) not in errors else None

    def wit(a):
        j, name, w = a
        rc, out = sh([(valx if j.get("replay") == "val" else natx)[j["h"]], w], timeout=120, env=ENV_ASAN)
        return a, rc, out
    if natx:
        for a, rc, out in rpool.map(wit, wjobs):
            j, name, w = a
            if rc == 0:
                wit_ok += 1
                if len(samples) < 3:
                    samples.append({"entry": name, "path_witness": [l for l in open(w).read().splitlines() if l.startswith(("input", "reach", "obs", "sched"))][:40]})
            else:
                wit_bad += 1
                line = next((l for l in out.splitlines() if "SYMX-" in l or "ERROR" in l or "runtime error" in l), out[-200:])
                witness_notes.append("%s %s: exit %d: %s" % (name, os.path.basename(w), rc, line))
                # The real build fails where the symbolic execution passed: a
                # check that fails natively is a concrete violation in itself.
                if rc in (77, 78, 79, 80, 81):
                    violations.append(dict(entry=name, job=j, kind="native", label=line, loc="", cex=w, desc=line))
    known = load_known()

    def is_known(entry, v):
        return next((k for k in known if k["property"] == prop and re.fullmatch(k["entry"], entry) and k["kind"] == v["kind"] and re.fullmatch(k["label"], v["label"]) and (not k.get("loc") or k["loc"] in v["loc"])), None)
    confirmed = set()       # (entry, kind) of confirmed violations that are no known findings
    for j, p, name, d, rep, log in results:
        if rep is None:
            continue
        for v in rep["violations"]:
            ok, desc = False, "not replayed"
            # One confirmed endless loop of an entry stands for all the places where
            # its execution was cut; and what was confirmed need not wait for the rest.
            if not is_known(name, v) and ((v["kind"] == "limit" and (name, "limit") in confirmed) or (confirmed and time.time() - t0 > 480)):
                continue
            files = [f for f in v["file"].split("|") if f]
            for f in files:
                if not natx:
                    break
                if v["kind"] == "uninit" and native_kind(j["h"]) == "nat":
                    if j["h"] not in valx:
                        try:
                            valx[j["h"]] = link_native(b, pool, j["h"], "val")()
                        except RuntimeError as e:
                            valx[j["h"]] = None
                            errors.append(str(e)) if str(e) not in errors else None
                    if valx[j["h"]]:
                        ok, desc = replay_valgrind(valx[j["h"]], f)
                else:
                    ok, desc = replay_native((valx if j.get("replay") == "val" else natx)[j["h"]], f, v["kind"], 20 if v["kind"] == "limit" else 60)
                    if not ok and v["kind"] == "memory" and native_kind(j["h"]) == "nat":
                        if j["h"] not in valx:
                            try:
                                valx[j["h"]] = link_native(b, pool, j["h"], "val")()
                            except RuntimeError as e:
                                valx[j["h"]] = None
                        if valx[j["h"]]:
                            ok, desc = replay_valgrind(valx[j["h"]], f)
                if ok:
                    v["file"] = f
                    break
            if ok and not is_known(name, v):
                confirmed.add((name, v["kind"]))
            rec = dict(entry=name, job=j, kind=v["kind"], label=v["label"], loc=v["loc"], cex=v["file"].split("|")[0], desc=desc, count=v["count"], trace=v["trace"])
            (violations if ok else unconfirmed).append(rec)
    rdir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    bad = 0
    for i, v in enumerate(violations):
        kn = is_known(v["entry"], v)
        if kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn["what"]))
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%d.cex" % (v["entry"], i))
        txt = open(v["cex"]).read()
        open(path, "w").write("# harness %s\n# replay %s\n" % (v["job"]["h"], v["job"].get("replay", "nat")) + txt)
        open(path + ".log", "w").write("%s: %s at %s\nreplay: %s\n%s\n" % (v["kind"], v["label"], v["loc"], v["desc"], v.get("trace", "")))
        print("%s: %s: %s at %s [%s]" % (v["entry"], v["kind"], v["label"], v["loc"], v["desc"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        bad += 1
    for v in unconfirmed:
        print("unconfirmed (not reported): %s: %s: %s at %s: %s" % (v["entry"], v["kind"], v["label"], v["loc"], v["desc"]))
    for n in notes + witness_notes:
        print("note: " + n)
    write_evidence(prop, tier, seed, t0, results, wit_ok, wit_bad, samples, bad, notes + witness_notes, unconfirmed, violations, work)
    for e in errors:
        print("error: " + e)
    tot = sum(r[4]["paths"] for r in results if r[4])
    print("%s %s: %d executions of the engine, %d paths, %d violations, %.1f s" % (prop, tier, len(results), tot, bad, time.time() - t0))
    if os.environ.get("VERBOSE"):
        for j, p, name, d, rep, log in results:
            if rep:
                print("  %-40s paths %-6d forks %-6d queries %-6d solver %.1fs wall %.1fs steps %d" % (name + str(p), rep["paths"], rep["forks"], rep["solver"]["queries"], rep["solver"]["seconds"], rep["wall"], rep["instructions"]))
    if bad:
        return 1
    if errors:
        return 3
    return 0


def write_evidence(prop, tier, seed, t0, results, wit_ok, wit_bad, samples, bad, notes, unconfirmed, violations, work):
    reps = [(j, p, n, d, r) for j, p, n, d, r, _ in results if r]
    fns = sorted({f for *_, r in reps for f in r["functions"]})
    s = lambda k: sum(r[k] for *_, r in reps)
    q = lambda k: sum(r["solver"][k] for *_, r in reps)
    cov = {
        "states": s("paths") + s("forks"),
        "transitions": s("forks"),
        "traces_validated_against_impl": wit_ok,
        "samples": samples or [{"entry": n, "paths": r["paths"]} for *_, n, d, r in [(j, p, n, d, r) for j, p, n, d, r in reps][:3]],
        "explanation": "Symbolic execution of the LLVM bitcode clang produces from the current /repo/src. states = symbolic path states created (completed paths plus branch points), transitions = two-way branch decisions the solver found feasible on both sides, traces_validated_against_impl = solver-chosen path witnesses whose native g++/ASan/UBSan run observed the same values.",
        "exhaustive": not any(": incomplete" in n or ": unsupported" in n for n in notes),
        "paths": s("paths"), "paths_assumed_away": s("paths_assumed_away"),
        "instructions": s("instructions"),
        "obligations_evaluated": s("checks"), "obligations_symbolic": s("checks_symbolic"),
        "solver": {"backend": "Z3 4.8.12 (C API), bit-vectors", "queries": q("queries"), "sat": q("sat"), "unsat": q("unsat"), "unknown": q("unknown"), "answered_from_cache": q("cache_hits"), "answered_from_models": q("model_hits"), "seconds": round(q("seconds"), 3), "slowest_query_s": max([r["solver"]["max_seconds"] for *_, r in reps] or [0])},
        "functions_encoded": fns, "functions_encoded_count": len(fns),
        "witness_mismatches": wit_bad,
        "entries": [{"entry": n, "params": p, "bounds": j.get("bounds", ""), "paths": r["paths"], "symbolic_input_bytes": r["max_input_bytes"], "queries": r["solver"]["queries"], "solver_s": r["solver"]["seconds"], "wall_s": r["wall"], "reached": r["reached"], "checks": r["check_counts"]} for j, p, n, d, r in reps],
        "notes": notes,
        "unconfirmed_engine_reports": ["%s %s %s %s" % (v["entry"], v["kind"], v["label"], v["desc"]) for v in unconfirmed],
    }
    if tier == "thorough":
        cov["solver_cross_check"] = cross_check(reps)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": specs.ASSUMPTIONS + specs.EXTRA_ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


def cross_check(reps):
    """Re-decides dumped queries with cvc5 and a newer Z3 and compares verdicts."""
    agree = disagree = unk = 0
    bad = []
    files = [os.path.join(d, f) for *_, d, r in [(j, p, n, d, r) for j, p, n, d, r in reps] for f in os.listdir(d) if f.endswith(".smt2")][:400]

    def one(f):
        m = re.search(r"\.(sat|unsat)\.smt2$", f)
        want = m.group(1) if m else None
        res = []
        for cmd in (["cvc5", "--tlimit=20000", f], ["z3-new", "-T:20", f]):
            rc, o = sh(cmd, timeout=40)
            w = o.strip().splitlines()[0] if o.strip() else "none"
            res.append(w if w in ("sat", "unsat") and "(error" not in o else "unknown")
        return f, want, res
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, want, res in ex.map(one, files):
            for w in res:
                if w == "unknown" or want is None:
                    unk += 1
                elif w == want:
                    agree += 1
                else:
                    disagree += 1
                    bad.append(os.path.basename(f))
    return {"queries": len(files), "agree": agree, "disagree": disagree, "undecided": unk, "disagreeing": bad[:5]}


def replay_cmd(path):
    txt = open(path).read()
    h = re.search(r"^# harness (\S+)", txt, re.M).group(1)
    kind = re.search(r"^# kind (\S+)", txt, re.M).group(1)
    work = tempfile.mkdtemp(prefix="symx_replay_")
    try:
        b = Builder(work)
        pool = cf.ThreadPoolExecutor(os.cpu_count() or 4)
        if kind == "uninit":
            ok, desc = replay_valgrind(link_native(b, pool, h, "val")(), path)
        else:
            m = re.search(r"^# replay (\S+)", txt, re.M)
            ok, desc = replay_native(link_native(b, pool, h, native_kind(h) if native_kind(h) == "thr" else m.group(1) if m else "nat")(), path, kind)
        print(("CONFIRMED " if ok else "not confirmed ") + desc)
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
