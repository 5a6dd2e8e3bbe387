#!/usr/bin/env python3
"""Decide one property: check.py C01 [--tier quick|thorough] [--only ENTRY] [--keep]

Regenerates the encoding from /repo's current source, runs every harness entry of the property through
the symbolic executor, replays counterexamples natively, writes evidence/<id>.json."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
ENGINE = os.path.join(VERIF, "engine")
SYMEX = os.path.join(ENGINE, "build", "symex")
CXX = "clang++-18"
COMMON = ["-std=c++20", "-DSPARROW_USE_DATE_POLYFILL", "-DSPARROW_STATIC_LIB", "-I" + REPO + "/include",
          "-I" + ENGINE + "/runtime", "-include", ENGINE + "/runtime/prelude.hpp", "-Wno-everything",
          "-gline-tables-only", "-O1"]
BCFLAGS = COMMON + ["-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize",
                    "-fno-unroll-loops", "-fno-pic"]
NATFLAGS = COMMON + ["-c", "-DSX_NATIVE", "-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN = ("detect_leaks=0:exitcode=86:redzone=1024:max_redzone=2048:detect_stack_use_after_return=1:"
        "allocator_may_return_null=1:new_delete_type_mismatch=1:alloc_dealloc_mismatch=1:abort_on_error=0:"
        "handle_abort=1:detect_container_overflow=0:quarantine_size_mb=64:max_malloc_fill_size=1000000000")
JOBS = int(os.environ.get("SX_JOBS", os.cpu_count() or 4))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def tree_files(*dirs):
    r = []
    for d in dirs:
        for base, dn, fn in os.walk(d):
            dn[:] = [x for x in dn if x not in ("build", "_build", ".git")]
            r += [os.path.join(base, f) for f in fn]
    return r


def build_engine():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j", str(JOBS), "-C", ENGINE])
        if r.returncode:
            raise CheckError("engine does not build:\n" + r.stdout[-3000:])


def compile_all(jobs):
    """jobs: list of (command, description). Runs them in parallel, raises on the first failure."""
    def one(j):
        r = sh(j[0])
        return (r.returncode, j[1], r.stdout)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, d, out in ex.map(one, jobs):
            if rc:
                errs = [l for l in out.splitlines() if "error" in l][:10]
                raise CheckError("does not compile: %s\n%s" % (d, "\n".join(errs) or out[-3000:]))


class Build:
    """All artefacts for one state of /repo (content-addressed, so that unchanged sources are not recompiled)."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.harness = glob.glob(os.path.join(VERIF, "harness", prop + "_*.cpp"))
        if len(self.harness) != 1:
            raise CheckError("no harness for " + prop)
        self.harness = self.harness[0]
        self.srcs = sorted(f for f in tree_files(REPO + "/src") if f.endswith(".cpp"))
        rt = glob.glob(ENGINE + "/runtime/*")
        self.key = file_hash([f for f in tree_files(REPO + "/include", REPO + "/src")] + rt, " ".join(BCFLAGS + NATFLAGS))
        hs = glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + [self.harness]
        self.hkey = file_hash(hs, self.key + tier)
        self.dir = os.path.join(CACHE, "repo-" + self.key)
        self.hdir = os.path.join(self.dir, prop + "-" + self.hkey)

    def run(self):
        t0 = time.time()
        os.makedirs(CACHE, exist_ok=True)
        # keep the cache small: only the most recent trees
        old = sorted(glob.glob(CACHE + "/repo-*"), key=os.path.getmtime)
        for d in old[:-4]:
            if d != self.dir:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        with open(self.dir + "/lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._build()
        return time.time() - t0

    def _build(self):
        os.makedirs(self.hdir, exist_ok=True)
        tdef = ["-DSX_THOROUGH"] if self.tier == "thorough" else []
        jobs = []
        hb, hn = self.hdir + "/h.bc", self.hdir + "/h.o"
        if not os.path.exists(hb):
            jobs.append(([CXX] + BCFLAGS + tdef + ["-I" + VERIF + "/harness", self.harness, "-o", hb], self.harness + " (bitcode)"))
        if not os.path.exists(hn):
            jobs.append(([CXX] + NATFLAGS + tdef + ["-I" + VERIF + "/harness", self.harness, "-o", hn], self.harness + " (native)"))
        bcs, objs = [], []
        for s in self.srcs:
            b = os.path.join(self.dir, os.path.relpath(s, REPO).replace("/", "_"))
            bcs.append(b + ".bc")
            objs.append(b + ".o")
            if not os.path.exists(b + ".bc"):
                jobs.append(([CXX] + BCFLAGS + [s, "-o", b + ".bc"], s))
            if not os.path.exists(b + ".o"):
                jobs.append(([CXX] + NATFLAGS + [s, "-o", b + ".o"], s))
        rb, rn = self.dir + "/runtime.bc", self.dir + "/native.o"
        if not os.path.exists(rb):
            jobs.append(([CXX, "-std=c++20", "-O1", "-emit-llvm", "-c", "-fno-builtin", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                          "-gline-tables-only", "-Wno-everything", ENGINE + "/runtime/runtime.cpp", "-o", rb], "runtime"))
        if not os.path.exists(rn):
            jobs.append(([CXX] + NATFLAGS + [ENGINE + "/runtime/native.cpp", "-o", rn], "native driver"))
        compile_all(jobs)
        self.module, self.native = self.hdir + "/all.bc", self.hdir + "/replay"
        jobs = []
        if not os.path.exists(self.module):
            jobs.append((["llvm-link-18", hb] + bcs + [rb, "-o", self.module], "link (bitcode)"))
        if not os.path.exists(self.native):
            jobs.append(([CXX, "-fsanitize=address", hn] + objs + [rn, "-o", self.native], "link (native)"))
        compile_all(jobs)


def entries(path, tier):
    src = open(path).read()
    out = []
    for m in re.finditer(r'^SX_ENTRY\(\s*(\w+)\s*,\s*(\w+)\s*,\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', src, re.M):
        b = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)))
        out.append({"name": m.group(1), "tier": m.group(2), "bounds": b})
    # entries produced by macros of the harness: declared in comments  //@entry name tier "bounds"
    for m in re.finditer(r'^//@entry\s+(\w+)\s+(\w+)\s+"([^"]*)"', src, re.M):
        out.append({"name": m.group(1), "tier": m.group(2), "bounds": m.group(3)})
    want = {"quick", "finding"} | ({"thorough"} if tier == "thorough" else set())
    return [e for e in out if e["tier"] in want]


def limit():
    g = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (12 * g, 12 * g))


def run_symex(build, e, args):
    out = os.path.join(build.hdir, e["name"] + ".json")
    if os.path.exists(out):
        os.unlink(out)
    budget = min(args.budget, max(20, args.deadline - time.time())) if args.deadline else args.budget
    cmd = [SYMEX, build.module, "--entry", e["name"], "--out", out, "--budget", str(budget),
           "--max-violations", "8", "--solver-timeout", str(args.solver_timeout), "--samples", str(args.samples)]
    try:
        r = sh(cmd, timeout=budget + 60, preexec_fn=limit)
        so = r.stdout
    except subprocess.TimeoutExpired:
        so = "time-out"
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return {"entry": e["name"], "complete": False, "errors": ["engine ended without a result: " + so[-500:]],
                "violations": [], "samples": [], "paths": 0, "reach": {}, "asserts": {}, "functions": [], "stubs": []}


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs:
            f.write("%s %d %s\n" % (n, w, v))


def native(build, entry, path, extra="", timeout=20):
    env = dict(os.environ, ASAN_OPTIONS=ASAN + extra, ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer-18") or "")
    try:
        r = sh([build.native, entry, path], env=env, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "time-out (does not terminate)"


def replay(build, entry, inputs, path):
    write_inputs(path, inputs)
    last = ""
    for fill in ("", ":malloc_fill_byte=0", ":malloc_fill_byte=255"):
        rc, out = native(build, entry, path, fill)
        last = out
        if rc in (71, 72):
            continue
        if rc != 0:
            return True, rc, out
    return False, 0, last


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--solver-timeout", type=int, default=120000)
    ap.add_argument("--samples", type=int, default=12)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop, t0 = args.property, time.time()
    # a quick run answers within 900 s whatever the tree does
    args.deadline = t0 + 660 if args.tier == "quick" else 0
    if not args.budget:
        args.budget = 500 if args.tier == "quick" else 3000
    try:
        rc = check(prop, args, t0)
    except CheckError as ex:
        print("ERROR %s: %s" % (prop, ex))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


def check(prop, args, t0):
    build_engine()
    b = Build(prop, args.tier)
    b.run()
    t_build = time.time() - t0
    es = entries(b.harness, args.tier)
    if args.only:
        es = [e for e in es if re.fullmatch(args.only, e["name"])]
    if not es:
        raise CheckError("no entries")
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(lambda e: run_symex(b, e, args), es))
    t_sym = time.time() - t0 - t_build
    known = known_findings(prop)
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    problems, viol, notes, known_hit = [], [], [], []
    traces = 0
    src = open(b.harness).read()

    # counterexamples
    def conf(item):
        e, r, i, v = item
        path = os.path.join(outdir, "%s-%s-%d.inputs" % (prop, e["name"], i))
        ok, rc, out = replay(b, e["name"], v["inputs"], path)
        return e, v, path, ok, rc, out
    items = [(e, r, i, v) for e, r in zip(es, results) for i, v in enumerate(r["violations"])]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e, v, path, ok, rc, out in ex.map(conf, items):
            desc = "%s: %s: %s at %s" % (e["name"], v["kind"], v["label"], v["where"])
            first = next((l for l in out.splitlines() if l.startswith("SX ") and "observed" not in l or "ERROR: AddressSanitizer" in l), "")
            if not ok:
                problems.append("counterexample does not reproduce natively: " + desc + " inputs " + json.dumps(v["inputs"]))
                continue
            traces += 1
            k = next((k for k in known if k["entry"] == e["name"] and k["kind"] == v["kind"] and
                      re.search(k["match"], v["label"] + " @ " + v["where"] + " @ " + " ".join(v["stack"]))), None)
            if k:
                if k not in known_hit:
                    known_hit.append(k)
                continue
            with open(path, "a") as f:
                f.write("")
            with open(path[:-7] + ".txt", "w") as f:
                f.write("property %s\nentry %s\nviolation %s: %s\nat %s\n%s\n\nreplay: %s %s %s\nnative result (exit %d):\n%s\n" % (
                    prop, e["name"], v["kind"], v["label"], v["where"], "\n".join(v["stack"]), b.native, e["name"], path, rc, out[:6000]))
            viol.append((desc, path[:-7] + ".txt", first, v))

    # engine results that decide nothing
    cut_short = []
    for e, r in zip(es, results):
        for x in r["errors"]:
            problems.append("%s: %s" % (e["name"], x))
            cut_short.append(problems[-1])
        if not r["complete"] and not r["errors"] and not r["violations"]:
            problems.append("%s: exploration incomplete" % e["name"])
            cut_short.append(problems[-1])
        if r["complete"] and r["paths"] == 0 and not r["violations"]:
            problems.append("%s: vacuous (no path reaches the end)" % e["name"])
        if r["complete"] and not r["violations"] and not r["asserts"]:
            problems.append("%s: vacuous (no assertion evaluated)" % e["name"])
    # reachability witnesses
    if not args.only and not viol:
        labels = set(re.findall(r'SX_REACH\("([^"]+)"\)', src))
        seen = set(l for r in results for l in r["reach"])
        for l in sorted(labels - seen):
            problems.append("vacuous: witness %s never reached" % l)
            if cut_short:
                cut_short.append(problems[-1])

    # every sampled path is executed natively and its observations compared
    mismatches = []

    def val(item):
        e, i, s = item
        path = os.path.join(b.hdir, "%s.s%d" % (e["name"], i))
        write_inputs(path, s["inputs"])
        rc, out = native(b, e["name"], path)
        obs = re.findall(r"^SX observed (\d+)$", out, re.M)
        os.unlink(path)
        return e, s, rc, out, obs
    items = [(e, i, s) for e, r in zip(es, results) for i, s in enumerate(r["samples"])] if not viol else []
    shown = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e, s, rc, out, obs in ex.map(val, items):
            if rc == 0 and obs == s["observed"]:
                traces += 1
                if len(shown) < 12 and s["inputs"] and not any(x["entry"] == e["name"] for x in shown):
                    shown.append({"entry": e["name"], "inputs": s["inputs"][:24], "observed": s["observed"][:24]})
            else:
                tail = [l for l in out.splitlines() if "observed" not in l][:3]
                mismatches.append("%s: native run disagrees with the encoding (exit %d) inputs %s %s observed %s / %s" % (
                    e["name"], rc, json.dumps(s["inputs"]), tail, obs[:20], s["observed"][:20]))
    for m in mismatches[:5]:
        problems.append(m)

    cores = sum
    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted(set(f for r in results for f in r["functions"]))
    # names of instantiations can be kilobytes long
    listed = sorted(set(f if len(f) <= 160 else f[:157] + "..." for f in funcs))
    while sum(map(len, listed)) > 120000:
        listed = [f for i, f in enumerate(listed) if i % 4]
    stubs = sorted(set(f for r in results for f in r["stubs"]))
    asserts = {}
    for r in results:
        for l, (n, s) in r["asserts"].items():
            a = asserts.setdefault(l, [0, 0])
            a[0] += n
            a[1] += s
    if not shown:
        shown = [{"entry": r["entry"], "inputs": s["inputs"][:24]} for r in results for s in r["samples"][:1]][:8]
    ev = {
        "property": prop, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("instructions"),
            "traces_validated_against_impl": traces,
            "samples": shown,
            "paths_completed": tot("paths"), "forks": tot("forks"), "infeasible_paths": tot("infeasible"),
            "branch_decisions_on_symbolic_conditions": tot("branch_decisions"), "memory_accesses_checked": tot("memory_checks"),
            "accesses_at_symbolic_addresses": tot("symbolic_addresses"),
            "queries": tot("queries"), "solver_queries_discharged_by_z3": tot("z3_queries"), "z3_sat": tot("z3_sat"), "z3_unsat": tot("z3_unsat"),
            "z3_unknown": tot("z3_unknown"), "solver_s": round(tot("solver_s"), 2),
            "assertions_evaluated": sum(a[0] for a in asserts.values()), "assertions_needing_the_solver": sum(a[1] for a in asserts.values()),
            "assertion_labels": {l: {"evaluated": a[0], "symbolic": a[1]} for l, a in sorted(asserts.items())},
            "functions_encoded": listed, "functions_encoded_count": len(funcs), "stubbed_externals": stubs,
            "entries": [{"entry": e["name"], "bounds": e["bounds"], "complete": r["complete"], "paths": r["paths"],
                         "z3_queries": r.get("z3_queries", 0), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall_s", 0), 2)}
                        for e, r in zip(es, results)],
            "known_findings": [k["what"] for k in known_hit],
            "inconclusive": problems,
            "build_s": round(t_build, 1), "symbolic_execution_s": round(t_sym, 1),
            "exhaustive": not problems,
        },
        "assumptions": [
            "bounds: see coverage.entries[].bounds; nothing is claimed outside them",
            "clang 18 -O1 lowers the sources faithfully; LP64 little-endian, single thread",
            "engine/runtime/runtime.cpp stands for libstdc++.so/libc (allocation never fails below 2^40 bytes; constant std::hash of strings; unbalanced std::map)",
            "Z3 4.8 answers are trusted; sampled paths are re-executed natively and compared",
        ],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if args.v:
        for e, r in zip(es, results):
            print("%-40s paths %6d forks %6d instr %10d z3 %6d %.1fs/%.1fs %s" % (
                e["name"], r["paths"], r.get("forks", 0), r.get("instructions", 0), r.get("z3_queries", 0), r.get("solver_s", 0), r.get("wall_s", 0),
                "" if r["complete"] else "INCOMPLETE"))
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in known:
        if k not in known_hit and not viol and not args.only:
            print("note: known finding no longer observed: " + k["what"])
    for d, path, first, v in viol[: (20 if args.v else 3)]:
        print("counterexample: %s\n  native: %s\n  inputs: %s" % (d, first, json.dumps(v["inputs"])[:1500]))
        if args.v:
            print("   " + "\n   ".join(v["stack"][:14]))
    for x in problems[:10]:
        print("inconclusive: " + x[:1500])
    print("%s %s: %d entries, %d paths, %d z3 queries (%.1fs), %d assertions, %d functions, %d traces replayed, build %.0fs, total %.0fs" % (
        prop, args.tier, len(es), tot("paths"), tot("z3_queries"), tot("solver_s"), ev["coverage"]["assertions_evaluated"], len(funcs), traces,
        t_build, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]))
        return 1
    # an exploration cut short (time, memory, a construct the engine does not model) still explored something:
    # the verdict then covers the rest, and says so; anything else that is inconclusive gives no verdict
    if any(x not in cut_short for x in problems) or (problems and not any(r["complete"] for r in results)):
        return 2
    if problems:
        print("HELD property=%s on everything explored; NOT exhaustive within the stated bounds, see above" % prop)
        return 0
    print("HELD property=%s within the stated bounds" % prop)
    return 0


if __name__ == "__main__":
    main()
