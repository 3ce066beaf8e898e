#!/usr/bin/env python3
"""Decide one property: build the encoding from /repo's current sources, run the
symbolic executor on the property's harnesses, replay every counterexample
natively, write evidence/<id>.json.

usage: run.py PROPERTY [--tier quick|thorough] [-v] [--only harness] [--keep]
"""
import threading
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import PROPS  # noqa: E402

JOBS = int(os.environ.get("VP_JOBS", "8"))
CLANG = "clang-18"
DEFS = ["-include", os.path.join(VERIF, "models", "vp_redef.h")]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd[-3:]), r.stdout[-800:]))
        raise SystemExit(2)
    return r.stdout


def engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("ccsx.cpp", "expr.h")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    exe = os.path.join(BUILD, "ccsx-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        sh(["g++", "-O2", "-w", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
            "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src[0], "-o", tmp, "-L/usr/lib/llvm-18/lib",
            "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        os.replace(tmp, exe)
    return exe


def gen_headers(d):
    """version.h/config.h are generated by the build; regenerate them here."""
    os.makedirs(d, exist_ok=True)
    sub = open(os.path.join(REPO, "src", "version.h.subst")).read()
    for k, v in (("VERSION_STRING", "v0.0.2.0"), ("VERSION_MAJOR", "0"), ("VERSION_MINOR", "0"),
                 ("VERSION_PATCH", "2"), ("VERSION_REVISION", "0")):
        sub = sub.replace("==%s==" % k, v)
    open(os.path.join(d, "version.h"), "w").write(sub)
    open(os.path.join(d, "config.h"), "w").write("#define HAVE_CONFIG 1\n")


def par(fn, items):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


class Build:
    def __init__(self, work):
        self.w = work
        self.inc = ["-I" + os.path.join(work, "gen"), "-I" + os.path.join(REPO, "include"),
                    "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "models"), "-I" + os.path.join(VERIF, "harness")]
        gen_headers(os.path.join(work, "gen"))
        # uthash.h as in the tree, its hash function replaced by a one-bit hash so that
        # colliding and non-colliding keys are both covered by a few paths
        gh = os.path.join(work, "gen", "uthash.h")
        open(gh, "w").write(open(os.path.join(REPO, "src", "uthash.h")).read() + """
#undef HASH_JEN
#define HASH_JEN(key, keylen, hashv) do { (hashv) = vp_weak_hash((key), (keylen)); } while (0)
""")
        ov = os.path.join(work, "gen", "overlay.yaml")
        json.dump({"version": 0, "roots": [{"name": os.path.join(REPO, "src"), "type": "directory", "contents": [
            {"name": "uthash.h", "type": "file", "external-contents": gh}]}]}, open(ov, "w"))
        self.inc += ["-ivfsoverlay", ov]
        self.srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c"))
        self.models = [os.path.join(VERIF, "models", f) for f in ("libc_model.c", "gsl_model.c")]
        self.native_libs = {}
        self.native_exes = {}

    def bitcode(self):
        fl = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-ffp-contract=off", "-fno-builtin", "-emit-llvm", "-c"] + DEFS + self.inc
        self.cflags = fl

        def cc(f):
            o = os.path.join(self.w, os.path.basename(f)[:-2] + ".bc")
            sh([CLANG] + fl + [f, "-o", o])
            return o
        os.makedirs(self.w, exist_ok=True)
        objs = par(cc, self.srcs + self.models)
        self.lib = os.path.join(self.w, "lib.lbc")
        sh(["llvm-link-18"] + objs + ["-o", self.lib])

    def harness_bc(self, h):
        o = os.path.join(self.w, "H_" + h + ".bc")
        a = os.path.join(self.w, "H_" + h + ".all.bc")
        sh([CLANG] + self.cflags + [os.path.join(VERIF, "harness", h + ".c"), "-o", o])
        sh(["llvm-link-18", self.lib, o, "-o", a])
        sh(["opt-18", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,sroa,early-cse)",
            "-internalize-public-api-list=vp_main", a, "-o", a])
        return a

    NFLAGS = {
        "asan": ["-fsanitize=address,float-cast-overflow,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"],
        "ovf": ["-fsanitize=address,float-cast-overflow,shift,integer-divide-by-zero,signed-integer-overflow", "-fno-sanitize-recover=all"],
        "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all"],
    }

    def native_lib(self, kind):
        if kind in self.native_libs:
            return self.native_libs[kind]
        d = os.path.join(self.w, "n_" + kind)
        os.makedirs(d, exist_ok=True)
        fl = ["-O1", "-g", "-w", "-ffp-contract=off", "-fno-builtin", "-fno-omit-frame-pointer", "-DVP_NATIVE", "-c"] + self.NFLAGS[kind] + DEFS + self.inc
        wrap = ["-Dmalloc=vp_malloc", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc", "-Dfree=vp_free"]
        self.nwrap = wrap = ["-include", os.path.join(VERIF, "models", "vp_wrap.h")]

        def cc(f):
            o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
            ex = wrap if not f.endswith("vp_native.c") else []
            sh([CLANG] + fl + ex + [f, "-o", o])
            return o
        objs = par(cc, self.srcs + self.models + [os.path.join(VERIF, "models", "vp_native.c")])
        self.native_libs[kind] = (d, objs, fl + wrap)
        return self.native_libs[kind]

    def native(self, h, kind):
        key = (h, kind)
        if key in self.native_exes:
            return self.native_exes[key]
        d, objs, fl = self.native_lib(kind)
        o = os.path.join(d, "H_" + h + ".o")
        e = os.path.join(d, "H_" + h)
        sh([CLANG] + fl + [os.path.join(VERIF, "harness", h + ".c"), "-o", o])
        sh([CLANG] + self.NFLAGS[kind] + objs + [o, "-o", e, "-lm"])
        self.native_exes[key] = e
        return e


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs:
            f.write("%s %s\n" % (n.replace(" ", "_"), h or "-"))


def run_native(exe, inputs_file, params, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="")
    for k, v in params.items():
        env["VP_PARAM_" + k] = str(v)
    try:
        r = subprocess.run([exe, inputs_file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return "timeout", out.decode(errors="replace") if isinstance(out, bytes) else out


def confirm(viol, rc, out):
    """does the native run show the violation the solver predicted?"""
    k = viol["kind"]
    san = ("AddressSanitizer" in out) or ("MemorySanitizer" in out) or ("runtime error:" in out) or (isinstance(rc, int) and rc < 0)
    if rc == "timeout":
        return k == "hang"
    if "VP-ASSUME-FALSE" in out and "VP-DIVERGED" not in out and not san:
        return False
    if k == "assert":
        return "VP-ASSERT-FAILED" in out or san
    return san or "VP-ASSERT-FAILED" in out or rc not in (0, 42, 43)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def matches(k, pid, task, v):
    if k["property"] != pid or k["harness"] != task["harness"]:
        return False
    if "kind" in k and k["kind"] != v["kind"]:
        return False
    if "msg" in k and k["msg"] != v["msg"]:
        return False
    if "function" in k and not v["loc"].startswith(k["function"] + " "):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    P = PROPS[pid]
    tasks = []
    for t in P["tasks"]:
        if t.get("tier", "quick") == "thorough" and a.tier != "thorough":
            continue
        t = dict(t)
        if a.tier == "thorough" and "thorough" in t:
            t["params"] = dict(t.get("params", {}), **t["thorough"])
        if a.only and not t["harness"].startswith(a.only):
            continue
        sp = [dict()]
        for k, vs in t.get("split", {}).items():
            sp = [dict(x, **{k: v}) for x in sp for v in (range(vs) if isinstance(vs, int) else vs)]
        for x in sp:
            tasks.append(dict(t, params=dict(t.get("params", {}), **x)))
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=BUILD)
    try:
        rc = check(a, pid, P, tasks, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def check(a, pid, P, tasks, work, t0):
    exe = engine()
    B = Build(work)
    B.bitcode()
    hs = sorted(set(t["harness"] for t in tasks))
    bcs = dict(zip(hs, par(B.harness_bc, hs)))
    budget = P.get("budget", {}).get(a.tier, 240 if a.tier == "quick" else 1500)

    # the whole run is bounded; tasks that find no time left are incomplete
    known = load_known()
    deadline = t0 + (660 if a.tier == "quick" else 6000)
    stop = {"at": None}
    lock = threading.Lock()

    def replay(t, v, d):
        """the counterexample against the compiled library"""
        os.makedirs(d, exist_ok=True)
        inp = os.path.join(d, "inputs.txt")
        write_inputs(inp, v["inputs"])
        kind = "msan" if v["kind"] == "uninit" else ("ovf" if t.get("overflow") else "asan")
        nexe = B.native(t["harness"], kind)
        rc, out = run_native(nexe, inp, t.get("params", {}), 15 if v["kind"] == "hang" else 60)
        # an access far outside the object can land in other live memory natively
        return confirm(v, rc, out) or (v["kind"] == "memory" and "VP-DIVERGED" in out), rc, out

    def skipped(why):
        return {"status": "skipped", "violations": [], "reached": {}, "samples": [], "functions": [], "lines": {}, "incomplete": [why], "log": ""}

    def runtask(it):
        res = runtask1(it)
        i, t = it
        for v in res["violations"]:
            with lock:
                if stop["at"] is not None or any(matches(k, pid, t, v) for k in known):
                    break
                if replay(t, v, os.path.join(work, "first%d" % i))[0]:
                    stop["at"] = time.time() + 20
                    break
        return res

    def runtask1(it):
        i, t = it
        left = deadline - time.time()
        if stop["at"] is not None:
            return skipped("skipped after a violation")
        if left < 1:
            return skipped("time limit of the run")
        limit = min(t.get("time", budget), left)
        out = os.path.join(work, "out%d.json" % i)
        cmd = [exe, bcs[t["harness"]], "--out", out, "--max-time", "%.0f" % limit, "--after", "1e9" if known else "40",
               "--query-timeout", str(t.get("qtimeout", 30000 if a.tier == "quick" else 120000)), "--max-enum", str(t.get("enum", 300)), "--max-ite", str(t.get("ite", 4096))]
        if t.get("overflow"):
            cmd.append("--overflow")
        if "steps" in t:
            cmd += ["--max-steps", str(t["steps"])]
        for k, v in t.get("params", {}).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        if a.v:
            cmd.append("-v")
        logf = os.path.join(work, "log%d" % i)
        with open(logf, "w") as lf:
            pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
            end, code = time.time() + limit + 60, None
            while code is None:
                try:
                    code = pr.wait(0.2 if time.time() - t0 < 20 else 1)
                except subprocess.TimeoutExpired:
                    if time.time() > end or (stop["at"] is not None and time.time() > stop["at"]):
                        pr.kill()
                        pr.wait()
                        if stop["at"] is not None:
                            return skipped("stopped after a violation")
                        code = -1
        log = open(logf, errors="replace").read()
        if code == -1:
            log += "engine timeout"
        res = json.load(open(out)) if os.path.exists(out) else {"status": "error: engine died (%s): %s" % (code, log[-500:]), "violations": [], "reached": {}, "samples": [], "functions": [], "lines": {}}
        res["log"] = log
        if a.v:
            print("== %s %s\n%s" % (t["harness"], t.get("params", {}), log))
        return res

    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1))
    rs = dict(zip(order, par(runtask, [(i, tasks[i]) for i in order])))
    results = [rs[i] for i in range(len(tasks))]

    viol_lines, known_lines, unconfirmed, errors, seen = [], [], [], [], set()
    nrep = 0
    repdir = os.path.join(VERIF, "replay", pid)
    shutil.rmtree(repdir, ignore_errors=True)
    for t, r in zip(tasks, results):
        if r["status"].startswith("error"):
            errors.append("%s: %s" % (t["harness"], r["status"]))
        for v in r["violations"]:
            key = (t["harness"], v["kind"], v["msg"], v["loc"] if v["kind"] != "assert" else "")
            if key in seen:
                continue
            d = os.path.join(work, "rep%d" % len(seen))
            ok, rc, out = replay(t, v, d)
            if not ok:
                unconfirmed.append("%s %s %s (native: %s)" % (t["harness"], v["kind"], v["msg"], rc))
                if a.v:
                    print("UNCONFIRMED", t["harness"], v["kind"], v["msg"], v["loc"], rc, out[-1500:])
                continue
            seen.add(key)
            kf = [k for k in known if matches(k, pid, t, v)]
            if kf:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[0]["what"]))
                continue
            nrep += 1
            os.makedirs(repdir, exist_ok=True)
            dst = os.path.join(repdir, "%d" % nrep)
            shutil.copytree(d, dst, dirs_exist_ok=True)
            json.dump({"harness": t["harness"], "params": t.get("params", {}), "kind": v["kind"], "msg": v["msg"], "at": v["loc"], "stack": v["stack"],
                       "inputs": v["inputs"], "native_exit": rc, "native_output": out[-3000:]}, open(os.path.join(dst, "violation.json"), "w"), indent=1)
            print("  %s: %s [%s] at %s" % (t["harness"], v["msg"], v["kind"], v["loc"]))
            viol_lines.append("VIOLATION property=%s replay=%s" % (pid, dst))

    # traces of the encoding validated against the compiled library
    validated, tried, mismatch, samples = 0, 0, [], []
    if not viol_lines:
        per = 2
        jobs = []
        for i, (t, r) in enumerate(zip(tasks, results)):
            for j, s in enumerate(r.get("samples", [])[:per]):
                jobs.append((i, t, j, s))
        for h in sorted(set(t["harness"] for _, t, _, _ in jobs)):
            B.native_lib("asan")
        par(lambda h: B.native(h, "asan"), sorted(set(t["harness"] for _, t, _, _ in jobs)))

        def val(x):
            i, t, j, s = x
            f = os.path.join(work, "s%d_%d.txt" % (i, j))
            write_inputs(f, s)
            return x, run_native(B.native(t["harness"], "asan"), f, t.get("params", {}))
        for (i, t, j, s), (rc, out) in par(val, jobs):
            tried += 1
            if rc == 0 and "VP-DONE" in out and "DIVERGED" not in out:
                validated += 1
                if len(samples) < 5:
                    samples.append({"harness": t["harness"], "params": t.get("params", {}), "inputs": s[:12]})
            else:
                known_hit = any(k["property"] == pid and k["harness"] == t["harness"] for k in known)
                if not known_hit:
                    mismatch.append("%s sample %d: native rc=%s %s" % (t["harness"], j, rc, out[-300:]))

    # vacuity: every reach label of every harness reached by some task
    labels = {}
    for h in hs:
        src = open(os.path.join(VERIF, "harness", h + ".c")).read()
        labels[h] = set(re.findall(r'vp_reach\("([^"]+)"\)', src)) | set("assert:" + m for m in re.findall(r'vp_assert\([^;]*?"([^"]+)"\);', src, re.S))
    opt = {h: set() for h in hs}
    for h in hs:
        src = open(os.path.join(VERIF, "harness", h + ".c")).read()
        opt[h] = set(re.findall(r'vp_opt: *(.+)', src))
    got = {h: set() for h in hs}
    for t, r in zip(tasks, results):
        got[t["harness"]] |= set(r.get("reached", {}))
    unreached = sorted("%s: %s" % (h, l) for h in hs for l in labels[h] - got[h] if not any(l.endswith(o.strip()) for o in opt[h]))
    incomplete = sorted(set("%s%s: %s" % (t["harness"], t.get("params", {}) or "", x) for t, r in zip(tasks, results) for x in r.get("incomplete", [])))

    funcs = sorted(set(re.sub(r"\.\d+$", "", f) for r in results for f in r.get("functions", [])))
    lines = {}
    for r in results:
        for f, l in r.get("lines", {}).items():
            lines.setdefault(f, set()).update(l)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "wall_s": round(wall, 2),
        "coverage": {
            "states": max(1, tot("paths")), "transitions": max(1, tot("instrs")),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"none": "no sample (violation or no inputs)"}],
            "explanation": "symbolic paths through the LLVM IR of the real sources; each branch and assertion decided by Z3 over all input values within the bounds",
            "bounds": P["bounds"],
            "exhaustive_within_bounds": not incomplete and not errors,
            "incomplete": incomplete[:50], "unconfirmed": unconfirmed[:50], "sample_mismatches": mismatch[:20], "unreached_labels": unreached[:50],
            "queries": {"solver": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "cache_hits": tot("cache_hits"), "model_hits": tot("model_hits"),
                        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2), "max_query_s": round(max([r.get("max_query_s", 0) for r in results] or [0]), 2)},
            "forks": tot("forks"),
            "tasks": [{"harness": t["harness"], "params": t.get("params", {}), "status": r["status"], "paths": r.get("paths", 0), "instrs": r.get("instrs", 0), "queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall_s", 0), 2)} for t, r in zip(tasks, results)],
            "functions_encoded": funcs,
            "source_lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
        },
        "assumptions": P.get("assumptions", []),
        "violations": len(viol_lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("VP_LINES"):
        json.dump({f: sorted(l) for f, l in lines.items()}, open(os.environ["VP_LINES"], "w"))
    for l in sorted(set(known_lines)):
        print(l)
    for l in viol_lines:
        print(l)
    print("%s %s: %d tasks, %d paths, %d instructions, %d solver queries (%.1fs), %d/%d samples validated, %.1fs wall" % (
        pid, a.tier, len(tasks), tot("paths"), tot("instrs"), tot("queries"), ev["coverage"]["queries"]["solver_s"], validated, tried, wall))
    for name, l in (("incomplete", incomplete), ("unconfirmed", unconfirmed), ("mismatch", mismatch), ("unreached", unreached), ("error", errors)):
        for x in l[:20]:
            print("  note (%s): %s" % (name, x))
    if viol_lines:
        return 1
    if errors or (unreached and not incomplete):
        return 2
    return 0


if __name__ == "__main__":
    main()
