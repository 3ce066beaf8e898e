#!/usr/bin/env python3
"""mutate.py SEED COUNT [file-regex]: random one-place mutants of /repo's sources that still pass the stable
tests, each run through the quick checks of the properties its file bears on (development aid; results in
/tmp/mut.log)."""
import sys, os, re, random, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [(r"interval", "P04 P21"), (r"(parameter|distribution|expression|map)_deser", "P01 P03"), (r"_deserialize", "P02 P03 P17"),
       (r"parameter", "P05 P22 P01 P06 P21 P18 P17"), (r"distribution", "P06 P20 P01 P18 P21 P17 P16"),
       (r"expression", "P07 P01 P18 P16 P21 P17"), (r"configuration_space", "P08 P10 P09 P02 P18 P16 P17 P21"),
       (r"tree_(eval)", "P12 P11 P22 P02 P18 P21 P17"), (r"evaluation", "P12 P11 P22 P02 P18 P21 P17"),
       (r"tree_tuner|tuner", "P13 P02 P18 P20 P16 P21 P17"), (r"tree", "P14 P02 P11 P20 P18 P16 P21 P17"),
       (r"objective_space|features_space", "P10 P02 P11 P12 P18 P16 P21 P17"), (r"configuration|features|binding|context", "P22 P11 P08 P02 P18 P21 P16 P17"),
       (r"map", "P15 P01 P16 P18 P21 P17"), (r"rng", "P20 P01 P21 P17"), (r"datum_hash", "P11 P15"), (r"error_stack", "P21 P17 P16"),
       (r"cconfigspace", "P19 P16 P01 P21 P02 P03 P17")]
SKIP = re.compile(r"ut(hash|list|array)\.h|exprlex|exprparse|_binding\.h$")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"CCS_TRUE", "CCS_FALSE"), (r"CCS_FALSE", "CCS_TRUE"), (r"(?<=[(, ])!(?=[a-z(*])", ""),
       (r"\[i\]", "[0]"), (r"\[j\]", "[i]"), (r" = 0;", " = 1;"), (r" \+= ", " = "), (r"lower", "upper"), (r"upper", "lower"), (r"\bi\b(?=[,)])", "0"), (r" \* ", " + "), (r"continue;", "break;"), (r"break;", "continue;")]
def mutants(path):
    L = open(path).read().split("\n")
    out = []
    infn = False
    for n, l in enumerate(L):
        if l.startswith("{"): infn = True
        if l.startswith("}"): infn = False
        if not infn or l.lstrip().startswith(("//", "#", "*", "/*")): continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                out.append((n, l[:m.start()] + b + l[m.end():]))
        s = l.strip()
        p = L[n - 1].strip() if n else ""
        if s.endswith(";") and not re.match(r"(ccs_\w+|_ccs_\w+|size_t|int|char|const|double|unsigned|void|return|UT_\w+|static|struct|goto|break|continue)\b[\s*]", s) and (p.endswith((";", "{", "}", ":")) or not p):
            out.append((n, re.sub(r"\S.*", ";", l)))
    return L, out
def main():
    rnd = random.Random(int(sys.argv[1]))
    count = int(sys.argv[2])
    rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    sh("cp -a /repo %s/repo; mkdir %s/verif && cp -a %s/[a-df-rt-zA-Z]* %s/verif/; cp -a %s/engine %s/setup.py %s/verif/; rm -rf %s/verif/seeded; mkdir -p %s/verif/evidence" % (w, w, V, w, V, V, w, w, w))
    R = w + "/repo"
    files = [f for f in sorted(os.listdir(R + "/src")) if f.endswith((".c", ".h")) and not SKIP.search(f) and (not rx or rx.search(f))]
    pool = []
    for f in files:
        L, ms = mutants(R + "/src/" + f)
        pool += [(f, n, t) for n, t in ms]
    done = 0
    while done < count:
        f, n, t = rnd.choice(pool)
        path = R + "/src/" + f
        orig = open(path).read()
        L0 = orig.split("\n")
        props = next((p for r, p in MAP if re.search(r, f)), "P16 P21").split()
        if re.search("CHECK_|REFUTE|RAISE", L0[n]): props = ["P21"] + props
        elif re.search("release|free", L0[n]): props = ["P17", "P16"] + props
        props = list(dict.fromkeys(props))[:int(os.environ.get("PROPS", 3))]
        L = orig.split("\n"); old = L[n]; L[n] = t
        open(path, "w").write("\n".join(L))
        try:
            r = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >%s/b.log 2>&1 || { echo BUILDFAIL; exit; }; timeout 120 bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; echo T'" % (R, w, w))
            if "BUILDFAIL" in r.stdout: continue
            try: o = json.load(open(w + "/o.json")); os.remove(w + "/o.json")
            except Exception: continue
            if o["failed"] or len(o["passed"]) != 116: continue
            done += 1
            got = None
            for p in props:
                e = dict(os.environ, VP_REPO=R, VERIF_TIER="quick")
                r = sh("cd %s/verif && timeout 900 python3 run.py %s" % (w, p), env=e)
                if r.returncode != 0:
                    got = p + (" exit %d " % r.returncode) + " ".join(x for x in r.stdout.splitlines() if "iolat" in x or "rror" in x)[:160]; break
            print("%s %s:%d\n    - %s\n    + %s\n    %s" % ("CAUGHT" if got else "MISSED", f, n + 1, old.strip(), t.strip(), got or props), flush=True)
        finally:
            open(path, "w").write(orig)
    shutil.rmtree(w)
main()
