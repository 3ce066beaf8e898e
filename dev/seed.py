#!/usr/bin/env python3
"""seed.py [--check] [--all] ID...: (re)generate seeded/<ID> from seeds.py, confirm in a scratch copy bound
over /repo in a private mount namespace (builds, passes the stable tests, demo passes before and fails
after), and with --check also run the property's quick check against it."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
from seeds import SEEDS
DEMO_SH = '''#!/bin/bash
# exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -w -g -o "$T/demo" "$D/demo.c" -Iinclude -L_build/src/.libs -lcconfigspace -lm || exit 3
cd "$T" && LD_LIBRARY_PATH=OLD/_build/src/.libs timeout 60 ./demo
'''.replace("OLD", '"$OLDPWD"')
PRE = '''#include <cconfigspace.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <stdint.h>
#define OK(x) do { ccs_result_t r_ = (x); if (r_ != CCS_RESULT_SUCCESS) { fprintf(stderr, "line %d: unexpected error %d\\n", __LINE__, r_); exit(1); } } while (0)
#define ERR(x) do { if ((x) == CCS_RESULT_SUCCESS) { fprintf(stderr, "line %d: should fail\\n", __LINE__); exit(1); } ccs_clear_thread_error(); } while (0)
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "line %d: wrong: %s\\n", __LINE__, #x); exit(1); } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(i, check):
    s = SEEDS[i]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_" + i + "_", dir="/tmp")
    try:
        sh("cp -a /repo %s/repo" % w)
        R = w + "/repo"
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1: print(i, "EDIT MATCHES", t.count(old), f, repr(old)[:60]); return False
            open(R + "/" + f, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        open(d + "/demo.c", "w").write(("#define _GNU_SOURCE\n" if s.get("gnu") else "") + PRE + s.get("pre", "") + "int main(void)\n{\n\tOK(ccs_init());\n" + s["demo"].strip("\n") + "\n\treturn 0;\n}\n")
        open(d + "/demo.sh", "w").write(s.get("sh", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("cd /repo && bash %s/demo.sh" % d)
        cmd = "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { tail -5 /tmp/sb.log; echo BUILDFAIL; exit; }; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; bash %s/demo.sh; echo demo=$?" % (R, w, d)
        r1 = sh("unshare -Urm bash -c '%s'" % cmd)
        ok = r0.returncode == 0 and "demo=0" not in r1.stdout and "demo=" in r1.stdout
        try: o = json.load(open(w + "/o.json")); nf = len(o["failed"]); np = len(o["passed"])
        except Exception: nf = np = -1
        print(i, "clean demo", r0.returncode, "| mutant", r1.stdout.strip().replace("\n", " / ")[-200:], "| tests", np, nf, "OK" if ok and nf == 0 and np == 116 else "BAD", r0.stdout[-200:] if r0.returncode else "")
        if not (ok and nf == 0 and np == 116): return False
        if check:
            sh("mkdir %s/verif && cp -a %s/[a-df-rt-zA-Z]* %s/verif/; mkdir -p %s/verif/evidence; cp -a %s/engine %s/setup.py %s/verif/" % (w, V, w, w, V, V, w))
            r = sh("unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s/verif /verif && cd /verif && VERIF_TIER=quick timeout 900 python3 run.py %s'" % (R, w, s["property"]))
            print("   check", s["property"], "exit", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "assert" in l.lower()][:2] or r.stdout[-300:])
            return r.returncode == 1
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
a = sys.argv[1:]
check = "--check" in a
ids = [x for x in a if not x.startswith("--")]
if "--all" in a: ids = sorted(SEEDS)
bad = [i for i in ids if not one(i, check)]
print("NOT CAUGHT OR BAD:" if bad else "all fine", *bad)
