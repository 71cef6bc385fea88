#!/usr/bin/env python3
"""Author seeded bugs: seed(id, prop, [(file, old, new)...], needs, breaks, demo_c). Confirms each one and stores it in /verif/seeded/<id>."""
import os, subprocess, json, shutil, sys, tempfile
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not. Run in the repository.
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
R=$PWD
gcc -w -std=c11 -g -fsanitize=address -DPC -I"$R/source" $(find "$R/source" -type d -printf '-I%p ') -I"$R/tests" -o "$W/demo" "$D/demo.c" "$R/tests/test_util.c" \\
  $(find "$R/source" -name '*.c' ! -name main.c ! -name opengl_test.c ! -path '*/graphics/*') "$R"/source/graphics/pc/[!o]*.c -lm -lpthread -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system || exit 3
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo >"$W/log" 2>&1; r=$?
[ $r = 0 ] || tail -5 "$W/log"
exit $r
'''
HEAD = '''#include "test_util.h"
#include "system.h"
#include "ptc.h"
#include "vars.h"
#include "strs.h"
#include "error.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#define TEST_FAIL(m) do { printf("FAIL %s\\n", m); exit(1); } while (0)
#define T(c) do { if (!(c)) TEST_FAIL(#c); } while (0)
struct named_var* test_var(struct variables* v, char* name, enum types type);
struct ptc* run_code(char*); struct ptc* run_code_keys(char*, char*, int); void free_code(struct ptc*);
#define NUM(n) (test_var(&p->vars, n, VAR_NUMBER)->value.number)
#define STR(n) (test_var(&p->vars, n, VAR_STRING)->value.ptr)
'''
def sh(c, cwd=None, t=300):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def seed(sid, prop, edits, needs, breaks, demo, only=set(sys.argv[1:])):
    if only and sid not in only: return
    W = "/tmp/seedw"; shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    for f, a, b in edits:
        p = f"{W}/source/{f}"; s = open(p).read()
        if s.count(a) != 1: print(sid, "EDIT MATCHES", s.count(a), f, repr(a)); return
        open(p, "w").write(s.replace(a, b))
    d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", W)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(HEAD + demo)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r0, o0 = sh(f"bash {d}/demo.sh", "/repo")
    r1, o1 = sh(f"bash {d}/demo.sh", W)
    # stable tests in the patched copy: a run of the real test script with the tree swapped in
    rc, o = sh(f"git -C /repo apply {d}/patch.diff && (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json); r=$?; git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; exit $r")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    try: res = json.load(open("/tmp/seed.json")); broken = [t for t in base if t not in res["passed"]]
    except Exception as e: broken = ["no result " + o[-300:]]
    good = r0 == 0 and r1 != 0 and not broken
    print(sid, "OK" if good else "BAD", "clean", r0, o0[-200:] if r0 else "", "patched", r1, o1.strip()[-120:], "tests broken", broken)
    if not good: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
