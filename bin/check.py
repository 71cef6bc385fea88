#!/usr/bin/env python3
"""Decides one property: check.py C01 [--unit NAME] [--keep] [-v]

Reads units/<id>_*.c, compiles /repo's current sources with goto-cc, enforces the
contracts in the unit file (goto-instrument --dfcc) and discharges every obligation
with cbmc.  See DESIGN.md."""
import threading, sys, os, re, itertools, json, subprocess, tempfile, shutil, time, glob, resource, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SBC_REPO", "/repo")
SRC = REPO + "/source"
INCS = [SRC, SRC + "/graphics/pc", SRC + "/graphics", SRC + "/interpreter", SRC + "/subsystem", SRC + "/extension"]
HOOK = "SBC_VERIFY"
CPP = ["-std=c11", "-DPC", "-D" + HOOK] + ["-I" + i for i in INCS] + ["-I" + VERIF + "/lib", "-I" + VERIF + "/units"]
LIBS = "-lm -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system".split()
CHECKS = ["--no-standard-checks", "--bounds-check", "--div-by-zero-check", "--pointer-check", "--unwinding-assertions"]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero", "-fno-sanitize-recover=all"]
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "780"))
TIER = os.environ.get("VERIF_TIER", "quick")
VERBOSE = "-v" in sys.argv
PROCS = set()

def left():
    return BUDGET - (time.time() - T0)

def sh(cmd, timeout, cwd=None, mem=9):
    """returns (rc, stdout, stderr); rc None on timeout"""
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        os.setsid()
    t = max(1, min(timeout, left()))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim)
    PROCS.add(p.pid)
    try:
        o, e = p.communicate(timeout=t)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timeout"
    finally:
        PROCS.discard(p.pid)

class Unit: pass

def load_units(pid):
    units = []
    for f in sorted(glob.glob(f"{VERIF}/units/{pid}_*.c")):
        txt = open(f).read()
        for m in re.finditer(r"^//@unit\s+(\w+)\s*(.*?)\s*(?:::\s*(.*))?$", txt, re.M):
            kv = {}
            for w in m.group(2).split():
                k, _, v = w.partition("="); kv[k] = v
            for case in itertools.product(*[[(c.split(":")[0], v) for v in (c.split(":")[1:] or "01")] for c in kv.get("cases", "").split(",") if c]):
                units.append(mk_unit(f, txt, m.group(1), m.group(3) or "", kv, case))
    return units

def mk_unit(f, txt, name, desc, kv, case):
    if True:
        if True:
            u = Unit(); u.file = f; u.harness = "h_" + name; u.desc = desc
            u.name = name + ("_" + "".join(str(v) for _, v in case) if case else "")
            u.enforce = kv.get("enforce"); u.replace = [x for x in kv.get("replace", "").split(",") if x]
            u.never = [x for x in kv.get("never", "").split(",") if x]
            u.drop = kv.get("drop")
            u.stub = [x for x in kv.get("stub", "").split(",") if x]
            u.mode = kv.get("mode", "dfcc" if u.enforce else "plain")
            u.unwind = int(kv.get("unwind", "8"))
            u.timeout = float(kv.get("timeout", "200"))
            u.fb = kv["fb"].split(",") if "fb" in kv else None
            u.fbunwind = int(kv.get("fbunwind", str(u.unwind)))
            u.defs = [x for x in kv.get("defs", "").split(",") if x] + ["-DV_UNIT_" + name] + [f"-D{c}={v}" for c, v in case]
            u.flags = [x for x in kv.get("flags", "").replace("+", " ").split(",") if x]
            u.flags = [y for x in u.flags for y in x.split(" ")]
            u.solver = kv.get("solver", "cadical")
            u.alt = kv.get("alt")
            u.keepstatic = [x for x in kv.get("keepstatic", "").split(",") if x]
            u.tier = kv.get("tier", "quick"); u.helper = "helper" in kv
            u.bounded = kv.get("bounded"); u.loops = "loops" in kv
            u.target = kv.get("target", u.enforce)
            u.covers = kv.get("functions", u.enforce or "").split(",")
            u.clauses = {}
            if u.enforce:
                mm = re.search(r"#define C_%s\(.*?\)((?:.*\\\n)*.*\n)" % re.escape(u.enforce), txt)
                if mm:
                    u.clauses = {i + 1: s for i, s in enumerate(re.findall(r'ENS\(\s*"([^"]*)"', mm.group(1)))}
            return u

def compile_repo(wd):
    files = [f for f in sorted(glob.glob(SRC + "/*.c") + glob.glob(SRC + "/*/*.c"))
             if not f.endswith("/source/main.c") and "/graphics/" not in f]
    jobs = []
    def one(f):
        out = f"{wd}/" + os.path.relpath(f, SRC).replace("/", "__") + ".gb"
        rc, o, e = sh(["goto-cc", *CPP, "-c", f, "-o", out], 120)
        return f, rc, o + e, out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, files))
    for f, rc, msg, out in res:
        if rc != 0:
            raise RuntimeError(f"goto-cc failed on {f}: {msg[-2000:]}")
    rc, o, e = sh(["goto-cc", "-o", f"{wd}/repo.gb"] + [r[3] for r in res], 120)
    if rc != 0:
        raise RuntimeError("goto-cc link failed: " + (o + e)[-2000:])
    return f"{wd}/repo.gb"

def symbols(gb):
    rc, o, e = sh(["goto-instrument", "--list-goto-functions", gb], 60)
    return {m.group(1): not m.group(2) for m in re.finditer(r"^(\S+) /\* \S+?(, body not available)? \*/$", o, re.M)}

def build_unit(u, wd, repo_gb, mode, extra, drop=()):
    """-> path of instrumented binary, or raises"""
    tag = f"{wd}/{u.name}-{mode}" + ("-fb" if extra else "") + ("-d" if drop else "")
    h = u.harness
    d = ["-DV_DFCC"] if mode == "dfcc" else ["-DV_PLAIN"]
    rm = [f for f in u.stub if f not in drop]
    d += ["-DV_STUB_" + f for f in rm]
    rc, o, e = sh(["goto-cc", *CPP, *d, *u.defs, *extra, "-c", u.file, "-o", tag + ".u.gb"], 120)
    if rc != 0: raise RuntimeError("unit compile failed: " + (o + e)[-1500:])
    base = repo_gb
    if rm:
        args = sum([["--remove-function-body", f] for f in rm], [])
        rc, o, e = sh(["goto-instrument", *args, repo_gb, tag + ".r.gb"], 120)
        if rc != 0: raise RuntimeError("remove bodies failed: " + (o + e)[-1500:])
        base = tag + ".r.gb"
    rc, o, e = sh(["goto-cc", "--function", h, tag + ".u.gb", base, "-o", tag + ".l.gb"], 120)
    if rc != 0: raise RuntimeError("unit link failed: " + (o + e)[-1500:])
    cur = tag + ".l.gb"
    never = [f for f in u.never if f not in drop]
    if never:
        args = sum([["--remove-function-body", f] for f in never], [])
        rc, o, e = sh(["goto-instrument", *args, cur, tag + ".n.gb"], 120)
        rc, o, e = sh(["goto-instrument", "--generate-function-body", "^(" + "|".join(never) + ")$",
                       "--generate-function-body-options", "assert-false-assume-false", tag + ".n.gb", tag + ".m.gb"], 120)
        if rc != 0: raise RuntimeError("never bodies failed: " + (o + e)[-1500:])
        cur = tag + ".m.gb"
    if u.drop:
        # table targets no input of this unit may reach: reaching one is a failed obligation
        rc, o, e = sh(["goto-instrument", "--remove-function-body-regex", u.drop, cur, tag + ".d.gb"], 120)
        rc, o, e = sh(["goto-instrument", "--generate-function-body", u.drop, "--generate-function-body-options", "assert-false-assume-false", tag + ".d.gb", tag + ".e.gb"], 120)
        if rc != 0: raise RuntimeError("drop failed: " + (o + e)[-1500:])
        cur = tag + ".e.gb"
    if mode == "dfcc":
        args = ["--dfcc", h]
        if u.enforce: args += ["--enforce-contract", u.enforce]
        for r in u.replace:
            if r not in drop: args += ["--replace-call-with-contract", r]
        if u.loops: args += ["--apply-loop-contracts"]
        for k in u.keepstatic: args += ["--nondet-static-exclude", k]
        rc, o, e = sh(["goto-instrument", *args, cur, tag + ".i.gb"], 200)
        if rc != 0: raise RuntimeError("dfcc failed: " + (o + e)[-1500:])
    else:
        rc, o, e = sh(["goto-instrument", "--drop-unused-functions", cur, tag + ".i.gb"], 120)
        if rc != 0: raise RuntimeError("drop-unused failed: " + (o + e)[-1500:])
    return tag + ".i.gb"

def cbmc_cmd(u, gb, unwind, solver=None):
    c = ["cbmc", gb, *CHECKS, "--slice-formula", *([] if "fsens" in u.flags else ["--no-array-field-sensitivity"]), "--unwind", str(unwind), "--object-bits", "10", *[f for f in u.flags if f != "fsens"]]
    solver = solver or u.solver
    if solver in ("cvc5", "z3"): c += ["--" + solver]
    else: c += ["--sat-solver", solver]
    return c

def run_cbmc(u, gb, unwind, timeout, extra=(), solver=None):
    t = time.time()
    rc, o, e = sh(cbmc_cmd(u, gb, unwind, solver) + ["--json-ui", "--verbosity", "6", *extra], timeout)
    dt = time.time() - t
    if rc is None: return {"status": "timeout", "t": dt}
    res = None; msgs = []
    try:
        for x in json.loads(o, strict=False):
            if "result" in x: res = x["result"]
            if x.get("messageType") in ("ERROR", "WARNING"): msgs.append(x.get("messageText", ""))
    except Exception as ex:
        msgs.append(str(ex))
    if res is None:
        return {"status": "error", "t": dt, "msg": " | ".join(msgs)[-1500:] + e[-500:] + o[-300:]}
    unk = [r["property"] for r in res if r["status"] not in ("SUCCESS", "FAILURE")]
    if unk and not any(r["status"] == "FAILURE" and not r.get("description", "").startswith("REACH:") for r in res):
        return {"status": "error", "t": dt, "msg": "solver gave no answer for " + ", ".join(unk[:5])}
    res = [r for r in res if r["status"] in ("SUCCESS", "FAILURE")]
    return {"status": "ok", "t": dt, "result": res, "msgs": msgs}

def classify(u, res):
    reach_bad, unw, fail, okc, covers = [], [], [], 0, 0
    for r in res:
        d = r.get("description", "")
        if d.startswith("REACH:"):
            covers += 1
            if r["status"] != "FAILURE": reach_bad.append(d)
        elif r["status"] == "SUCCESS": okc += 1
        elif "unwinding assertion" in d or ".unwind." in r["property"] or "recursion unwinding" in d: unw.append(r)
        elif "no body for callee" in d: fail.append(r)
        else: fail.append(r)
    return reach_bad, unw, fail, okc, covers

def c_values(lhs, v, out):
    n = v.get("name")
    if n == "struct":
        for m in v.get("members", []): c_values(lhs + "." + m["name"], m["value"], out)
    elif n == "array":
        for m in v.get("elements", []): c_values(f"{lhs}[{m['index']}]", m["value"], out)
    elif n == "union":
        m = v.get("member")
        if m: c_values(lhs + "." + m["name"], m["value"], out)
    elif "binary" in v and n in ("integer", "boolean", "unknown", "float"):
        out.append((lhs, int(v["binary"], 2), v.get("type", "")))
    elif n == "boolean":
        out.append((lhs, 1 if str(v.get("data")).upper() == "TRUE" else 0, "bool"))

def get_inputs(trace):
    vals = {}
    for s in trace:
        if s.get("stepType") != "assignment": continue
        l = s.get("lhs", "")
        if l == "in" or l.startswith("in.") or l.startswith("in["):
            l = re.sub(r"\[(\d+)[uUlL]*\]", r"[\1]", l)
            tmp = []
            c_values(l, s.get("value", {}), tmp)
            for k, x, t in tmp:
                if "$pad" in k: continue
                vals[k] = x
    return vals

NATIVE = {}
NLOCK = threading.Lock()
def native_objs(wd, san=True):
    """(ASan) objects of all of /repo's sources except main.c"""
    with NLOCK: return native_objs_(wd, san)
def native_objs_(wd, san):
    if san in NATIVE: return NATIVE[san]
    files = [f for f in sorted(glob.glob(SRC + "/*.c") + glob.glob(SRC + "/*/*.c") + glob.glob(SRC + "/graphics/pc/*.c"))
             if not f.endswith("/source/main.c") and not f.endswith("opengl_test.c")]
    def one(f):
        out = f"{wd}/n{int(san)}_" + os.path.relpath(f, SRC).replace("/", "__") + ".o"
        rc, o, e = sh(["gcc", "-g", "-O0" if san else "-O1", "-w", *(SAN if san else []), *CPP, "-c", f, "-o", out], 120, mem=64)
        return rc, e, out
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, files))
    bad = [e for rc, e, o in res if rc != 0]
    if bad: raise RuntimeError("native compile failed: " + bad[0][-800:])
    NATIVE[san] = [o for _, _, o in res]
    return NATIVE[san]

def shn(cmd, timeout, cwd=None):
    t = max(1, min(timeout, left()))
    try:
        env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_abort=0"
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=t, env=env, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"

def replay(u, wd, pid, vals, prop, desc, raw, extra):
    """build + run the native replay. -> (confirmed, path)"""
    rd = f"{VERIF}/replays/{pid}/{u.name}"
    shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
    with open(rd + "/load.inc", "w") as f:
        f.write("void v_load(void){\n")
        for k, x in vals.items():
            f.write(f"\t{k} = {hex(x)}{'ULL' if x > 0xffffffff else 'U'};\n")
        f.write("}\n")
    rel = os.path.basename(u.file)
    with open(rd + "/replay.c", "w") as f:
        f.write(f'// counterexample of obligation {prop} ({desc}) of unit {u.name}\n#include "{rel}"\n#include "load.inc"\n')
    defs = ["-DV_REPLAY", *u.defs, *extra]
    with open(rd + "/obligation.json", "w") as f:
        json.dump({"property": pid, "unit": u.name, "target": u.target, "obligation": prop, "clause": desc,
                   "inputs": {k: x for k, x in vals.items() if x}, "verifier": raw}, f, indent=1)
    with open(rd + "/run.sh", "w") as f:
        f.write("#!/bin/bash\n# rebuilds the replay against /repo's current tree and runs it: exit 1 = violated\n"
                f"cd \"$(dirname \"$0\")\" && T=$(mktemp -d) && trap 'rm -rf \"$T\"' EXIT\n"
                f"gcc -g -O0 -w {' '.join(SAN)} {' '.join(CPP)} {' '.join(defs)} -DV_HARNESS={u.harness} replay.c {VERIF}/lib/replay_main.c "
                f"$(ls {SRC}/*.c {SRC}/*/*.c {SRC}/graphics/pc/*.c | grep -v -e source/main.c -e opengl_test) -o $T/r {' '.join(LIBS)} || exit 3\n"
                "cd $T && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./r; rc=$?; [ $rc = 0 ] && exit 0; [ $rc = 77 ] && exit 77; exit 1\n")
    os.chmod(rd + "/run.sh", 0o755)
    try:
        objs = native_objs(wd)
    except Exception as ex:
        return None, rd + "/obligation.json"
    exe = f"{wd}/rp_{u.name}"
    rc, o, e = shn(["gcc", "-g", "-O0", "-w", *SAN, *CPP, *defs, f"-DV_HARNESS={u.harness}", "-I" + rd, rd + "/replay.c",
                    VERIF + "/lib/replay_main.c", *objs, "-o", exe, *LIBS], 120)
    if rc != 0:
        open(rd + "/native.log", "w").write("build failed\n" + e)
        return None, rd + "/obligation.json"
    run = f"{wd}/run_{u.name}"; os.makedirs(run, exist_ok=True)
    rc, o, e = shn([exe], 60, cwd=run)
    open(rd + "/native.log", "w").write(f"exit {rc}\n{o[-4000:]}\n{e[-8000:]}")
    if rc == 77: return False, rd + "/obligation.json"
    if rc == 0: return False, rd + "/obligation.json"
    return True, rd + "/obligation.json"

def search(u, wd, pid, extra, secs=25):
    """look for a failing input of the unit natively, after its proof failed. -> replay dir or None"""
    rd = f"{VERIF}/replays/{pid}/{u.name}"
    os.makedirs(rd, exist_ok=True)
    defs = ["-DV_REPLAY", *u.defs, *extra]
    exe = f"{wd}/sr_{u.name}"; fast = exe + "f"
    run = f"{wd}/srun_{u.name}"; os.makedirs(run + "0", exist_ok=True); os.makedirs(run + "1", exist_ok=True)
    try:
        for x, san in ((exe, True), (fast, False)):
            fl = ["-g", "-O1", "-w", *(SAN if san else []), *CPP]
            rc, o, e = shn(["gcc", *fl, *defs, "-c", u.file, "-o", x + ".o"], 120)
            if rc != 0: return None
            if san:
                rc, o, e = shn(["gdb", "-batch", "-nx", "-ex", f"source {VERIF}/lib/layout.py", x + ".o"], 60)
                lay = re.findall(r"^F (\d+) (\d+) (\d+) ([bi])$", o, re.M)
                if not lay: return None
                open(rd + "/layout.inc", "w").write("".join(f"{{{a}, {b}, {c}, '{k}'}},\n" for a, b, c, k in lay))
            rc, o, e = shn(["gcc", *fl, f"-DV_HARNESS={u.harness}", "-I" + rd, VERIF + "/lib/search_main.c", x + ".o", *native_objs(wd, san), "-o", x, *LIBS], 120)
            if rc != 0: return None
    except RuntimeError: return None
    with ThreadPoolExecutor(2) as ex2:
        rs = list(ex2.map(lambda i: shn([(fast, exe)[i], str(secs), str(i + 1)], secs + 20, cwd=run + str(i)), (0, 1)))
    if VERBOSE: print(f"  search {u.name}: {[r[1].strip()[:120] for r in rs]}", file=sys.stderr)
    hit = None
    for i, (rc, o, e) in enumerate(rs):
        m = re.search(r"FOUND (\d+) size (\d+)", o or "")
        if not m: continue
        rc, o2, e2 = shn([exe, m.group(2), run + str(i) + "/input.bin", "x"], 60, cwd=run + str(i))
        if rc in (0, 77): continue
        shutil.copy(run + str(i) + "/input.bin", rd + "/input.bin"); hit = m; break
    if not hit: return None
    m = hit
    open(rd + "/native.log", "w").write(f"native search: {o}\nexit {rc}\n{o2[-4000:]}\n{e2[-8000:]}")
    with open(rd + "/run.sh", "w") as f:
        f.write("#!/bin/bash\n# rebuilds the unit against /repo's current tree and runs it on the failing input: exit 1 = violated\n"
                f"cd \"$(dirname \"$0\")\" && R=$PWD && T=$(mktemp -d) && trap 'rm -rf \"$T\"' EXIT\n"
                f"gcc -g -O0 -w {' '.join(SAN)} {' '.join(CPP)} {' '.join(defs)} -c {u.file} -o $T/u.o && gcc -g -O0 -w {' '.join(SAN)} {' '.join(CPP)} -I. -DV_HARNESS={u.harness} {VERIF}/lib/search_main.c $T/u.o "
                f"$(ls {SRC}/*.c {SRC}/*/*.c {SRC}/graphics/pc/*.c | grep -v -e source/main.c -e opengl_test) -o $T/r {' '.join(LIBS)} || exit 3\n"
                f"cd $T && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./r {m.group(2)} $R/input.bin x; rc=$?; [ $rc = 0 ] && exit 0; [ $rc = 77 ] && exit 77; exit 1\n")
    os.chmod(rd + "/run.sh", 0o755)
    return rd

def attempt(u, wd, pid, repo_gb, mode, extra, drop, unwind, timeout, solver=None):
    """one verification attempt. -> dict(verdict=proved|failed|undecided, ...)"""
    try:
        gb = build_unit(u, wd, repo_gb, mode, extra, drop)
    except RuntimeError as ex:
        return {"verdict": "undecided", "why": str(ex), "t": 0}
    tt = 0
    for k in range(4):
        r = run_cbmc(u, gb, unwind, timeout, solver=solver)
        tt += r["t"]
        if r["status"] != "ok":
            return {"verdict": "undecided", "why": r.get("msg", r["status"]), "t": tt, "unwind": unwind}
        reach_bad, unw, fail, okc, covers = classify(u, r["result"])
        if fail: break
        if unw and unwind < 1200:
            unwind = unwind * 3; continue
        break
    base = {"t": tt, "unwind": unwind, "ok": okc, "n": okc + len(fail) + len(unw), "covers": covers, "gb": gb, "solver": solver or u.solver, "msgs": r["msgs"]}
    if fail: return {**base, "verdict": "failed", "fail": fail}
    if unw: return {**base, "verdict": "undecided", "why": "unwinding assertion at " + str(unwind)}
    if covers == 0 or okc == 0 or reach_bad:
        return {**base, "verdict": "undecided", "why": f"vacuous: reach={reach_bad} obligations={okc}"}
    return {**base, "verdict": "proved"}

def rank(f):
    p, d = f["property"], f.get("description", "")
    if d.startswith("ENS:") or ".postcondition" in p: return 0
    if "assertion" in p: return 1
    if ".assigns" in p: return 3
    return 2

def clause(u, f):
    m = re.search(r"\.postcondition\.(\d+)", f["property"])
    if m and int(m.group(1)) in u.clauses: return "ensures: " + u.clauses[int(m.group(1))]
    return f.get("description", "")

def confirm(u, wd, pid, a, extra, tries=3):
    """replay the counterexamples of a failed attempt natively"""
    path = None; first = None
    for f in sorted(a["fail"], key=rank)[:tries]:
        r = run_cbmc(u, a["gb"], a["unwind"], u.timeout, ["--trace", "--property", f["property"]], solver=a.get("solver"))
        tr = None
        if r["status"] == "ok":
            for x in r["result"]:
                if x["property"] == f["property"] and "trace" in x: tr = x["trace"]
        vals = get_inputs(tr) if tr else {}
        loc = f.get("sourceLocation", {})
        raw = {"property": f["property"], "description": f.get("description"), "status": f["status"],
               "location": f"{loc.get('file')}:{loc.get('line')} in {loc.get('function')}", "all_failed": [x["property"] + ": " + x.get("description", "") for x in a["fail"]]}
        okk, path = replay(u, wd, pid, vals, f["property"], clause(u, f), raw, extra)
        if first is None: first = (f, path)
        if okk: return True, f, path
    return False, first[0], first[1]

def do_unit(u, wd, pid, repo_gb):
    t = time.time()
    try:
        r = do_unit2(u, wd, pid, repo_gb)
    except Exception as ex:
        import traceback
        r = {"verdict": "error", "why": traceback.format_exc()[-1500:]}
    r["wall"] = time.time() - t
    if "--keep" not in sys.argv:
        for f in glob.glob(f"{wd}/{u.name}-*"): os.unlink(f)
    if VERBOSE:
        print(f"[{u.name}] {r['verdict']} {r.get('detail','')} {r.get('why','')[:700]} n={r.get('n')} t={r['wall']:.1f}s", file=sys.stderr)
    return r

def do_unit2(u, wd, pid, repo_gb):
    if u.helper and u.target not in SYMS:
        return {"verdict": "skipped", "why": f"{u.target} no longer exists; its callers are verified with its code inlined"}
    lab = {"dfcc": "contract enforced (dfcc)", "plain": "contract asserted (plain)"}
    u.replace = [r for r in u.replace if r in SYMS]
    u.never = [r for r in u.never if r in SYMS]
    u.stub = [r for r in u.stub if r in SYMS]
    a = attempt(u, wd, pid, repo_gb, u.mode, [], (), u.unwind, u.timeout)
    if a["verdict"] == "undecided" and a.get("why") == "timeout" and u.alt:
        a = attempt(u, wd, pid, repo_gb, u.mode, [], (), u.unwind, u.timeout, solver=u.alt)
    if a["verdict"] == "proved":
        return {**a, "detail": ("bounded: " + u.bounded) if u.bounded else lab[u.mode]}
    if a["verdict"] == "failed":
        ok, f, path = confirm(u, wd, pid, a, [])
        if ok: return {**a, "verdict": "violated", "obl": f, "path": path, "confirmed": True}
        if search(u, wd, pid, []):
            return {**a, "verdict": "violated", "obl": f, "path": path, "confirmed": True}
        # unconfirmed: retry with the callee code in place of stubs/contracts/never-bodies
    if u.replace or u.never or u.stub or u.fb:
        ex = u.fb or []
        b = attempt(u, wd, pid, repo_gb, "plain", ex, tuple(u.replace + u.never + u.stub) or ("-",), u.fbunwind, u.timeout, solver="cadical")
        if VERBOSE: print(f"  fallback {u.name}: {b['verdict']} {b.get('why','')[:200]} {[x['property'] for x in b.get('fail',[])][:8]} t={b['t']:.0f}", file=sys.stderr)
        if b["verdict"] == "failed":
            ok, f2, path2 = confirm(u, wd, pid, b, ex)
            if ok: return {**b, "verdict": "violated", "obl": f2, "path": path2, "confirmed": True}
            if a["verdict"] != "failed": return {**b, "verdict": "violated", "obl": f2, "path": path2, "confirmed": False}
        if b["verdict"] == "proved" and not u.fb:
            return {**b, "detail": "contract asserted (plain), callee code inlined"}
        if b["verdict"] == "proved" and a["verdict"] == "undecided":
            return {**b, "verdict": "bounded", "detail": "bounded stand-in " + " ".join(ex) + "; full proof undecided: " + a.get("why", "")[:200]}
        if b["verdict"] == "proved" and a["verdict"] == "failed" and all(rank(x) == 3 for x in a["fail"]):
            return {**b, "verdict": "bounded", "detail": "bounded stand-in; frame obligation undischarged"}
    if a["verdict"] == "failed":
        if all(rank(x) == 3 for x in a["fail"]):
            return {**a, "verdict": "undischarged", "why": "only frame obligations fail and the native replay shows no changed byte: " + a["fail"][0]["property"]}
        return {**a, "verdict": "violated", "obl": f, "path": path, "confirmed": False}
    if a["verdict"] == "undecided":
        rd = search(u, wd, pid, [])
        if rd:
            with open(rd + "/obligation.json", "w") as fo: json.dump({"property": pid, "unit": u.name, "target": u.target, "obligation": "unit undecided: " + a.get("why", "")[:300], "input": "input.bin"}, fo)
            return {**a, "verdict": "violated", "obl": {"property": "unit " + u.name, "description": "undecided by the verifier; failing input found natively"}, "path": rd + "/obligation.json", "confirmed": True}
    return a

def known():
    kf = {}
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) unit=(\w+) obligation=(\S+) (.*)", l)
            if m: kf.setdefault(m.group(1), []).append(m.groups()[1:])
    return kf

def main():
    global SYMS
    pid = sys.argv[1]
    only = [a.split("=")[1] for a in sys.argv if a.startswith("--unit=")]
    units = [u for u in load_units(pid) if (TIER == "thorough" or u.tier == "quick") and (not only or u.name in only)]
    if not units: print("no units"); return 2
    wd = tempfile.mkdtemp(prefix=f"sbcv_{pid}_")
    if "--search" in sys.argv: # self-test of the harnesses: no input of any unit may fail natively on a tree where the proof holds
        with ThreadPoolExecutor(3) as ex: res = list(ex.map(lambda u: search(u, wd, pid, [], 8), units))
        for u, r in zip(units, res):
            if r: print("FAILS NATIVELY", u.name, r); print(open(r + "/native.log").read()[:600])
        shutil.rmtree(wd, ignore_errors=True)
        return 0
    try:
        repo_gb = compile_repo(wd)
        SYMS = {k for k, v in symbols(repo_gb).items() if v}
        if not SYMS: raise RuntimeError("no functions in the linked goto binary")
        units.sort(key=lambda u: -u.timeout)
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "7"))) as ex:
            res = list(ex.map(lambda u: do_unit(u, wd, pid, repo_gb), units))
    finally:
        if "--keep" in sys.argv: print("kept", wd, file=sys.stderr)
        else: shutil.rmtree(wd, ignore_errors=True)
    viol, err, kf = [], [], known().get(pid, [])
    for u, r in zip(units, res):
        if r["verdict"] == "violated": viol.append((u, r))
        elif r["verdict"] in ("undecided", "error", "undischarged"): err.append((u, r))
    proved = [(u, r) for u, r in zip(units, res) if r["verdict"] == "proved"]
    full = [(u, r) for u, r in proved if not u.bounded]
    bnd = [(u, r) for u, r in zip(units, res) if r["verdict"] == "bounded" or (r["verdict"] == "proved" and u.bounded)]
    ev = {"property": pid, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "0")), "level": "proof",
          "coverage": {
              "obligations": sum(r.get("n", 0) for r in res), "discharged": sum(r["ok"] for _, r in full),
              "discharged_bounded_only": sum(r["ok"] for _, r in bnd),
              "checker_cmd": "goto-cc | goto-instrument --dfcc h --enforce-contract f | " + " ".join(cbmc_cmd(units[0], "unit.gb", 8)),
              "back_end": "cbmc 6.11.0 verification conditions; " + ", ".join(sorted({r.get("solver", u.solver) for u, r in zip(units, res)})),
              "solver_time_s": round(sum(r.get("t", 0) for r in res), 1),
              "vacuity_probes_failed_as_required": sum(r.get("covers", 0) for r in res),
              "functions_under_contract": sorted({c for u, r in full for c in u.covers if c}),
              "functions_bounded_only": sorted({c for u, r in bnd for c in u.covers if c} - {c for u, r in full for c in u.covers if c}),
              "units": [{"unit": u.name, "enforces": u.enforce, "callee_contracts_used": u.replace + u.stub, "mode": r.get("detail", u.mode), "verdict": r["verdict"],
                         "back_end": r.get("solver", u.solver), "obligations": r.get("n", 0), "discharged": r.get("ok", 0), "unwind": r.get("unwind"), "time_s": round(r["wall"], 1),
                         "statement": u.desc, **({"why": r["why"][:400]} if r.get("why") else {})} for u, r in zip(units, res)],
              "trusted_base": ["CBMC/goto-cc C semantics for x86_64 (gcc ABI)", "CaDiCaL", "CBMC's libc models (memcpy, memset, strlen, printf, abort)",
                               "the contract texts in /verif/units", "unit preconditions (valid interpreter state as set up by the units)"]},
          "assumptions": ["signed overflow and shifts of negative values are computed as gcc does (two's complement); they are not reported as errors",
                          "single-threaded execution: the render thread is not modelled",
                          "functions not listed are unverified"],
          "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    rc = 0
    for u, r in viol:
        ob = r["obl"]["property"]
        hit = [k for k in kf if k[0] == u.name and k[1] == ob]
        if hit and len(r["fail"]) == 1:
            print(f"KNOWN-FINDING: property={pid} {hit[0][2]}"); continue
        rc = 1
        print(f"failed obligation {ob} of unit {u.name}: {clause(u, r['obl'])}")
        print(f"VIOLATION property={pid} replay={r['path']}" + ("" if r["confirmed"] else " no-failing-input-found"))
    for u, r in err:
        print(f"UNDECIDED unit {u.name}: {r.get('why','')[:600]}")
    if rc == 0 and err: rc = 2
    for u, r in zip(units, res):
        if r["verdict"] == "skipped": print(f"skipped {u.name}: {r['why']}")
    print(f"{pid}: {len(full)} units proved, {len(bnd)} bounded, {len(viol)} violated, {len(err)} undecided, "
          f"{ev['coverage']['discharged']} obligations discharged in {ev['wall_s']}s")
    return rc

if __name__ == "__main__":
    sys.exit(main())
