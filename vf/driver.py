#!/usr/bin/env python3
"""Runs the units of one property: compiles the harness with /repo's current
sources to LLVM IR, decides every path with the symbolic engine (8 processes),
replays counterexamples and a sample of completed paths natively, and writes
the evidence file."""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SYMX = os.path.join(VERIF, "build", "symx")
INC = ["vf/include"]
RINC = ["include", "src", "src/coarse", "src/ravl", "src/utils",
        "src/base_alloc", "src/critnib", "src/provider", "src/pool",
        "src/memspaces", "src/memtargets", "src/ctl", "src/memory_targets",
        "src/proxy_lib", "src/ipc", "src/topology", "src/uthash"]
WARN = ["-w"]
LIBC = "vf/models/libc.c"  # symbolic runs only; the native replay uses the real one
CONFIRM = {42: "property violated", 43: "sanitizer report"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          **kw)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.bc = {}
        self.lock = threading.Lock()

def src_path(s):
    if s.startswith("/"):
        return s
    for base in (VERIF, REPO):
        p = os.path.join(base, s)
        if os.path.exists(p):
            return p
    raise FileNotFoundError(s)

def cflags(unit):
    f = ["-I" + os.path.join(VERIF, i) for i in INC]
    f += ["-I" + os.path.join(VERIF, i) for i in unit.get("inc", [])]
    f += ["-I" + os.path.join(REPO, i) for i in RINC]
    f += ["-I" + os.path.join(VERIF, "harness")]
    f += ["-D_GNU_SOURCE", "-DVF_SYMX", "-DVF_ENTRY=vf_entry",
          "-DUMF_VERSION=0", "-DUMF_ALL_CMAKE_VARIABLES=\"\""]
    f += ["-D" + d for d in unit.get("defs", [])]
    return f

def compile_bc(ctx, unit, src, mode):
    """mode: '' symbolic, 'asan' or 'tsan' native"""
    key = (src, tuple(cflags(unit)), mode)
    with ctx.lock:
        ev = ctx.bc.get(key)
        if ev is None:
            ev = ctx.bc[key] = cf.Future()
            mine = True
        else:
            mine = False
    if not mine:
        return ev.result()
    out = os.path.join(ctx.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ".bc")
    san = {"": ["-Xclang", "-disable-O0-optnone", "-fno-vectorize"],
           "asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"]}[mode]
    if mode == "tsan" and src.startswith("vf/"):
        san = []
    if src == LIBC:
        san = san + ["-fno-builtin"]
    if mode and src == LIBC:
        return None
    # the replay may have the model functions of a TU intercepted by name
    r = sh(["clang", "-c", "-emit-llvm", "-g", "-O0"] + san + WARN +
           cflags(unit) + [src_path(src), "-o", out])
    if r.returncode:
        ev.set_exception(RuntimeError("cannot compile %s:\n%s" % (src, r.stderr.decode()[-3000:])))
    else:
        ev.set_result(out)
    return ev.result()

def build_unit(ctx, unit, mode=""):
    srcs = list(unit["srcs"]) + [s for s in [LIBC] if not mode]
    bcs = [b for b in (compile_bc(ctx, unit, s, mode) for s in srcs) if b]
    tag = hashlib.sha1((unit["name"] + mode).encode()).hexdigest()[:12]
    linked = os.path.join(ctx.tmp, tag + ".l.bc")
    # definitions of the harness win over the repo's when 'override' is set
    if unit.get("override"):
        n = unit["override"]
        cmd = ["llvm-link"] + bcs[n:]
        for b in bcs[:n]:
            cmd += ["--override", b]
    else:
        cmd = ["llvm-link"] + bcs
    r = sh(cmd + ["-o", linked])
    if r.returncode:
        raise RuntimeError("link: " + r.stderr.decode()[-2000:])
    if mode:
        return linked
    out = os.path.join(ctx.tmp, tag + ".o.bc")
    r = sh(["opt", "-passes=internalize,globaldce,function(sroa,early-cse,"
            "instsimplify,simplifycfg),globaldce",
            "-internalize-public-api-list=vf_entry", linked, "-o", out])
    if r.returncode:
        raise RuntimeError("opt: " + r.stderr.decode()[-2000:])
    return out

def build_native(ctx, unit, mode="asan"):
    key = ("native", unit["name"], mode)
    with ctx.lock:
        fut = ctx.bc.get(key)
        mine = fut is None
        if mine:
            fut = ctx.bc[key] = cf.Future()
    if not mine:
        return fut.result()
    try:
        linked = build_unit(ctx, unit, mode)
        dce = linked + ".d.bc"
        r = sh(["opt", "-passes=internalize,globaldce",
                "-internalize-public-api-list=vf_entry,__asan_default_options,asan.module_ctor,tsan.module_ctor",
                linked, "-o", dce])
        if r.returncode:
            raise RuntimeError("opt: " + r.stderr.decode()[-2000:])
        linked = dce
        if unit.get("threads"):
            y = linked + ".y.bc"
            r = sh([SYMX, "--yield-atomics", "--instrument", y, "--repo", REPO + "/", linked])
            if r.returncode:
                raise RuntimeError("instrument: " + r.stderr.decode()[-2000:])
            linked = y
        san = {"asan": "-fsanitize=address", "tsan": "-fsanitize=thread"}[mode]
        obj, exe = linked + ".o", linked + ".exe"
        rt = os.path.join(ctx.tmp, "replay_%s_%d.o" % (mode, threading.get_ident()))
        r = sh(["clang", "-c", "-O0", "-w", "-x", "ir", linked, "-o", obj])
        if r.returncode == 0:
            r = sh(["clang", "-c", "-O1", "-g", "-w", san, "-I" + os.path.join(VERIF, "vf/include"),
                    os.path.join(VERIF, "vf/replay/replay.c"), "-o", rt])
        if r.returncode == 0:
            r = sh(["clang", san, obj, rt, "-lm", "-lpthread", "-ldl", "-o", exe])
        if r.returncode:
            raise RuntimeError("native: " + r.stderr.decode()[-2000:])
        fut.set_result(exe)
    except Exception as e:
        fut.set_exception(e)
    return fut.result()

def run_native(ctx, exe, rec, fill=None, timeout=60):
    fn = tempfile.mktemp(dir=ctx.tmp, suffix=".rec")
    write_rec(fn, rec)
    env = dict(os.environ, VF_REPLAY=fn)
    if "msg" in rec and endless(rec):
        env["VF_ENDLESS"] = "1" # go on when the recorded schedule ends
    if fill is not None:
        env["ASAN_OPTIONS"] = "malloc_fill_byte=%d:max_malloc_fill_size=65536" % fill
    try:
        r = sh([exe], env=env, timeout=timeout, cwd=ctx.tmp)
        return r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "replay: does not terminate within %d s" % timeout
    finally:
        os.unlink(fn)

def write_rec(fn, rec):
    with open(fn, "w") as f:
        for d in rec["draws"]:
            f.write("%d\n" % d)
        f.write("sched\n")
        for d in rec.get("sched", []):
            f.write("%d\n" % d)

def run_part(ctx, unit, bc, part, parts, stop):
    out = os.path.join(ctx.tmp, "%s.%d.json" % (hashlib.sha1(unit["name"].encode()).hexdigest()[:12], part))
    budget = unit.get("timeout", 120)
    cmd = [SYMX, "--entry", "vf_entry", "--out", out, "--timeout", str(budget),
           "--parts", str(parts), "--part", str(part),
           "--part-depth", str(unit.get("part_depth", 8)),
           "--seed", str(ctx.seed), "--samples", str(unit.get("samples", 2)),
           "--repo", REPO + "/", "--cross", str(unit.get("cross", 199))]
    if unit.get("threads"):
        cmd += ["--yield-atomics", "--preempt", str(unit.get("preempt", 2))]
        cmd += ["--race"] if unit.get("race", True) else []
    cmd += unit.get("args", []) + os.environ.get("VF_ARGS", "").split() + [bc]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=ctx.tmp)
    t0 = time.time()
    while True:
        try:
            _, err = p.communicate(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set() or time.time() - t0 > budget + 70:
                p.kill()
                p.communicate()
                return {"status": "stopped"}
    if p.returncode or not os.path.exists(out):
        return {"status": "crash", "why": "engine exit %d: %s" % (p.returncode, err.decode(errors="replace")[-800:])}
    return json.load(open(out))

def known_findings():
    r = []
    fn = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(fn):
        r = json.load(open(fn))
    return r

def confirm(ctx, unit, v):
    """replay one counterexample natively; returns (confirmed, text)"""
    text = ""
    race = v["msg"].startswith("data race")
    modes = ["tsan"] if race else (["asan"])
    for mode in modes:
        exe = build_native(ctx, unit, mode)
        for fill in (0xA5, 0, 0xFF, 1):
            rc, err = run_native(ctx, exe, v, fill, 20 if endless(v) else 60)
            text = "exit %s\n%s" % (rc, err[-6000:])
            if rc in (42, 43) or rc < 0 or rc == 124:
                return True, text
            if race or endless(v):
                break
    return False, text

def endless(v):
    return v["msg"].startswith("does not terminate")

def run_property(prop, units, tier, seed, meta):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        return _run(ctx, prop, units, tier, seed, meta, t0)
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(ctx.tmp, ignore_errors=True)

def _run(ctx, prop, units, tier, seed, meta, t0):
    errors, viols, notes, knownhits = [], [], [], []
    res = {}
    known = [k for k in known_findings() if k["property"] == prop and "unit" in k]
    stop = threading.Event()
    pool = cf.ThreadPoolExecutor(8)
    bld = {u["name"]: pool.submit(build_unit, ctx, u) for u in units}
    futs = []
    for u in units:
        try:
            bc = bld[u["name"]].result()
        except Exception as e:
            errors.append("%s: %s" % (u["name"], e))
            continue
        parts = u.get("parts", 1)
        for p in range(parts):
            futs.append((u, p, pool.submit(run_part, ctx, u, bc, p, parts, stop)))
    for u, p, f in futs:
        r = f.result()
        res.setdefault(u["name"], []).append(r)
        if r["status"] == "crash":
            errors.append("%s: %s" % (u["name"], r["why"]))
        for v in r.get("violations", []):
            viols.append((u, v))
            if os.environ.get("VF_FIRST") and not any(k["unit"] == u["name"] for k in known):
                stop.set()  # a mutant is being tried: one answer will do
    # triage: one counterexample per unit is enough
    seen = set()
    confirmed, rejected = [], []
    rdir = os.path.join(VERIF, "build", "replays")
    for u, v in viols:
        if u["name"] in seen:
            continue
        k = next((k for k in known if k["unit"] == u["name"] and k["msg"] in v["msg"]), None)
        try:
            ok, text = confirm(ctx, u, v)
        except Exception as e:
            ok, text = False, str(e)
        if not ok:
            rejected.append((u, v, text))
            continue
        seen.add(u["name"])
        if k:
            knownhits.append(k)
            continue
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, "%s-%s.txt" % (prop, u["name"]))
        with open(fn, "w") as f:
            f.write("property %s, unit %s\nviolated: %s\nat: %s\nstack: %s\ndraws: %s\nschedule: %s\n"
                    "native replay: %s\n" % (prop, u["name"], v["msg"], v["loc"], v["trace"],
                                             v["draws"], v["sched"], text))
        confirmed.append((u, v, fn))
    for u, v, text in rejected:
        if endless(v): # only a long path
            n = "%s: not exhausted: a path is too long at %s" % (u["name"], v["loc"])
            notes += [n] if n not in notes else []
            if os.environ.get("VF_DEBUG"):
                print(v["loc"], v["trace"], text)
            continue
        if u["name"] not in seen:
            errors.append("%s: counterexample did not reproduce natively: %s at %s (%s)\n%s" %
                          (u["name"], v["msg"], v["loc"], v["draws"], text[-200:]))
            seen.add(u["name"])
    # completeness and vacuity
    unitrep = []
    validated = 0
    samples = []
    funcs = {}
    tot = dict(paths=0, forks=0, queries=0, killed=0, instrs=0, asserts=0, solver_s=0.0, cross_checked=0, mem_checks=0, sat=0, unsat=0)
    valjobs = []
    for u in units:
        rs = [r for r in res.get(u["name"], []) if r["status"] in ("ok", "incomplete", "violation")]
        lost = len(res.get(u["name"], [])) - len(rs)
        if not rs:
            if not confirmed and u["name"] in res:
                errors.append("%s: no result" % u["name"])
            continue
        reach = {}
        inc = ["%d parts gave no result" % lost] if lost else []
        for r in rs:
            for k, n in r["reach"].items():
                reach[k] = reach.get(k, 0) + n
            inc += r["incomplete"]
            for k in tot:
                tot[k] += r.get(k, 0)
            for fn in r["functions"]:
                funcs[fn["name"] if isinstance(fn, dict) else fn] = 1
        miss = [t for t in u.get("reach", ["end"]) if not reach.get(t)]
        hasv = any(not endless(v) or u["name"] in seen for r in rs for v in r["violations"])
        if miss and not hasv:
            errors.append("%s: vacuous, never reached: %s%s" % (u["name"], miss, (" (%s)" % "; ".join(sorted(set(inc)))) if inc else ""))
        if inc:
            notes.append("%s: not exhausted: %s" % (u["name"], "; ".join(sorted(set(inc)))))
        unitrep.append({"unit": u["name"], "bounds": u.get("bounds", ""),
                        "exhausted": not inc and not hasv,
                        "paths": sum(r["paths"] for r in rs),
                        "queries": sum(r["queries"] for r in rs),
                        "solver_s": round(sum(r["solver_s"] for r in rs), 2),
                        "reached": reach})
        if not hasv:
            ss = [s for r in rs for s in r["samples"]]
            for s in ss[: u.get("validate", 3 if tier == "quick" else 12)]:
                valjobs.append((u, s))
    def val(job):
        u, s = job
        exe = build_native(ctx, u, "asan")
        last = None
        for fill in (0xA5,):
            rc, err = run_native(ctx, exe, s, fill)
            obs = [int(l.split()[1]) for l in err.splitlines() if l.startswith("observe ")]
            last = (rc, obs == s["obs"], err[:300])
        return last
    if not confirmed:
        for job, f in [(j, pool.submit(val, j)) for j in valjobs]:
            u, s = job
            try:
                rc, same, err = f.result()
            except Exception as e:
                errors.append("%s: native build: %s" % (u["name"], e))
                continue
            if rc == 0 and same:
                validated += 1
                if len(samples) < 4:
                    samples.append({"unit": u["name"], "draws": s["draws"], "sched": s["sched"][:60]})
            else:
                errors.append("%s: native run of a completed path disagrees (exit %s, observations equal: %s) draws %s\n%s" %
                              (u["name"], rc, same, s["draws"], err))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"], "transitions": tot["forks"] + tot["paths"],
              "traces_validated_against_impl": validated,
              "samples": samples or [{"unit": u["name"]} for u in units[:1]],
              "exhaustive": not notes and not errors,
              "explanation": "states: feasible paths of the harness over the real code, each standing for every input that follows it; transitions: solver-decided path segments",
              "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"],
              "infeasible_or_assumed_away": tot["killed"],
              "assertions_checked": tot["asserts"], "memory_accesses_checked": tot["mem_checks"],
              "instructions": tot["instrs"], "solver_s": round(tot["solver_s"], 2),
              "queries_cross_checked_second_solver": tot["cross_checked"],
              "functions_encoded": sorted(funcs), "units": unitrep,
              "not_exhausted": notes, "errors": errors,
              "known_findings": [k["what"] for k in knownhits]},
          "assumptions": meta.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", prop + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + ".tmp", fn)
    for n in notes:
        print("note:", n)
    for k in known:
        if k in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for i, e in enumerate(errors):
        print("error:", e if i == 0 else e[:300])
    print("%s %s: %d units, %d paths, %d queries, %.1f s solver, %d traces validated, %.1f s" %
          (prop, tier, len(units), tot["paths"], tot["queries"], tot["solver_s"], validated, wall))
    for u, v, fn in confirmed:
        print("%s: %s at %s" % (u["name"], v["msg"], v["loc"]))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
    if confirmed:
        return 1
    return 2 if errors else 0
