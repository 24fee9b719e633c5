#!/usr/bin/env python3
"""Decides one property: builds the harnesses from /repo's current tree, executes them symbolically,
replays every counterexample on the native build, writes evidence/<id>.json.

  run.py P01 [--tier quick|thorough] [--jobs N] [--only SUBSTR]
  run.py --replay FILE
  run.py --build
Exit: 0 held on everything explored (INCOMPLETE lines and the evidence name instances not explored to
the end; none on the unchanged tree), 1 violated (VIOLATION line), 2 no answer.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import subprocess
import threading
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(V, "work")
TARGET = os.path.join(WORK, "target")
SYMX = os.path.join(V, "symx", "target", "release", "symx")
NATIVE = os.path.join(WORK, "native")
NATIVE_TH = os.path.join(WORK, "native-threads")
LL = os.path.join(WORK, "harness.ll")
sys.path.insert(0, V)
import checks as C  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def build():
    os.makedirs(WORK, exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    r = sh(["cargo", "+stable", "build", "--release", "--offline"], cwd=os.path.join(V, "symx"), env=env)
    if r.returncode:
        die(r.stdout + "\nINCONCLUSIVE: the executor does not build")
    env["RUSTFLAGS"] = "--cfg verif_hooks -A warnings"
    env["CARGO_TARGET_DIR"] = TARGET
    pat = os.path.join(TARGET, "release", "deps", "harness-*.harness.*-cgu.0.rcgu.bc")

    def compile_():
        return sh(["cargo", "+stable", "rustc", "--release", "--offline", "--", "-C", "save-temps"],
                  cwd=os.path.join(V, "harness"), env=env)
    r = compile_()
    bcs = [b for b in glob.glob(pat)]
    if r.returncode == 0 and len(bcs) != 1:
        # stale or missing intermediate files: rebuild the harness from scratch
        for f in glob.glob(os.path.join(TARGET, "release", "deps", "*harness-*")) + glob.glob(os.path.join(TARGET, "release", ".fingerprint", "harness-*", "*")):
            os.remove(f)
        r = compile_()
        bcs = glob.glob(pat)
    if r.returncode or len(bcs) != 1:
        die(r.stdout[-6000:] + "\nINCONCLUSIVE: the harnesses do not build against this tree")
    for f in glob.glob(os.path.join(TARGET, "release", "deps", "*.no-opt.bc")) + glob.glob(os.path.join(TARGET, "release", "deps", "*.lto.*.bc")):
        os.remove(f)
    bc = bcs[0]
    stamp = LL + ".stamp"
    rt = os.path.join(V, "replay", "rt.c")
    key = hashlib.sha256(open(bc, "rb").read() + open(rt, "rb").read()).hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(NATIVE) and os.path.exists(LL)):
        root = sh(["rustc", "+stable", "--print", "sysroot"]).stdout.strip()
        r = sh([os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis"), bc, "-o", LL])
        if r.returncode:
            die(r.stdout + "\nINCONCLUSIVE: llvm-dis failed")
        scheduling_points(LL)
        if os.path.exists(NATIVE_TH):
            os.remove(NATIVE_TH)
        lib = os.path.join(TARGET, "release", "libharness.a")
        r = sh(["gcc", "-O1", "-w", rt, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-rdynamic", "-o", NATIVE,
                "-lpthread", "-ldl", "-lm"])
        if r.returncode:
            die(r.stdout[-3000:] + "\nINCONCLUSIVE: the native replay binary does not link")
        with open(stamp, "w") as f:
            f.write(key)
    return time.time() - t0


def scheduling_points(ll):
    """a call of the harness's scheduler before every compare-and-swap that takes a lock; printing, which the executor
    skips, does nothing"""
    out, skip = [], False
    for l in open(ll):
        if skip:
            skip = not l.startswith("}")
            continue
        if l.startswith("define ") and re.search(r"5stdio(6_print|7_eprint|6__print|7__eprint)\(", l):
            out.append(l + "  ret void\n}\n")
            skip = True
            continue
        if " cmpxchg " in l and " acquire monotonic" in l and "ptr @" not in l:
            dbg = re.search(r", !dbg !\d+", l)
            out.append("  call void @th_point()%s\n" % (dbg.group(0) if dbg else ""))
        out.append(l)
    with open(ll, "w") as f:
        f.write("".join(out))


def build_threads():
    """the replay binary with the scheduling points, compiled from the same intermediate code"""
    if os.path.exists(NATIVE_TH):
        return
    root = sh(["rustc", "+stable", "--print", "sysroot"]).stdout.strip()
    obj = os.path.join(WORK, "threads.o")
    r = sh([os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llc"), "-O0", "-filetype=obj", "-relocation-model=pic", LL, "-o", obj])
    if r.returncode == 0:
        r = sh(["gcc", "-O1", "-w", os.path.join(V, "replay", "rt.c"), obj, "-rdynamic", "-o", NATIVE_TH, "-lpthread", "-ldl", "-lm"])
    if r.returncode:
        die(r.stdout[-3000:] + "\nINCONCLUSIVE: the native replay binary of the threads does not build")
    os.remove(obj)


def native(entry, params, hexbytes):
    """runs the harness natively: (outcome, message, log, marks)"""
    try:
        r = subprocess.run([NATIVE_TH if entry == "threads" else NATIVE, entry, ",".join(map(str, params)), hexbytes], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=20, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", "no result within 20 s", [], []
    log, marks, last = [], [], ""
    for l in r.stdout.splitlines():
        if l.startswith("LOG "):
            log.append(int(l[4:]))
        elif l.startswith("MARK "):
            marks.append(l[5:])
        elif l.startswith(("CHECK ", "ASSUME", "DONE")):
            last = l
    if last == "DONE":
        return "ok", "", log, marks
    if last.startswith("CHECK"):
        return "check", last[6:], log, marks
    if last == "ASSUME":
        return "assume", "", log, marks
    err = [l for l in r.stderr.splitlines() if l.strip() and "RUST_BACKTRACE" not in l]
    return "crash", " | ".join(err[:3]) or ("exit %d" % r.returncode), log, marks


STOP = threading.Event()


def known_for(known, pid, inst, v=None):
    """the known finding that covers this instance (and violation)"""
    for kf in known:
        if kf["property"] == pid and kf["entry"] == inst["entry"] and re.fullmatch(kf["params"], ",".join(map(str, inst.get("params", [])))) \
                and (v is None or kf["what"] == v["msg"] and kf.get("at", "") in v["at"]):
            return kf
    return None


def run_instance(inst, out, tmax, extra):
    entry, params = inst["entry"], inst.get("params", [])
    cmd = [SYMX, "--ll", LL, "--entry", entry, "--out", out, "--params", ",".join(map(str, params)),
           "--max-time", str(tmax), "--samples", "6"] + (["--max-steps", "100000000"] if inst.get("long") else []) + extra
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    try:
        with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) as p:
            while True:
                try:
                    tail = p.communicate(timeout=2)[0][-800:]
                    break
                except subprocess.TimeoutExpired:
                    if STOP.is_set() or time.time() - t0 > tmax + 60:
                        p.kill()
                        p.communicate()
                        if STOP.is_set():
                            return {"errors": ["ended early: a violation was found elsewhere"], "violations": [], "wall_s": time.time() - t0}
                        tail = "timeout"
                        break
    except OSError as e:
        tail = str(e)
    if not os.path.exists(out):
        return {"errors": ["executor ended without a result: " + tail], "violations": [], "wall_s": time.time() - t0}
    return json.load(open(out))


def demangle(names):
    # Rust v0 symbols: keep the path components that matter to a reader
    res = set()
    for n in names:
        if "quic_sea" in n or "quic-sea" in n:
            parts = re.findall(r"(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n)
            path = []
            for num, ident in parts:
                k = int(num)
                if k <= len(ident):
                    path.append(ident[:k])
            if "quic_sea" in path:
                res.add("::".join(path[path.index("quic_sea"):][:6]))
    return sorted(res)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        lock = open(os.path.join(V, ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        print("built in %.1f s" % build())
        return 0
    if a and a[0] == "--replay":
        lock = open(os.path.join(V, ".lock"), "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        build()
        r = json.load(open(a[1]))
        if r["entry"] == "threads":
            build_threads()
        o, m, log, marks = native(r["entry"], r["params"], r["bytes"])
        print("%s %s: %s %s" % (r["entry"], r["params"], o, m))
        return 1 if o in ("check", "crash", "hang") else 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = os.cpu_count() or 4
    only = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--jobs":
            jobs = int(a[i + 1])
        elif a[i] == "--only":
            only = a[i + 1]
        i += 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    prop = C.PROPERTIES[pid]
    lock = open(os.path.join(V, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_s = build()
    if any(x["entry"] == "threads" for x in prop["instances"]):
        build_threads()
    # keep our own copy: another check may rebuild
    fcntl.flock(lock, fcntl.LOCK_UN)
    insts = [x for x in prop["instances"] if tier == "thorough" or not x.get("thorough")]
    if only:
        insts = [x for x in insts if only in x["entry"] + str(x.get("params", []))]
    outdir = os.path.join(WORK, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(os.path.join(outdir, "*")):
        if os.path.isfile(f):
            os.remove(f)
    budget = 600 if tier == "quick" else 3 * 3600
    dumpdir = os.path.join(outdir, "smt")
    extra = []
    if tier == "thorough":
        os.makedirs(dumpdir, exist_ok=True)

    def job(k):
        inst = insts[k]
        left = budget - (time.time() - t0)
        if left < 5:
            return k, {"errors": ["time budget exhausted before this instance"], "violations": [], "wall_s": 0}
        if STOP.is_set():
            return k, {"errors": ["not run: a violation was found elsewhere"], "violations": [], "wall_s": 0}
        ex = ["--after-viol", "100000"] if known_for(known, pid, inst) else []
        if tier == "thorough":
            d = os.path.join(dumpdir, str(k))
            os.makedirs(d, exist_ok=True)
            ex += ["--dump", d]
        r = run_instance(inst, os.path.join(outdir, "%03d.json" % k), left, ex)
        for v in r.get("violations", []):
            if STOP.is_set() and v["kind"] == "suspect":
                continue
            v["native"] = native(inst["entry"], inst.get("params", []), v["bytes"])[:2]
            if v["native"][0] in ("check", "crash", "hang") and not known_for(known, pid, inst, v):
                STOP.set()
                break
        return k, r

    known = json.load(open(os.path.join(V, "known-findings.json")))["known"]
    results = [None] * len(insts)
    order = sorted(range(len(insts)), key=lambda k: -insts[k].get("cost", 1))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, r in ex.map(job, order):
            results[k] = r

    problems, incomplete, violations, known_hits = [], [], [], set()
    finished = 0
    validated = mismatched = 0
    totals = dict.fromkeys(["paths", "infeasible", "forks", "instructions", "queries", "cache_hits", "sat", "unsat", "checks",
                            "checks_trivial", "byte_domain"], 0)
    solver_s = 0.0
    maxq = 0.0
    covers, check_names, lines, fns = {}, {}, set(), set()
    per, samples = [], []
    unconfirmed = []
    for inst, r in zip(insts, results):
        name = "%s(%s)" % (inst["entry"], ",".join(map(str, inst.get("params", []))))
        for e in r.get("errors", []):
            incomplete.append("%s: %s" % (name, e))
        finished += not r.get("errors")
        for k in totals:
            totals[k] += r.get(k, 0)
        solver_s += r.get("solver_s", 0)
        maxq = max(maxq, r.get("max_query_s", 0))
        for d, s in ((covers, "covers"), (check_names, "check_names")):
            for k, v in r.get(s, {}).items():
                d[k] = d.get(k, 0) + v
        lines |= {l for l in r.get("lines", []) if l.startswith("/repo/")}
        fns |= set(demangle(r.get("functions", [])))
        if not r.get("errors"):
            for want in inst.get("covers", []):
                if want not in r.get("covers", {}) and not r.get("violations"):
                    problems.append("%s: vacuous, never reached: %s" % (name, want))
        for s in r.get("samples", []):
            o, m, log, marks = native(inst["entry"], inst.get("params", []), s["bytes"])
            if o == "ok" and log == s["log"] and marks == s["marks"]:
                validated += 1
            else:
                mismatched += 1
                problems.append("%s: native run differs on %s: %s %s" % (name, s["bytes"], o, m))
        if r.get("samples"):
            s = r["samples"][-1]
            samples.append({"instance": name, "bytes": s["bytes"][:200], "reached": s["marks"][:6]})
        for v in r.get("violations", []):
            if "native" not in v:
                continue
            o, m = v["native"]
            ok = o in ("check", "crash", "hang")
            rec = {"property": pid, "entry": inst["entry"], "params": inst.get("params", []), "bytes": v["bytes"],
                   "kind": v["kind"], "what": v["msg"], "at": v["at"], "trace": v["trace"], "native": o + " " + m}
            if not ok and v["kind"] == "suspect":
                continue
            if not ok and v["kind"] == "hang":
                incomplete.append("%s: a path longer than the instruction limit" % name)
                finished -= not r.get("errors")
                continue
            if not ok:
                unconfirmed.append(rec)
                continue
            hit = known_for(known, pid, inst, v)
            if hit:
                known_hits.add(hit["text"])
            else:
                violations.append(rec)
        per.append({"instance": name, "bound": inst.get("bound", ""), "paths": r.get("paths", 0), "queries": r.get("queries", 0),
                    "solver_s": r.get("solver_s", 0), "wall_s": round(r.get("wall_s", 0), 2)})

    cross = None
    if tier == "thorough":
        cross = crosscheck(dumpdir, jobs)
        if cross["disagree"]:
            problems.append("second solver disagrees on %d queries" % cross["disagree"])

    for rec in unconfirmed:
        problems.append("counterexample not confirmed natively: %s(%s) %s bytes=%s native=%s" % (
            rec["entry"], ",".join(map(str, rec["params"])), rec["what"], rec["bytes"], rec["native"]))

    cov = {
        "states": totals["paths"] + totals["forks"],
        "transitions": totals["instructions"],
        "traces_validated_against_impl": validated,
        "paths": totals["paths"],
        "rule": "a state is one symbolic state (end or branching point of a feasible path through the compiled library and harness), a "
                "transition is one IR instruction executed symbolically; a trace is a solver model of a complete path run on the native "
                "build with the same outcome, observations and reached situations; assertions are decided on every path by the SMT solver",
        "samples": samples[:8],
        "exhaustive": not problems and not incomplete and not violations,
        "instances_finished": finished,
        "incomplete": incomplete[:20],
        "explanation": prop["about"],
        "bounds": prop["bounds"],
        "instances": per,
        "functions_encoded": sorted(fns),
        "repo_lines_executed": len(lines),
        "repo_files": {f: sum(1 for l in lines if l.startswith(f)) for f in sorted({l.rsplit(":", 1)[0] for l in lines})},
        "assertions_decided": totals["checks"],
        "assertions_folded": totals["checks_trivial"],
        "branches_decided_by_byte_enumeration": totals["byte_domain"],
        "assertion_names": check_names,
        "situations_reached": covers,
        "queries_discharged": totals["queries"],
        "query_cache_hits": totals["cache_hits"],
        "sat": totals["sat"],
        "unsat": totals["unsat"],
        "solver_s": round(solver_s, 2),
        "max_query_s": round(maxq, 3),
        "infeasible_branches": totals["infeasible"],
        "native_replays_differing": mismatched,
        "build_s": round(build_s, 1),
        "solver": next((r.get("solver") for r in results if r and r.get("solver")), ""),
        "problems": problems[:20],
    }
    if cross:
        cov["second_solver"] = cross
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C.LEVEL, "coverage": cov,
          "assumptions": C.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s: %d instances, %d paths, %d assertions, %d queries (%.1f s solver), %d native replays agree, %.1f s" % (
        pid, len(insts), totals["paths"], totals["checks"], totals["queries"], solver_s, validated, time.time() - t0))
    if violations:
        rd = os.path.join(WORK, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, rec in enumerate(violations[:5]):
            p = os.path.join(rd, "%s-%d.json" % (pid, n))
            with open(p, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s(%s): %s %s at %s; native: %s" % (rec["entry"], ",".join(map(str, rec["params"])), rec["kind"], rec["what"], rec["at"], rec["native"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if finished * 2 < len(insts):
        problems.append("most instances did not finish")
    for p in incomplete[:10]:
        print("INCOMPLETE (not explored to the end, nothing found in the explored part): " + p)
    if problems:
        for p in problems[:10]:
            print("INCONCLUSIVE: " + p)
        return 2
    return 0


def crosscheck(d, jobs):
    """re-decides the dumped queries with cvc5"""
    files = glob.glob(os.path.join(d, "*", "*.smt2"))
    res = {"solver": "cvc5", "queries": len(files), "agree": 0, "disagree": 0, "unknown": 0}

    def one(f):
        want = open(f).readline().split()[-1]
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
            got = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "unknown"
        except subprocess.TimeoutExpired:
            got = "unknown"
        return want, got
    with cf.ThreadPoolExecutor(jobs) as ex:
        for want, got in ex.map(one, files):
            if got == want:
                res["agree"] += 1
            elif got in ("sat", "unsat"):
                res["disagree"] += 1
            else:
                res["unknown"] += 1
    return res


if __name__ == "__main__":
    sys.exit(main())
