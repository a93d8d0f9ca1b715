#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code (engine/symir over LLVM IR + z3).

usage: check.py <property> [--tier quick|thorough] [--only run] [--keep]
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken (confirmed natively).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LLVM = "/usr/lib/llvm-18"
Z3NEW = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"  # z3 5.3; the system's 4.8.12 is the fallback
sys.path.insert(0, HERE)
from props import PROPS

NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_engine():
    """Compile the engine (cached by the hash of its sources)."""
    ed = os.path.join(HERE, "engine")
    srcs = ["expr.cpp", "explore.cpp", "interp.cpp", "rt.cpp", "expr.hpp", "rtcommon.hpp"]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(os.path.join(ed, s), "rb").read())
    tag = h.hexdigest()[:16]
    d = os.path.join(BUILD, "engine-" + tag)
    exe, rt = os.path.join(d, "symir"), os.path.join(d, "rt.bc")
    if os.path.exists(exe) and os.path.exists(rt):
        return exe, rt
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    new = os.path.exists(Z3NEW + "/lib/libz3.so.5.3") and os.path.exists(Z3NEW + "/include/z3.h")
    zinc, zlib = ("-I%s/include" % Z3NEW, "-L%s/lib -l:libz3.so.5.3 -Wl,-rpath,%s/lib" % (Z3NEW, Z3NEW)) if new else ("", "-lz3")
    fl = zinc + " -O2 -fwrapv -std=c++17 -I%s/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS" % LLVM
    cmds = ["g++ %s -c %s/%s.cpp -o %s/%s.o" % (fl, ed, f, tmp, f) for f in ("expr", "explore", "interp")]
    cmds.append("clang++ -std=c++17 -O1 -emit-llvm -c %s/rt.cpp -o %s/rt.bc" % (ed, tmp))
    with ThreadPoolExecutor(4) as ex:
        for c, r in zip(cmds, ex.map(lambda c: sh(c, shell=True), cmds)):
            if r.returncode:
                print("engine build failed: %s\n%s" % (c, r.stdout)); sys.exit(2)
    r = sh("g++ %s/expr.o %s/explore.o %s/interp.o -o %s/symir -L%s/lib -lLLVM-18 %s -lgmpxx -lgmp -lpthread" % (tmp, tmp, tmp, tmp, LLVM, zlib), shell=True)
    if r.returncode:
        print("engine link failed\n" + r.stdout); sys.exit(2)
    if not os.path.exists(d):
        os.rename(tmp, d)
    else:
        shutil.rmtree(tmp)
    return exe, rt

INC = ["-I" + os.path.join(HERE, "include"), "-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(REPO, "include"), "-DFLUX_CONTAINER_xtensor"]
BCFLAGS = ["-std=c++17", "-fno-pic", "-fno-pie", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG", "-DVP_SYMBOLIC"]

def compile_bc(run, wd, rt):
    o, bc = os.path.join(wd, run["name"] + ".o.bc"), os.path.join(wd, run["name"] + ".bc")
    r = sh(["clang++", run.get("opt", "-O2")] + BCFLAGS + INC + run.get("defs", []) + ["-emit-llvm", "-c", os.path.join(HERE, "harness", run["src"]), "-o", o])
    if r.returncode:
        return None, r.stdout
    r = sh([LLVM + "/bin/llvm-link", o, rt, "-o", bc])
    if r.returncode:
        return None, r.stdout
    os.unlink(o)
    return bc, ""

VARIANTS = {
    "plain": ["-O0", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,shift,signed-integer-overflow", "-fno-sanitize-recover=undefined", "-DNDEBUG"],
    "pattern": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-DNDEBUG"],
}
def compile_native(run, wd, variant):
    exe = os.path.join(wd, run["name"] + "." + variant)
    if os.path.exists(exe):
        return exe, ""
    tmp = exe + ".tmp%d" % threading.get_ident()
    r = sh(["clang++", "-std=c++17", "-ffp-contract=off"] + VARIANTS[variant] + INC + run.get("defs", []) + [os.path.join(HERE, "harness", run["src"]), os.path.join(HERE, "include", "native_rt.cpp"), "-o", tmp] + run.get("libs", []) + ["-lfmt"])
    if r.returncode == 0: os.rename(tmp, exe)
    return (exe, "") if r.returncode == 0 else (None, r.stdout)

def native_run(exe, inputs, wd, tag, timeout=60, env=None):
    f = os.path.join(wd, "in_%s.txt" % tag)
    with open(f, "w") as fh:
        for n, v in inputs:
            fh.write("%s %s\n" % (n, v))
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"})
    e.update(env or {})
    try:
        r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return "timeout", out.decode(errors="replace") if isinstance(out, bytes) else out, ""

def confirm(v, run, wd):
    """Replay a solver counterexample on the real code; returns a description if it reproduces, else None."""
    order = ["asan", "plain", "pattern"] if v["kind"] in ("memory", "unreachable", "arith") else ["plain", "asan", "pattern"]
    to = 30
    for var in order:
        exe, err = compile_native(run, wd, var)
        if not exe:
            return None, "native build failed: " + err[-400:]
        for env in ([{}] if var != "pattern" else [{"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "1"}]):
            rc, out, err = native_run(exe, v["inputs"], wd, "cex", timeout=to, env=env)
            m = re.findall(r"ASSERT-FAILED .*", out)
            if m:
                return "%s: %s" % (var, "; ".join(m[:4])), ""
            if rc == "timeout" and v["kind"] == "hang":
                return "%s: does not terminate within %d s" % (var, to), ""
            if "EXCEPTION" in out and rc == 1:
                return "%s: %s" % (var, re.search(r"EXCEPTION .*", out).group(0)), ""
            if var == "asan" and ("ERROR: AddressSanitizer" in err or "runtime error:" in err):
                m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error:[^\n]*)", err)
                return "%s: %s" % (var, m.group(1)[:300]), ""
            if isinstance(rc, int) and rc < 0:
                return "%s: killed by signal %d" % (var, -rc), ""
    return None, "not reproduced natively"

def close(a, b, exact):
    try:
        x, y = float(a), float(b)
    except ValueError:
        return a == b
    if x != x and y != y:
        return True
    if exact:
        return x == y
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))

def main():
    if "--build-engine" in sys.argv:
        print("engine: %s" % build_engine()[0]); return
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--jobs", type=int, default=NCPU); ap.add_argument("--trace", action="store_true"); ap.add_argument("--first", action="store_true", help="stop at the first run with a violation")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[a.prop]
    t0 = time.time()
    exe, rt = build_engine()
    wd = os.path.join(BUILD, "run-%s-%d" % (a.prop, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    runs = [r for r in P["runs"] if (tier in r.get("tiers", ("quick", "thorough"))) and (not a.only or r["name"] == a.only)]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))).get("findings", []) if k["property"] == a.prop]
    res, viol, unconf, knownhit, errors = [], [], [], [], []
    pool = ThreadPoolExecutor(max(2, NCPU - 1))
    fbc = {r["name"]: pool.submit(compile_bc, r, wd, rt) for r in runs}
    # translation validation: every run of the thorough tier, up to 4 runs (spread over the list) of the quick tier
    val = runs if tier != "quick" or len(runs) <= 4 else [runs[i * len(runs) // 4] for i in range(4)]
    fnat = {r["name"]: pool.submit(compile_native, r, wd, "plain") for r in val}
    validated = disagreements = 0; samples = []
    tot = dict(paths=0, forks=0, instrs=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, inexact=0, engine_fails=0, obligations=0, discharged=0, trivially=0)
    funcs = set(); complete = True
    skipped = []
    for r in runs:
        if viol and (a.first or time.time() - t0 > 400): # the verdict is settled: report it in time
            fbc[r["name"]].cancel(); r["name"] in fnat and fnat[r["name"]].cancel(); skipped.append(r["name"]); complete = False; continue
        bc, err = fbc[r["name"]].result()
        if not bc:
            print("harness %s does not compile against /repo:\n%s" % (r["name"], err[-3000:])); errors.append(r["name"]); continue
        out = os.path.join(wd, r["name"] + ".jsonl")
        tl = r.get("time", {}).get(tier, 150 if tier == "quick" else 3000) if isinstance(r.get("time"), dict) else r.get("time", 150 if tier == "quick" else 3000)
        left = (700 if tier == "quick" else 20000) - (time.time() - t0)
        tl = max(5, min(tl, int(left)))
        cmd = [exe, bc, "--time", str(tl), "--out", out, "--jobs", str(a.jobs), "--seed", str(seed), "--samples", str(r.get("samples", 24)), "--max-instr", str(r.get("max_instr", 300000000))] + (["--fork-real"] if r.get("fork_real") else []) + (["--trace"] if a.trace else [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.trace else subprocess.PIPE, text=True, errors="replace")
        lines = [json.loads(x) for x in open(out, errors="replace") if x.strip().startswith("{")] if os.path.exists(out) else []
        summ = [x for x in lines if x["t"] == "summary"]
        if not summ:
            print("engine failed on %s: %s" % (r["name"], (p.stderr or "")[-1500:])); errors.append(r["name"]); continue
        s = summ[0]
        for k in tot:
            if k in s: tot[k] += s[k]
        asserts = {k: v for k, v in s["ids"].items() if not k.startswith("cover:")}
        covers = {k[6:]: v[0] for k, v in s["ids"].items() if k.startswith("cover:")}
        tot["obligations"] += sum(v[0] for v in asserts.values()); tot["discharged"] += sum(v[1] for v in asserts.values()); tot["trivially"] += sum(v[2] for v in asserts.values())
        funcs.update(f for f in s["functions"] if "samurai::" in f)
        fails = [x for x in lines if x["t"] == "fail"]
        done = s["stop"] == 0 and not fails and s["unknown"] == 0 and s["live"] == 0
        missing = [c for c in r.get("covers", []) if not covers.get(c)]
        vs = [x for x in lines if x["t"] == "violation"]
        seen = {}
        for v in vs:
            if v["id"] in seen: continue
            desc, why = confirm(v, r, wd)
            if desc:
                seen[v["id"]] = 1
                kf = [k for k in known if k["run"] == r["name"] and k["assert"] == v["id"]]
                rec = dict(run=r["name"], id=v["id"], kind=v["kind"], msg=v["msg"], inputs=v["inputs"], at=v["at"], native=desc)
                (knownhit if kf else viol).append(rec)
            else:
                unconf.append(dict(run=r["name"], id=v["id"], kind=v["kind"], msg=v["msg"], inputs=v["inputs"], at=v["at"], why=why))
        # a path the engine could not finish is replayed natively: a failure there is a violation all the same
        seenat = {}
        for f in fails:
            if not f.get("inputs") or seenat.get(f.get("at", ""), 0) >= 2 or len(seenat) > 6: continue
            seenat[f.get("at", "")] = seenat.get(f.get("at", ""), 0) + 1
            desc, why = confirm(dict(kind="limit", inputs=f["inputs"]), r, wd)
            if desc:
                m = re.search(r"ASSERT-FAILED (\S+)", desc)
                vid = m.group(1) if m else "uncaught-exception" if "EXCEPTION" in desc else "memory"
                kf = [k for k in known if k["run"] == r["name"] and k["assert"] == vid]
                (knownhit if kf else viol).append(dict(run=r["name"], id=vid, kind="limit", msg=f["msg"], inputs=f["inputs"], at=f.get("at", ""), native=desc))
                break
        # translation validation: model of some completed paths, observed values engine vs native
        nat, nerr = fnat[r["name"]].result() if r["name"] in fnat else (None, None)
        nv = 0
        if nat:
            for k, smp in enumerate(x for x in lines if x["t"] == "sample"):
                rc, o, e = native_run(nat, smp["inputs"], wd, "smp", timeout=60)
                obs = [l.split()[1] for l in o.splitlines() if l.startswith("OBS ")]
                failed = re.findall(r"ASSERT-FAILED (\S+)", o)
                if failed and not smp["undef"]:
                    kf = [q for q in known if q["run"] == r["name"] and q["assert"] == failed[0]]
                    (knownhit if kf else viol).append(dict(run=r["name"], id=failed[0], kind="assert", msg="native run of a sampled path fails", inputs=smp["inputs"], at="", native="plain: ASSERT-FAILED " + failed[0])); continue
                ok = len(obs) == len(smp["obs"]) and all(close(x, y, s["inexact"] == 0) for x, y in zip(smp["obs"], obs)) and rc == 0
                if smp["undef"] and not ok: continue
                nv += 1
                if not ok:
                    disagreements += 1
                    if disagreements <= 3: print("note: engine/native disagreement in %s: inputs=%s engine=%s native=%s rc=%s" % (r["name"], smp["inputs"], smp["obs"][:40], obs[:40], rc))
                if len(samples) < 12 and k < 3: samples.append(dict(run=r["name"], inputs=smp["inputs"][:60], observed=smp["obs"][:40]))
        elif nerr is not None:
            print("native build failed for %s: %s" % (r["name"], nerr[-800:]))
        validated += nv
        complete = complete and done and not missing
        res.append(dict(run=r["name"], bounds=r.get("bounds", ""), complete=done, paths=s["paths"], forks=s["forks"], instructions=s["instrs"], queries=s["queries"], solver_s=round(s["solver_s"], 2), wall_s=round(s["wall"], 2), unknown=s["unknown"], stop=s["stop"], inexact_real_ops=s["inexact"], undef_branches=s["undef_branches"], max_depth=s["max_depth"], assertions={k: dict(reached=v[0], discharged=v[1], constant=v[2], violated=v[3]) for k, v in asserts.items()}, covers=covers, missing_covers=missing, engine_limits=[f["msg"] + ((" @ " + f.get("at", "")[:300]) if f.get("at") else "") for f in fails[:5]], validated=nv))
        print("run %-28s %s paths=%d forks=%d obligations=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs validated=%d%s%s" % (r["name"], "complete" if done else "INCOMPLETE(stop=%d,fails=%d,unknown=%d)" % (s["stop"], len(fails), s["unknown"]), s["paths"], s["forks"], sum(v[0] for v in asserts.values()), sum(v[1] for v in asserts.values()), s["queries"], s["solver_s"], s["wall"], nv, (" inexact=%d" % s["inexact"]) if s["inexact"] else "", (" MISSING-COVER " + ",".join(missing)) if missing else ""))
        for f in fails[:3]: print("   limit: %s @ %s" % (f["msg"][:300], f.get("at", "")[:600]))
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=seed, level=P.get("level", "model_checking"),
              coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["instrs"], traces_validated_against_impl=validated, samples=samples,
                            obligations=tot["obligations"], discharged=tot["discharged"], discharged_by_simplifier=tot["trivially"], paths=tot["paths"], symbolic_forks=tot["forks"], solver_queries=tot["queries"], solver_sat=tot["sat"], solver_unsat=tot["unsat"], solver_unknown=tot["unknown"], solver_time_s=round(tot["solver_s"], 2), inexact_real_ops=tot["inexact"], engine_native_disagreements=disagreements, runs_skipped_after_violation=skipped,
                            exhaustive=bool(complete and not errors and not viol), functions_encoded=sorted(funcs)[:400], functions_encoded_count=len(funcs), runs=res, unconfirmed_counterexamples=unconf, known_findings=[k["id"] for k in knownhit],
                            rule="states = completed symbolic paths + symbolic forks; transitions = LLVM instructions interpreted; a trace is validated when the model of a completed path, replayed natively on the real code, yields the observations the engine computed"),
              assumptions=P.get("assumptions", []) + ["LLVM IR of clang 18 -O2 from /repo's headers; symbolic doubles are exact reals wherever an operation is not provably exact (inexact_real_ops counts them); bounds as listed per run"],
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {(x["run"], x["id"]): x for x in knownhit}.values():
        kk = [q for q in known if q["run"] == k["run"] and q["assert"] == k["id"]][0]
        print("KNOWN-FINDING: property=%s %s" % (a.prop, kk["what"]))
    for u in unconf[:5]:
        print("UNCONFIRMED (not reported): %s/%s %s | %s | %s | inputs=%s" % (u["run"], u["id"], u["msg"], u["why"], u["at"][:500], u["inputs"][:30]))
    rc = 0
    if viol:
        rc = 1
        rd = os.path.join(HERE, "replays", a.prop); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate({(x["run"], x["id"]): x for x in viol}.values()):
            run = [r for r in runs if r["name"] == v["run"]][0]
            path = os.path.join(rd, "%s-%s.json" % (v["run"], re.sub(r"[^A-Za-z0-9_.-]", "_", v["id"])))
            with open(path, "w") as f:
                json.dump(dict(v, harness=run["src"], defs=run.get("defs", []), how="clang++ -std=c++17 -O1 -I/verif/include -I/verif/stubs -I/repo/include %s /verif/harness/%s /verif/include/native_rt.cpp; run with a file of 'name value' lines (inputs in order)" % (" ".join(run.get("defs", [])), run["src"])), f, indent=1)
            print("  %s %s: %s | native %s | at %s | inputs %s" % (v["run"], v["id"], v["msg"], v["native"], v["at"][:700], v["inputs"][:40]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
    elif errors:
        rc = 2
    if not a.keep:
        shutil.rmtree(wd, ignore_errors=True)
    print("%s tier=%s %s wall=%.1fs" % (a.prop, tier, "VIOLATED" if rc == 1 else "error" if rc else "held (%s)" % ("complete within bounds" if complete else "exploration incomplete"), wall))
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()
