#!/usr/bin/env python3
"""Decides one property: compiles the real code of /repo with a harness to LLVM
IR, runs the symbolic engine on every entry, replays counterexamples natively.

usage: check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-v]
exit 0 holds within the bounds, 1 violation, 2 undecided.
"""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("RSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
import props  # noqa: E402

INC = [f"-I{REPO}", f"-I{REPO}/common/include", f"-I{REPO}/geometry/include", f"-I{REPO}/pcl/include", "-I/usr/include/eigen3", f"-I{VERIF}/engine"]
IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-gline-tables-only", "-fno-builtin", "-ffp-contract=off",
           "-include", "algorithm", "-include", "numeric", "-include", "limits", "-include", "vector", "-include", "string", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_DONT_VECTORIZE", "-DRSYM_SYMBOLIC=1", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-mno-fma", "-fno-strict-aliasing"]
OPT = "function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,instsimplify,dce)"
OPT_SPEC = "function(sroa,early-cse,simplifycfg<speculate-blocks;hoist-common-insts>,instsimplify,dce)"
OPT_REAL = "function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-speculate-blocks>,instsimplify,dce)"
NCPU = max(2, os.cpu_count() or 4)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class CompileError(Exception):
    pass


def ensure_engine():
    r = sh(["bash", os.path.join(VERIF, "engine", "build.sh")])
    if r.returncode:
        raise CompileError("engine: " + r.stderr[-2000:])


def src(p):
    return p if p.startswith("/") else os.path.join(REPO, p)


def unit_inc(unit):
    return [f"-I{VERIF}/{d}" for d in unit.get("inc", [])]


def compile_ir(unit, wd, tag):
    """-> path of linked, lightly optimised bitcode"""
    files = [os.path.join(VERIF, "harness", unit["harness"])] + [src(s) for s in unit.get("src", [])] + [os.path.join(VERIF, "engine", "runtime.cpp")]
    files += [os.path.join(VERIF, "harness", s) for s in unit.get("irsrc", [])]
    outs = []

    def one(i_f):
        i, f = i_f
        o = os.path.join(wd, f"{tag}_{i}.bc")
        inc = ([] if unit.get("noshadow") else [f"-I{VERIF}/shadow/ir"]) + INC
        r = sh(["clang++-18" if shutil.which("clang++-18") else "clang++"] + IRFLAGS + unit.get("irflags", []) + [f"-I{VERIF}/{d}" for d in unit.get("irinc", [])] + unit_inc(unit) + inc + [f"-D{d}" for d in unit.get("defs", [])] + [f, "-o", o])
        if r.returncode:
            raise CompileError(f"{f}: {r.stderr[-3000:]}")
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, enumerate(files)))
    link = os.path.join(wd, f"{tag}.link.bc")
    r = sh(["llvm-link", "-o", link] + outs)
    if r.returncode:
        raise CompileError("llvm-link: " + r.stderr[-2000:])
    final = os.path.join(wd, f"{tag}.bc")
    keep = sorted({e["entry"] for e in unit["entries"]})
    spec = unit.get("speculate", False)
    args = ["opt", "-passes=internalize,globaldce," + (OPT_SPEC if spec else OPT_REAL if unit.get("opts", {}).get("logic") == "real" else OPT) + ",globaldce", "-internalize-public-api-list=" + ",".join(keep + unit.get("keep", [])), link, "-o", final]
    if spec:
        args += ["-phi-node-folding-threshold=40", "-two-entry-phi-node-folding-threshold=40", "-speculate-one-expensive-inst=true", "-max-speculation-depth=20"]
    r = sh(args)
    if r.returncode:
        raise CompileError("opt: " + r.stderr[-2000:])
    return final


def compile_native(unit, wd, tag, flavor=0):
    files = [os.path.join(VERIF, "harness", unit["harness"])] + [src(s) for s in unit.get("src", [])] + [os.path.join(VERIF, "engine", "native.cpp")]
    files += [os.path.join(VERIF, "harness", s) for s in unit.get("nativesrc", [])]
    fl = ["-std=c++17", "-g0", "-O0", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"]
    if flavor == 1:
        fl = ["-std=c++17", "-g0", "-O0", "-w", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
    if flavor == 2:
        fl = ["-std=c++17", "-g0", "-O0", "-w", "-ftrivial-auto-var-init=zero"]
    objs = []

    def one(i_f):
        i, f = i_f
        o = os.path.join(wd, f"{tag}_n{flavor}_{i}.o")
        r = sh(["g++", "-c"] + fl + unit_inc(unit) + INC + [f"-D{d}" for d in unit.get("defs", [])] + [f, "-o", o])
        if r.returncode:
            raise CompileError(f"native {f}: {r.stderr[-3000:]}")
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, enumerate(files)))
    exe = os.path.join(wd, f"{tag}_native{flavor}")
    r = sh(["g++", "-rdynamic", "-fuse-ld=bfd"] + [f for f in fl if f.startswith("-fsanitize")] + objs + ["-o", exe, "-ldl", "-lboost_filesystem", "-lboost_system"] + unit.get("libs", []))
    if r.returncode:
        raise CompileError("native link: " + r.stderr[-3000:])
    return exe


def native_run(exe, entry, inputs, params, wd, timeout=60, env_extra=None):
    fd, vf = tempfile.mkstemp(dir=wd, suffix=".val")
    with os.fdopen(fd, "w") as f:
        for n, v in inputs:
            f.write(f"{n} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0")
    env.update(env_extra or {})
    try:
        r = subprocess.run([exe, entry, vf] + [f"{k}={v}" for k, v in params.items()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "out": "", "err": "", "obs": []}
    out = r.stdout.decode(errors="replace")
    obs = [tuple(l.split(" ")[1:3]) for l in out.splitlines() if l.startswith("RS-OBS ")]
    return {"rc": r.returncode, "out": out, "err": r.stderr.decode(errors="replace"), "obs": obs}


def broke(r, kind):
    """did the native run show a violation?"""
    if r["rc"] == "timeout":
        return "does not terminate" if kind == "hang" else None
    if r["rc"] == 10:
        return next((l for l in r["out"].splitlines() if l.startswith("RS-CHECK-FAILED")), "check failed")
    if r["rc"] in (0, 11, 12, 3):
        return None
    if r["rc"] < 0:
        return f"killed by signal {-r['rc']}: " + r["err"].strip().splitlines()[-1][:200] if r["err"].strip() else f"killed by signal {-r['rc']}"
    if r["rc"] == 77:
        return next((l for l in r["err"].splitlines() if "AddressSanitizer" in l), "AddressSanitizer")[:200]
    return f"exit status {r['rc']}"


class Unit:
    def __init__(self, spec, wd, tag):
        self.s, self.wd, self.tag = spec, wd, tag
        self.bc = None
        self.native = {}
        self.err = None


def variants(inputs):
    """real-mode counterexamples: also try neighbouring decimal roundings"""
    yield inputs


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in args
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    ensure_engine()
    os.makedirs(BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix=f"{prop}-", dir=BUILD)
    try:
        rc = run(prop, P, tier, seed, wd, t0, only, verbose)
    finally:
        if not os.environ.get("RSYM_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)
    sys.exit(rc)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def run(prop, P, tier, seed, wd, t0, only, verbose):
    budget = P.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    units = [Unit(u, wd, f"u{i}") for i, u in enumerate(P["units"])]
    jobs = []
    for u in units:
        u.s = dict(u.s)
        ents = []
        for e in u.s["entries"]:
            plist = e.get("params", {}).get(tier, e.get("params", {}).get("quick", [{}]))
            if tier == "quick" and e.get("thorough_only"):
                continue
            for p in plist:
                if only and only not in e["entry"] + json.dumps(p):
                    continue
                ents.append((e, p))
        if not ents:
            continue
        jobs.append((u, ents))
    undecided, results, compile_errs = [], [], []
    pool = cf.ThreadPoolExecutor(NCPU)
    simultaneous = {}

    def build(u):
        a = pool2.submit(compile_ir, u.s, wd, u.tag)
        b = pool2.submit(compile_native, u.s, wd, u.tag, 0)
        u.bc = a.result()
        u.nf = b
        return u
    pool2 = cf.ThreadPoolExecutor(NCPU)

    def run_entry(u, e, p, k):
        out = os.path.join(wd, f"{u.tag}_{k}.json")
        o = dict(u.s.get("opts", {}))
        o.update(e.get("opts", {}))
        o.update(e.get("opts_" + tier, {}))
        left = max(20, budget - (time.time() - t0))
        cmd = [os.path.join(BUILD, "rsym"), u.bc, "--entry", e["entry"], "--out", out, "--seed", str(seed), "--budget", str(min(left, o.pop("budget", 10 ** 9)))]
        for kk, v in o.items():
            cmd += [f"--{kk}"] if v is True else [f"--{kk}", str(v)]
        for kk, v in p.items():
            cmd += ["-p", f"{kk}={v}"]
        try:
            r = sh(cmd, timeout=left + 120)
        except subprocess.TimeoutExpired:
            return u, e, p, {"undecided": ["engine timeout"], "violations": [], "samples": [], "paths": 0, "reached": []}
        if not os.path.exists(out):
            return u, e, p, {"undecided": [f"engine rc={r.returncode}: {r.stderr[-500:]}"], "violations": [], "samples": [], "paths": 0, "reached": []}
        return u, e, p, json.load(open(out))

    futs = []
    k = 0
    bfuts = {}
    for u, ents in jobs:
        bfuts[pool2.submit(build, u) if False else None] = None
    # compile units concurrently, then queue entries
    with cf.ThreadPoolExecutor(4) as bp:
        bl = {bp.submit(build, u): (u, ents) for u, ents in jobs}
        for f in cf.as_completed(bl):
            u, ents = bl[f]
            try:
                f.result()
            except CompileError as ex:
                compile_errs.append(str(ex))
                continue
            for e, p in ents:
                futs.append(pool.submit(run_entry, u, e, p, k))
                k += 1
    viol_found, unrepro, validated, mismatches = [], [], 0, []
    tot = dict(paths=0, infeasible=0, forks=0, instr=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, checks_unsat=0, checks_concrete=0, checks_unknown=0, model_hits=0)
    functions, stubs, samples, per = set(), set(), [], []
    for f in cf.as_completed(futs):
        u, e, p, r = f.result()
        results.append((u, e, p, r))
        name = e["entry"] + ("" if not p else "[" + ",".join(f"{a}={b}" for a, b in p.items()) + "]")
        if verbose:
            print(f"  {name}: paths={r.get('paths')} checks={r.get('checks')} unsat={r.get('checks_unsat')} queries={r.get('queries')} solver={r.get('solver_s', 0):.1f}s wall={r.get('wall', 0):.1f}s viol={len(r['violations'])} und={[x[:200] for x in r['undecided'][:2]]}", flush=True)
        for kk in tot:
            tot[kk] += r.get(kk, 0)
        functions |= set(r.get("functions", []))
        stubs |= set(r.get("stubs", []))
        per.append({"entry": name, "paths": r.get("paths", 0), "checks": r.get("checks", 0), "checks_unsat": r.get("checks_unsat", 0), "queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall", 0), 2)})
        # vacuity
        want = e.get("reach", [])
        if not r["violations"] and not r["undecided"]:
            if r["paths"] == 0 and not e.get("may_be_empty"):
                undecided.append(f"{name}: no feasible path reaches the end (vacuous)")
            for w in want:
                if w not in r["reached"]:
                    undecided.append(f"{name}: witness '{w}' not reached")
        for ud in r["undecided"]:
            undecided.append(f"{name}: {ud}")
        try:
            nat = u.nf.result()
        except CompileError as ex:
            compile_errs.append(str(ex))
            continue
        # violations: replay natively
        rep = None
        for v in r["violations"]:
            for fl in (0, 1, 2):
                try:
                    if fl not in u.native:
                        u.native[fl] = nat if fl == 0 else compile_native(u.s, wd, u.tag, fl)
                except CompileError as ex:
                    break
                envs = [{}] if fl != 2 else [{}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "255"}, {"MALLOC_PERTURB_": "1"}]
                for ev in envs:
                    nr = native_run(u.native[fl], e["entry"], v["inputs"], p, wd, timeout=30, env_extra=ev)
                    b = broke(nr, v["kind"])
                    if b:
                        rep = (v, fl, b)
                        break
                if rep:
                    break
            if rep:
                break
            unrepro.append((name, v, nr["rc"]))
        if rep:
            v, fl, b = rep
            viol_found.append((name, u, e, p, v, fl, b))
            for g in futs:
                g.cancel()
            if not P.get("collect_all"):
                break
        # translator validation: replay sampled paths
        for sm in r.get("samples", [])[: (6 if tier == "quick" else 12)]:
            nr = native_run(nat, e["entry"], sm["inputs"], p, wd, timeout=60)
            if sm["abstracted"] and nr["rc"] in (11,):
                continue
            validated += 1
            if nr["rc"] != 0:
                if sm["abstracted"] and not broke(nr, "check"):
                    continue
                mismatches.append(f"{name}: native run of a verified path ended with {nr['rc']}: {nr['out'][-300:]} {nr['err'][-300:]}")
                b = broke(nr, "check")
                if b:
                    viol_found.append((name, u, e, p, {"kind": "check", "msg": "native replay of a verified path: " + b, "inputs": sm["inputs"], "loc": ""}, 0, b))
            elif not sm["abstracted"]:
                exp = [tuple(x) for x in sm["obs"]]
                if exp != nr["obs"]:
                    mismatches.append(f"{name}: observation mismatch {exp[:6]} vs native {nr['obs'][:6]} inputs {sm['inputs'][:8]}")
            if len(samples) < 12:
                samples.append({"entry": name, "inputs": sm["inputs"][:24], "observed": sm["obs"][:12]})
    if viol_found:
        for f in futs:
            f.cancel()
    pool.shutdown(wait=not viol_found, cancel_futures=True)
    known = load_known()
    rc = 0
    nviol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    for name, u, e, p, v, fl, b in viol_found[:1]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        json.dump({"property": prop, "entry": e["entry"], "params": p, "unit": u.s["harness"], "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"], "location": v.get("loc"), "native": b, "flavor": fl,
                   "how": f"python3 driver/replay.py {path}"}, open(path, "w"), indent=1)
        print(f"  {name}: {v['kind']}: {v['msg']}")
        print(f"  at {v.get('loc', '')[:400]}")
        print(f"  inputs: {v['inputs'][:40]}")
        print(f"  native: {b}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
        nviol += 1
    for c in compile_errs:
        undecided.append("compile: " + c)
    for m in mismatches:
        undecided.append("translator: " + m)
    for name, v, nrc in unrepro:
        undecided.append(f"{name}: counterexample not reproduced natively (rc={nrc}): {v['kind']} {v['msg']} @ {v['loc'][:200]} {v['inputs'][:12]}")
    # running out of the time budget is not a verdict: the property held on everything explored, and the rest is reported as not explored
    incomplete = [x for x in undecided if x.endswith("time budget exhausted") or x.endswith("engine timeout")]
    undecided = [x for x in undecided if x not in incomplete]
    for x in incomplete[:12]:
        print("INCOMPLETE", x[:300])
    if rc == 0 and undecided:
        rc = 2
        for x in undecided[:12]:
            print("UNDECIDED", x[:300].replace("\n", " "))
    if rc == 0:
        for kf in known.get("known", []):
            if kf["property"] == prop:
                print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["instr"], "traces_validated_against_impl": validated, "samples": samples[:8] or [{"entry": x["entry"]} for x in per[:3]],
            "explanation": "states = complete symbolic paths; transitions = LLVM instructions executed symbolically; every assertion is discharged by z3 over all values of the symbolic inputs on that path",
            "functions_encoded": sorted(x for x in functions if "rofl::" in x or "(" not in x)[:200],
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2),
            "assertions": tot["checks"], "assertions_unsat_by_solver": tot["checks_unsat"], "assertions_concrete_on_path": tot["checks_concrete"], "infeasible_paths_pruned": tot["infeasible"],
            "entries": per, "bounds": P.get("bounds", ""), "outside": P.get("outside", ""), "stubs": sorted(stubs)[:60], "solver": "z3 5.3.2 (C++ API)", "undecided": undecided[:10], "incomplete": incomplete[:20],
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: rc={rc} paths={tot['paths']} assertions={tot['checks']} (unsat {tot['checks_unsat']}) queries={tot['queries']} solver={tot['solver_s']:.1f}s validated={validated} wall={wall:.1f}s")
    sys.stdout.flush()
    if viol_found:
        # do not wait for engine processes that are still running
        subprocess.run(["pkill", "-P", str(os.getpid()), "rsym"], stderr=subprocess.DEVNULL)
        shutil.rmtree(wd, ignore_errors=True)
        os._exit(rc)
    return rc


if __name__ == "__main__":
    main()
