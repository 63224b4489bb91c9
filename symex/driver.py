"""command line driver: runs the harnesses of one property, writes evidence, prints verdicts"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


class Harness:
    def __init__(self, prop, func, cfgs, thorough, bounds, opts):
        self.prop, self.func, self.cfgs, self.thorough_cfgs, self.bounds, self.opts = prop, func, cfgs, thorough, bounds, opts
        self.name = func.__name__
        self.key = f"{func.__module__}:{func.__name__}"


def harness(prop, cfgs=({},), thorough=(), bounds="", **opts):
    def deco(f):
        REGISTRY.setdefault(prop, []).append(Harness(prop, f, list(cfgs), list(thorough), bounds or (f.__doc__ or "").strip(), opts))
        return f
    return deco


ASSUMPTIONS = {}


def assumptions(prop, *lines):
    ASSUMPTIONS.setdefault(prop, []).extend(lines)


BASE_ASSUMPTIONS = [
    "floating point arithmetic is modelled by real arithmetic with the stated tolerance (rounding, overflow and nan are outside the claim)",
    "symbolic divisions: inputs where the divisor is exactly zero are decided without that quotient (the quotient is unconstrained there)",
    "array shapes, integer structure and configurations are concrete and enumerated in the configuration list; numeric contents are symbolic within the stated ranges",
]


def run_job(args):
    prop, hname, cfg, seed, tier, limit, resq = args
    import warnings
    warnings.simplefilter("ignore")
    import signal
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    from . import engine
    load_checks(prop)
    h = next(x for x in REGISTRY[prop] if x.name == hname)
    o = h.opts
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        r = engine.Run(h, cfg, seed=seed, tier=tier, time_limit=min(limit, o.get("time_limit", limit)) if tier == "quick" else limit,
                       max_paths=o.get("max_paths", 600), query_timeout=o.get("query_timeout", 30.0 if tier == "quick" else 120.0),
                       validations=o.get("validations", 2))
        r.feas_timeout = o.get("feas_timeout", 4.0)
        r.explore()
        return dict(harness=hname, cfg=cfg, stat=r.stat, funcs=sorted(r.funcs), violations=r.violations,
                    errors=r.errors, samples=r.samples, wall=time.time() - t0, bounds=h.bounds,
                    nvars=len(r.vars), ranges=ranges(r.vars))
    except BaseException as e:
        return dict(harness=hname, cfg=cfg, stat={}, funcs=[], violations=[], samples=[], wall=time.time() - t0,
                    errors=[f"driver: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]], bounds=h.bounds, nvars=0)


def ranges(variables):
    """short description of the ranges of the symbolic variables: names without their indices and how many share a range"""
    import re
    out = {}
    for v in variables.values():
        key = (re.sub(r"[\d,_.\[\] ()-]+(?:(?<=\d)[ri])?$", "", v.name) or v.name, v.kind, v.lo, v.hi)
        out[key] = out.get(key, 0) + 1
    return [f"{n}{'' if c == 1 else f' ({c}x)'}: {k} in [{lo:g}, {hi:g}]" for (n, k, lo, hi), c in list(out.items())[:40]]


def load_checks(prop):
    import importlib
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if prop not in REGISTRY:
        importlib.import_module("checks." + prop.lower())


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def listed(r, v, known):
    """entry of the known findings for this violation (None if it is new)"""
    for k in known:
        if k.get("harness") == r["harness"] and k.get("label") == v["label"] and k.get("cfg", r["cfg"]) == r["cfg"]:
            return k
    return None


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "selftest":
        from . import engine, loader  # noqa: F401
        import z3
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x == 2, x > 1, x < 1)
        assert s.check() == z3.unsat
        print("selftest: z3", z3.get_version_string())
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 420.0 if tier == "quick" else 3000.0
    load_checks(prop)
    jobs = []
    for h in REGISTRY[prop]:
        if only and h.name != only:
            continue
        for cfg in h.cfgs + (h.thorough_cfgs if tier == "thorough" else []):
            jobs.append((prop, h.name, cfg, seed, tier, limit, None))
    # most expensive harnesses first
    wt = {h.name: h.opts.get("weight", 1) for h in REGISTRY[prop]}
    jobs.sort(key=lambda j: -wt[j[1]])
    # heavy libraries once, before the workers are forked
    from . import engine, loader  # noqa: F401
    import scipy.spatial, scipy.optimize, scipy.integrate, scipy.interpolate, scipy.special, scipy.constants  # noqa: F401,E401
    try:
        loader.RealPackage().load("bandstructure")
    except BaseException:
        pass
    results = []
    stopped = False
    known = [k for k in known_findings() if k.get("property") == prop]
    nproc = min(len(jobs), int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    if nproc <= 1:
        results = [run_job(j) for j in jobs]
    else:
        deadline = t0 + (780.0 if tier == "quick" else 6 * 3600.0)
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_job, jobs, chunksize=1)
            for _ in jobs:
                try:
                    r = it.next(timeout=max(1.0, deadline - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                results.append(r)
                if any(not listed(r, v, known) for v in r["violations"]):
                    # a violation decides the run: other configurations only get a short time to add theirs
                    deadline = min(deadline, time.time() + 15.0)
                    stopped = True
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"# {r['harness']} {r['cfg']} {r['wall']:.1f}s {r['stat']}", file=sys.stderr)
    done = {(r["harness"], json.dumps(r["cfg"], sort_keys=True, default=str)) for r in results}
    for j in jobs:
        if (j[1], json.dumps(j[2], sort_keys=True, default=str)) not in done:
            results.append(dict(harness=j[1], cfg=j[2], stat={}, funcs=[], violations=[], samples=[], wall=0.0, errors=["not run, the run ended with the violation" if stopped else "out of time for this run"], bounds="", nvars=0))
    results.sort(key=lambda r: (r["harness"], json.dumps(r["cfg"], sort_keys=True, default=str)))
    tot = {}
    for r in results:
        for k, v in r["stat"].items():
            tot[k] = tot.get(k, 0) + v
    viol, errs, kf = [], [], []
    for r in results:
        for v in r["violations"]:
            v = dict(v, harness=r["harness"], cfg=r["cfg"])
            m = listed(r, v, known)
            if m:
                kf.append((m, v))
            else:
                viol.append(v)
        for e in r["errors"]:
            errs.append((r["harness"], r["cfg"], e))
    for k, v in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    replays = []
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:10]):
            p = os.path.join(d, f"{prop}-{n}.json")
            with open(p, "w") as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            replays.append(p)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {v['harness']} {v['cfg']}: {v['label']}: {v['detail']}  [{v['how']}]")
    for h, c, e in errs:
        print(f"INCONCLUSIVE {prop} {h} {c}: {e}")
    wall = time.time() - t0
    samples = [s for r in results for s in [dict(harness=r["harness"], cfg=r["cfg"], **x) for x in r["samples"][:1]]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the real source (compiled from /repo's working tree on this run) with z3 deciding every "
                           "path's negated claims for all values within the bounds; counterexamples are replayed on the real package.",
            "harness_configurations": len(results),
            "functions_encoded": funcs,
            "bounds": [dict(harness=r["harness"], cfg={k: str(v) for k, v in r["cfg"].items()}, bounds=" ".join(r["bounds"].split()),
                            symbolic_variables=r["nvars"], ranges=r.get("ranges", []), paths=r["stat"].get("paths", 0),
                            obligations=r["stat"].get("obligations", 0), wall_s=round(r["wall"], 2)) for r in results],
            "paths_explored": tot.get("paths", 0),
            "paths_infeasible": tot.get("infeasible", 0),
            "branch_decisions": tot.get("decisions", 0),
            "obligations": tot.get("obligations", 0),
            "obligations_closed_by_normal_form": tot.get("by_normal_form", 0),
            "obligations_closed_by_z3": tot.get("by_solver", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_queries_feasibility": tot.get("feasibility_queries", 0),
            "solver_answers_unsat_for_claims": tot.get("unsat", 0),
            "solver_answers_sat_for_claims": tot.get("sat", 0),
            "solver_answers_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 3),
            "reachability_witnesses_sat": tot.get("reach_witnesses", 0),
            "encoding_validated_against_real_code": tot.get("validations", 0),
            "inconclusive": len(errs),
            "configurations_without_answer": [dict(harness=h, cfg={k: str(x) for k, x in c.items()}, why=e[:300]) for h, c, e in errs],
            "known_findings_seen": len(kf),
            "samples": samples,
        },
        "assumptions": BASE_ASSUMPTIONS + ASSUMPTIONS.get(prop, []),
        "violations": len(viol),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {len(results)} configurations, {tot.get('paths', 0)} paths, {tot.get('obligations', 0)} obligations "
          f"({tot.get('by_normal_form', 0)} by normal form, {tot.get('by_solver', 0)} by z3), {tot.get('queries', 0)} queries, "
          f"{tot.get('solver_s', 0.0):.1f}s solver, {wall:.1f}s wall, {len(viol)} violations, {len(errs)} inconclusive")
    if viol:
        return 1
    # everything that was explored holds; configurations without an answer are listed in the evidence and are not claimed.
    # Without an answer for most of the configurations there is no verdict.
    undecided = len(set((h, json.dumps(c, sort_keys=True, default=str)) for h, c, _ in errs))
    return 2 if not results or not tot.get("obligations") or 2 * undecided > len(results) else 0


def replay(path):
    from . import engine
    v = json.load(open(path))
    load_checks(v["property"])
    h = next(x for x in REGISTRY[v["property"]] if x.name == v["harness"])
    r = engine.Run(h, v["cfg"])
    res = r.replay(v["env"])
    print("reproduces:" if res else "does not reproduce", res)
    return 1 if res else 0
