"""Command line of the checks."""
import argparse
import importlib
import json
import os
import signal
import sys
import time

from . import harness as H


def known_findings():
    p = os.path.join(H.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def load_prop(pid):
    return importlib.import_module(f"props.{pid}")


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.property
    t0 = time.time()
    # the real package (concrete replay) and its libraries, before anything symbolic
    from . import loader

    import_error = None
    loader.preload()
    try:
        importlib.import_module("elli")
    except BaseException as e:  # noqa: BLE001
        import_error = f"{type(e).__name__}: {e}"
    mod = load_prop(pid)
    cases = [c for c in mod.R.cases if a.tier in c.tiers]
    if a.only:
        cases = [c for c in mod.R.cases if a.only in c.name]
    if a.list:
        for c in cases:
            print(c.name)
        return 0
    if a.replay:
        return replay(mod, a.replay, pid)
    if import_error:
        print(f"VIOLATION property={pid} replay=import ({import_error})")
        return 1
    results = run_parallel(cases, seed, a.tier, a.j, a.v)
    return report(pid, mod, cases, results, seed, a.tier, time.time() - t0, bool(a.only))


def replay(mod, path, pid):
    with open(path) as f:
        d = json.load(f)
    for c in mod.R.cases:
        if c.name == d["case"]:
            r = H.run_concrete(c, d["inputs"])
            for f in r["fails"]:
                print("FAIL", f)
            if r["fails"]:
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            print("replay passes")
            return 0
    print("no such case", d["case"])
    return 2


def run_parallel(cases, seed, tier, jobs, verbose):
    """each case in its own process; longest expected first"""
    import pickle
    import select

    pend = sorted(range(len(cases)), key=lambda i: -cases[i].opts.get("cost", 1))
    run = {}
    res = {}
    limit = 860 if tier == "quick" else 10 ** 6
    t0 = time.time()
    while pend or run:
        while pend and len(run) < jobs:
            i = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    out = H.run_case(cases[i], seed, tier)
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(out))
                except BaseException as e:  # noqa: BLE001
                    import traceback

                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(w)
            run[r] = (i, pid, [])
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            i, pid, ch = run[r]
            if b:
                ch.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del run[r]
            if ch:
                res[i] = pickle.loads(b"".join(ch))
            else:
                res[i] = {"case": cases[i].name, "crash": True, "undecided": ["worker crashed"], "violations": []}
            if verbose:
                v = res[i]
                print(f"{v['case']}: paths={v.get('paths')} inf={v.get('infeasible')} obl={v.get('obligations')} proved={v.get('proved')} "
                      f"val={v.get('validated')} und={len(v['undecided'])} viol={len(v['violations'])} {v.get('wall', 0):.1f}s", flush=True)
                for u in v["undecided"][:4]:
                    print("   undecided:", u[:600], flush=True)
                for u in v["violations"][:3]:
                    print("   violation:", json.dumps(u)[:900], flush=True)
        if time.time() - t0 > limit:
            for r, (i, pid, ch) in list(run.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                os.waitpid(pid, 0)
                os.close(r)
                res[i] = {"case": cases[i].name, "undecided": ["time limit of the check"], "violations": []}
            run = {}
            for i in pend:
                res[i] = {"case": cases[i].name, "undecided": ["time limit of the check"], "violations": []}
            pend = []
    return [res[i] for i in range(len(cases))]


def report(pid, mod, cases, results, seed, tier, wall, partial):
    finds = [f for f in known_findings() if f.get("property") == pid and f.get("status") == "open"]
    stats = {}
    fns = set()
    tot = dict(paths=0, infeasible=0, obligations=0, proved=0, validated=0, reached=0, decisions=0)
    und, viol, samples = [], [], []
    for r in results:
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        fns.update(r.get("fns", ()))
        for k in tot:
            tot[k] += r.get(k, 0)
        und += [f"{r['case']}: {u}" for u in r["undecided"]]
        viol += r["violations"]
        samples += r.get("samples", [])[:1]
    new, known = [], []
    for v in viol:
        f = next((f for f in finds if match_finding(f, v)), None)
        (known if f else new).append((f, v))
    os.makedirs(os.path.join(H.VERIF, "evidence"), exist_ok=True)
    seen = set()
    for f in finds:
        hit = [v for g, v in known if g is f]
        if hit and f["id"] not in seen:
            seen.add(f["id"])
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    code = 0
    if new:
        outdir = os.path.join(H.VERIF, "evidence", "replay")
        os.makedirs(outdir, exist_ok=True)
        for n, (_, v) in enumerate(new[:5]):
            p = os.path.join(outdir, f"{pid}_{n}.json")
            with open(p, "w") as fh:
                json.dump(dict(v, property=pid), fh, indent=1)
            print(f"VIOLATION property={pid} replay={p}")
            print(f"  case {v['case']} check {v['check']}: {str(v['fails'][0])[:300]}")
        code = 1
    elif und:
        for u in und[:6]:
            print(f"UNDECIDED property={pid} {u[:500]}")
        decided = tot["proved"]
        ncase = sum(1 for r in results if r["undecided"])
        if decided == 0 or ncase == len(results):
            code = 2
    if not partial:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": tot["paths"], "transitions": tot["decisions"] + tot["paths"],
                "traces_validated_against_impl": tot["validated"],
                "samples": samples[:8] or [{"case": r["case"]} for r in results[:3]],
                "what": "states = feasible symbolic paths of the harness cases explored to the end; transitions = two-way branch "
                        "decisions taken plus path ends; traces_validated = paths whose symbolic outputs were evaluated at a sample "
                        "input and compared with a run of the real package",
                "cases": [{k: r.get(k) for k in ("case", "paths", "infeasible", "obligations", "proved", "validated", "reached", "wall")}
                          for r in results],
                "functions_encoded": sorted(fns),
                "bounds": getattr(mod, "BOUNDS", ""),
                "outside_bounds": getattr(mod, "OUTSIDE", ""),
                "queries": int(stats.get("queries", 0)), "unsat": int(stats.get("unsat", 0)), "sat": int(stats.get("sat", 0)),
                "unknown": int(stats.get("unknown", 0)), "solver_s": round(stats.get("solver_s", 0.0), 2),
                "obligations_checked": tot["obligations"], "obligations_proved": tot["proved"],
                "paths_shown_reachable": tot["reached"], "undecided": und[:50],
                "known_findings_seen": sorted(seen),
            },
            "assumptions": _lst(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
            "wall_s": round(wall, 2), "violations": len(new),
        }
        with open(os.path.join(H.VERIF, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} {tier}: cases={len(results)} paths={tot['paths']} obligations={tot['obligations']} proved={tot['proved']} "
          f"validated={tot['validated']} queries={int(stats.get('queries', 0))} solver={stats.get('solver_s', 0):.1f}s "
          f"undecided={len(und)} violations={len(new)} known={len(known)} wall={wall:.1f}s exit={code}")
    return code


COMMON = [
    "floating point is modelled by exact real/complex arithmetic (rounding, overflow and cancellation are outside the model); "
    "short decimal literals and simple multiples of pi and square roots of small integers mean their exact value",
    "numpy, scipy and torch operations have their documented semantics (symx/nparr.py); each run compares symbolic outputs with "
    "the real code at sample points",
    "denominators met during the symbolic run are assumed non-zero unless the case checks them",
]


def match_finding(f, v):
    if f.get("case") and f["case"] != v["case"]:
        return False
    if f.get("check") and not any(f["check"] in str(x[0]) for x in v["fails"]):
        return False
    if f.get("check") and not all(any(c in str(x[0]) for c in [f["check"]]) for x in v["fails"]):
        return False
    return True


def _lst(x):
    return [x] if isinstance(x, str) else list(x)
