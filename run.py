"""Runs the check of one property: run.py <ID> [--tier quick|thorough]

   run.py --replay FILE   replays a recorded counterexample on /repo's code.
"""
import sys

sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings

warnings.simplefilter("ignore")
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
logging.disable(logging.CRITICAL)


def load(pid):
    import obp  # noqa: F401  (the code under check, from /repo)
    import obp.dataset, obp.ope, obp.policy, obp.simulator, obp.utils  # noqa

    assert os.path.realpath(obp.__file__).startswith("/repo/"), obp.__file__
    from symnp import api

    api.HARNESSES.clear()
    mod = importlib.import_module(f"checks.{pid}")
    return mod, list(api.HARNESSES)


def task(conn, name, fn, case, seed, limit, opts):
    from symnp.harness import explore

    try:
        devnull = open(os.devnull, "w")
        os.dup2(devnull.fileno(), 1)
        os.dup2(devnull.fileno(), 2)
        r = explore(name, fn, case, seed=seed, time_limit=limit, **opts)
        conn.send(("ok", r))
    except BaseException as e:  # engine failure: inconclusive, never a verdict
        import traceback

        conn.send(("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
    conn.close()


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                out.append(line)
    return out


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x if isinstance(x, (int, float, str, bool, type(None))) else str(x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod, hs = load(a.pid)
    tier = "thorough" if a.tier == "thorough" else "quick"
    limit = 150.0 if tier == "quick" else 900.0
    tasks = []
    for name, fn, cases, more, opts in hs:
        if a.only and a.only not in name:
            continue
        for c in cases + (more if tier == "thorough" else []):
            tasks.append((name, fn, c, opts))
    if a.verbose:
        from symnp.harness import explore

        for name, fn, c, opts in tasks:
            r = explore(name, fn, c, seed=seed, time_limit=limit, verbose=True, **opts)
            print(name, c, "paths", r.paths, "obl", r.obligations, "val", r.validated, "cmp", r.compared, f"{r.wall:.1f}s", "VIOL" if r.violation else "", r.violation, r.inconclusive)
        return 0
    ctxm = mp.get_context("fork")
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    violation = None
    hard = limit * 1.3 + 60
    budget = 660.0 if tier == "quick" else 4 * 3600.0
    while (pending or running) and violation is None:
        left = budget - (time.time() - t0)
        if left <= 5:
            for i, t in pending:
                results[i] = ("crash", "time budget of the tier used up")
            pending = []
        while pending and len(running) < a.jobs:
            i, (name, fn, c, opts) = pending.pop(0)
            rx, tx = ctxm.Pipe(False)
            p = ctxm.Process(target=task, args=(tx, name, fn, c, seed, min(limit, left), opts))
            p.start()
            tx.close()
            running[i] = (p, rx, time.time())
        mp.connection.wait([r[1] for r in running.values()], timeout=1.0)
        for i in list(running):
            p, rx, st = running[i]
            if rx.poll():
                try:
                    kind, r = rx.recv()
                except EOFError:
                    kind, r = "crash", "worker died"
                results[i] = (kind, r)
                p.join(5)
                del running[i]
                if kind == "ok" and r.violation:
                    violation = (i, r)
                    break
            elif time.time() - st > hard:
                p.kill()
                p.join()
                results[i] = ("crash", "hard time limit")
                del running[i]
    for p, rx, st in running.values():
        p.kill()
        p.join()
    return report(a.pid, tier, seed, mod, tasks, results, violation, time.time() - t0)


def report(pid, tier, seed, mod, tasks, results, violation, wall):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    tot = dict(paths=0, decisions=0, obligations=0, validated=0, compared=0, queries=0, normalised=0, vacuous=0, fallback_points=0)
    solver = 0.0
    funcs = set()
    inc = []
    per = []
    samples = []
    for i, (name, fn, case, opts) in enumerate(tasks):
        kind, r = results.get(i, ("skipped", None))
        if kind != "ok":
            if kind == "crash":
                inc.append(f"{name} {case}: {r}")
            continue
        for k in tot:
            tot[k] += getattr(r, k)
        solver += r.solver_s
        funcs |= {f"{f.split('/repo/')[-1]}:{q}" for f, q, l in r.functions}
        inc += [f"{name} {case}: {x}" for x in r.inconclusive]
        per.append(
            {
                "harness": name,
                "case": jsonable(case),
                "paths": r.paths,
                "obligations": r.obligations,
                "replayed": r.validated,
                "solver_s": round(r.solver_s, 2),
                "wall_s": round(r.wall, 2),
            }
        )
        if r.sample and len(samples) < 6:
            samples.append({"harness": name, "case": jsonable(case), "inputs": jsonable(r.sample)})
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples or ["none"],
            "explanation": "states: symbolic execution paths of the real code on which every obligation was decided; transitions: branch and choice decisions on those paths; traces validated: paths whose solver witness was replayed on the unpatched code with every obligation evaluated there",
            "obligations": tot["obligations"],
            "solver_queries": tot["queries"],
            "obligations_closed_after_normalisation": tot["normalised"],
            "solver_seconds": round(solver, 2),
            "engine_values_compared_with_impl": tot["compared"],
            "infeasible_paths": tot["vacuous"],
            "functions_encoded": sorted(funcs),
            "bounds": getattr(mod, "BOUNDS", ""),
            "harnesses": per,
            "inconclusive": inc[:40],
            "concrete_fallback_points": tot["fallback_points"],
            "verdict": "violated" if violation else ("inconclusive" if inc else "holds within the bounds"),
        },
        "assumptions": [
            "floating-point values are modelled as exact reals; equality is required up to 1e-5 (1e-6 relative in replays)",
            "random draws are arbitrary values allowed by the generator's contract; equal seeds give equal streams",
        ]
        + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    for line in known_findings():
        if f"property={pid} " in line:
            print(line)
    if violation:
        i, r = violation
        label, detail, values = r.violation
        rp = os.path.join(ev, "replays", f"{pid}-{r.name}.json")
        with open(rp, "w") as f:
            json.dump(
                {"property": pid, "harness": r.name, "case": jsonable(r.case), "label": label, "detail": detail, "inputs": jsonable(values)},
                f,
                indent=1,
            )
        print(f"{r.name} {r.case}: {label}: {detail}")
        doc["coverage"]["counterexample"] = {"harness": r.name, "label": label, "detail": detail, "replay": rp}
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)
    if violation:
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    for x in inc[:20]:
        print("INCONCLUSIVE", pid, x.splitlines()[0][:400])
    print(
        f"{pid}: {doc['coverage']['verdict']}: {tot['paths']} paths, {tot['obligations']} obligations, {tot['queries']} queries, {solver:.1f} s solver, {tot['validated']} replayed, {wall:.1f} s"
    )
    return 0


def replay(path):
    from symnp.harness import run_concrete

    d = json.load(open(path))
    mod, hs = load(d["property"])
    for name, fn, cases, more, opts in hs:
        if name == d["harness"]:
            case = next((c for c in cases + more if jsonable(c) == d["case"]), d["case"])
            st, det, _ = run_concrete(fn, case, d["inputs"])
            print(st, det)
            return 1 if st in ("fail", "error") else 0
    print("unknown harness")
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
