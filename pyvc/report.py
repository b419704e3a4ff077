"""Runs proof procedures in parallel and collects their obligations."""
from __future__ import annotations

import importlib
import multiprocessing as mp
import os
import time

from . import engine as E


def _one(arg):
    modname, idx, tier, max_s = arg
    t = time.time()
    try:
        mod = importlib.import_module(modname)
        name, proc, kw = mod.procedures(tier)[idx]
    except BaseException as e:  # noqa: BLE001
        return dict(name=f"{modname}[{idx}]", obligations=[], undecided=[f"contract module: {type(e).__name__}: {e}"], functions=[],
                    paths=0, queries=0, solver_s=0.0, wall_s=0.0, second=0)
    kw = dict(kw)
    kw.setdefault("max_s", max_s)
    r = E.Run(name, proc, **kw)
    try:
        r.execute()
    except BaseException as e:  # noqa: BLE001
        r.undecided.append(f"engine: {type(e).__name__}: {e}")
    return dict(
        name=name,
        obligations=[(o.name, o.status, o.detail, round(o.time, 4), o.path if o.status != "discharged" else None) for o in r.obligations],
        undecided=r.undecided, functions=sorted(r.functions), paths=r.paths, queries=r.queries, solver_s=r.solver_s,
        wall_s=time.time() - t, second=r.second,
    )


def run(modname, tier, jobs=8, budget_s=60.0, only=None):
    mod = importlib.import_module(modname)
    procs = mod.procedures(tier)
    idxs = [i for i, p in enumerate(procs) if only is None or only in p[0]]
    max_s = getattr(mod, "MAX_S", 60.0) * (1 if tier == "quick" else 4)
    work = [(modname, i, tier, max_s) for i in idxs]
    t0 = time.time()
    results = []
    if jobs == 1:
        results = [_one(w) for w in work]
    else:
        with mp.get_context("fork").Pool(min(jobs, max(1, len(work))), maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_one, work)
            for k in range(len(work)):
                left = budget_s - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(0.1, left)))
                except mp.TimeoutError:
                    done = {r["name"] for r in results}
                    for i in idxs:
                        if procs[i][0] not in done:
                            results.append(dict(name=procs[i][0], obligations=[], undecided=["time budget of the check"], functions=[],
                                                paths=0, queries=0, solver_s=0.0, wall_s=0.0, second=0))
                    pool.terminate()
                    break
    results.sort(key=lambda r: r["name"])
    return summarize(mod, results, time.time() - t0)


def summarize(mod, results, wall):
    ob = [(r["name"],) + tuple(o) for r in results for o in r["obligations"]]
    refuted = [o for o in ob if o[2] == "refuted"]
    und = [o for o in ob if o[2] == "undecided"]
    undp = [(r["name"], r["undecided"]) for r in results if r["undecided"]]
    fns = sorted({f for r in results for f in r["functions"]})
    return dict(
        procedures=len(results), obligations=len(ob) + len(undp), discharged=sum(1 for o in ob if o[2] == "discharged"),
        by_cvc5=sum(r["second"] for r in results),
        refuted=refuted, undecided=und, undecided_procedures=undp, functions=fns,
        paths=sum(r["paths"] for r in results), queries=sum(r["queries"] for r in results),
        solver_s=round(sum(r["solver_s"] for r in results), 2), wall_s=round(wall, 2),
        names=sorted({o[1] for o in ob}), trusted=list(getattr(mod, "TRUSTED", [])),
    )
