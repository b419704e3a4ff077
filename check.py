"""check.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's working tree:
  1. the proof obligations of its contracts (pyvc) are generated from the
     current source and discharged (z3, cvc5);
  2. the contracts are executed on the real code for seeded inputs (bounded):
     the replay of refuted obligations and the stand-in for functions out of
     the verifier's reach.
"""
import argparse
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY, "-B", os.path.join(HERE, "check.py")] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")

QUICK_S = float(os.environ.get("VERIF_BOUNDED_S", "12"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def shard(arg):
    pid, seed, k, n, budget, deep = arg
    try:
        from replay import base
        mod = importlib.import_module("replay." + pid.lower())
        kinds = dict(mod.KINDS)
        if deep:
            kinds.update(getattr(mod, "DEEP", {}))
        return base.run_cases(pid, kinds, f"{seed}.{k}", n, budget, getattr(mod, "CASE_S", 30.0))
    except BaseException as e:  # noqa: BLE001
        import traceback
        return dict(evaluations=0, distinct=0, skipped=0, samples=[], wall_s=0,
                    failure=dict(property=pid, kind="import", case="", message=f"{type(e).__name__}: {e}", trace=traceback.format_exc()))


def bounded(pid, seed, budget, deep=False):
    if importlib.util.find_spec("replay." + pid.lower()) is None:
        return None
    t0 = time.time()
    ctx = mp.get_context("fork")
    n = 10 ** 9
    with ctx.Pool(JOBS) as pool:
        work = [(pid, seed, k, n, budget, deep) for k in range(JOBS)]
        res = []
        it = pool.imap_unordered(shard, work)
        for _ in work:
            try:
                res.append(it.next(timeout=max(5.0, budget + 90 - (time.time() - t0))))
                if res[-1]["failure"]:
                    break
            except mp.TimeoutError:
                break
        pool.terminate()
    out = dict(
        evaluations=sum(r["evaluations"] for r in res), distinct=sum(r["distinct"] for r in res),
        skipped=sum(r["skipped"] for r in res), samples=[s for r in res for s in r["samples"][:2]][:8],
        failure=next((r["failure"] for r in res if r["failure"]), None), wall_s=round(time.time() - t0, 2),
        shards=len(res),
    )
    if not res:
        out["failure"] = dict(property=pid, kind="hang", case="", message="no shard answered in time", trace="")
    return out


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def write_replay(pid, payload):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.json")
    with open(p, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(payload, f, indent=1, default=str)
    return p


def replay(path):
    from replay import base
    d = json.load(open(path, encoding="utf-8"))
    c = d.get("case")
    if not c:
        print(json.dumps(d, indent=1)[:6000])
        return 1
    mod = importlib.import_module("replay." + c["property"].lower())
    kinds = dict(mod.KINDS)
    kinds.update(getattr(mod, "DEEP", {}))
    with base.scratch():
        out = base.run_one(c["property"], c["kind"], kinds[c["kind"]], c["case"])
    print(out)
    return 0 if out is None or out[0] == "ok" else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ded = None
    if importlib.util.find_spec("contracts." + pid.lower()) is not None:
        from pyvc import report
        try:
            ded = report.run("contracts." + pid.lower(), tier, JOBS, 150.0 if tier == "quick" else 1500.0)
        except Exception as e:  # noqa: BLE001  the contracts do not fit the code any more
            ded = dict(procedures=0, obligations=1, discharged=0, by_cvc5=0, refuted=[], undecided=[],
                       undecided_procedures=[("contracts", [f"{type(e).__name__}: {e}"])], functions=[], paths=0, queries=0,
                       solver_s=0.0, wall_s=round(time.time() - t0, 2), names=[], trusted=[])
    complete = ded is not None and ded["discharged"] == ded["obligations"] and not ded["refuted"]
    budget = QUICK_S if tier == "quick" else 240.0
    bnd = bounded(pid, seed, budget if (complete and level_of(pid) == "proof") or tier != "quick" else 2 * budget, deep=tier != "quick")
    failure = bnd["failure"] if bnd else None
    if ded and ded["refuted"] and not failure and bnd:
        # a refuted obligation: look harder for an input that shows it
        deeper = bounded(pid, f"{seed}d", 60.0 if tier == "quick" else 300.0, deep=True)
        for k in ("evaluations", "distinct", "skipped"):
            bnd[k] += deeper[k]
        failure = deeper["failure"]
    violations, lines = 0, []
    listed = known(pid)
    if failure:
        text = f"{failure['kind']}: {failure['message']}"
        if any(rx.search(text) for rx, _ in listed):
            failure = None
    if failure:
        violations = 1
        p = write_replay(pid, dict(property=pid, case=failure, how=f"python3 check.py {pid} --replay <this file>",
                                   refuted=(ded or {}).get("refuted", [])[:5]))
        lines.append(f"VIOLATION property={pid} replay={p}")
    elif ded and ded["refuted"]:
        violations = 1
        p = write_replay(pid, dict(property=pid, obligation=ded["refuted"][0][1], refuted=ded["refuted"][:20]))
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    for rx, text in listed:
        print(f"KNOWN-FINDING: property={pid} {text}")
    write_evidence(pid, tier, seed, ded, bnd, violations, time.time() - t0, complete)
    if ded:
        print(f"{pid}: {ded['discharged']}/{ded['obligations']} obligations discharged, {len(ded['functions'])} functions, "
              f"{ded['paths']} paths, {ded['wall_s']} s")
        for n, why in ded["undecided_procedures"][:5]:
            print(f"  undecided {n}: {str(why[:1])[:300]}")
        for o in ded["refuted"][:5]:
            print(f"  refuted {o[1]} ({o[0]}): {str(o[3])[:300]}")
    if bnd:
        print(f"{pid}: {bnd['evaluations']} executions of the contracts on the real code, {bnd['wall_s']} s")
    if failure:
        print(f"  {failure['kind']} [{failure['case']}]: {failure['message'][:600]}")
    for x in lines:
        print(x)
    sys.stdout.flush()
    sys.exit(1 if violations else 0)


def level_of(pid):
    p = os.path.join(HERE, "MANIFEST.json")
    if os.path.exists(p):
        for c in json.load(open(p))["checks"]:
            if c["property"] == pid:
                return c["level"]
    return "exploration"


def write_evidence(pid, tier, seed, ded, bnd, violations, wall, complete):
    cov = {}
    trusted, assumptions = [], []
    if ded:
        trusted = ["pyvc (the verification condition generator in /verif/pyvc)", "z3, cvc5", "CPython's ast module"] + ded["trusted"]
        cov.update(
            obligations=ded["obligations"], discharged=ded["discharged"],
            checker_cmd=f"python3 /verif/check.py {pid} (pyvc, z3 {z3v()}; cvc5 as second opinion)", trusted_base=trusted,
            functions_under_contract=ded["functions"], obligation_names=ded["names"][:400], procedures=ded["procedures"],
            paths=ded["paths"], solver_queries=ded["queries"], solver_s=ded["solver_s"], second_opinions_cvc5=ded["by_cvc5"],
            undecided=[dict(procedure=n, why=w[:3]) for n, w in ded["undecided_procedures"]][:60]
            + [dict(obligation=o[1], why=o[3]) for o in ded["undecided"]][:60],
            refuted=[dict(obligation=o[1], procedure=o[0], detail=o[3]) for o in ded["refuted"]][:60],
            proved=bool(complete),
            explanation="Obligations of the contracts generated from /repo's current source and discharged by z3/cvc5 for the functions "
            "listed; the rest of the property is covered by the bounded execution counted under evaluations.",
        )
        assumptions = ded["trusted"]
    if bnd:
        mod = importlib.import_module("replay." + pid.lower())
        cov.update(
            evaluations=bnd["evaluations"], distinct_nontrivial=bnd["distinct"],
            rule=(mod.__doc__ or "").strip() + " Bounded: seeded random cases, never counted as proved. A case is non-trivial if it satisfied "
            "the property's precondition and its description differs from all earlier ones of its shard.",
            samples=bnd["samples"], bounded_wall_s=bnd["wall_s"], outside_precondition=bnd["skipped"],
        )
    if not cov:
        cov = dict(explanation="nothing ran")
    ev = dict(property=pid, tier=tier, seed=seed, level=level_of(pid), coverage=cov, wall_s=round(wall, 2), assumptions=assumptions,
              violations=violations)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def z3v():
    try:
        from pyvc.engine import z3
        return z3.get_version_string()
    except Exception:  # noqa: BLE001
        return "?"


if __name__ == "__main__":
    main()
