"""Writes MANIFEST.json and the "fixed:" part of known_findings.txt."""
import importlib.util
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# properties whose obligations all discharge: what the contract establishes and what it leaves out
PROVED = {
    "C04": "Options.__init__ and every property setter/getter: each assignment takes effect exactly or changes nothing, class invariant and MATLAB forcing kept for every prior state and every value (unbounded). Assumes: values of unknown kinds are objects without overridden comparison; h5py/copy calls not involved.",
}
PARTLY = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())

FIXED = {
    "C14": ["8fc42ab", "90335ff", "3971da2"], "C06": ["cafedc6"], "C03": ["bf9fb13", "5e34b55"], "C18": ["c842003", "261d543"],
    "C01": ["ada769f"], "C02": ["a64fe5f", "0b042f7", "050a764", "4f7a24c", "3585063"], "C10": ["f3ead2d", "c5ceb8f", "c8f6d2c", "686477b", "e29e662", "54c5251", "a385080"],
    "C08": ["530ee6b", "339e5ed", "50682ee", "4ea7c27"], "C09": ["a70a28d", "ee3f7d2", "be00100"], "C07": ["1ce41e7"], "C05": ["f94280a"], "C15": ["32dd5cf"],
    "C11": ["d1f61ac", "1620100", "7c9949e"], "C20": ["bb78ede"],
}
FIXED.update(globals().get("MORE_FIXED", {}))


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    checks = []
    for p in props:
        pid = p["id"]
        ded = importlib.util.find_spec("contracts." + pid.lower()) is not None
        if pid in PROVED:
            level, tech = "proof", "contract-based deductive verification of the real functions (pyvc: symbolic execution of /repo's source against contracts, z3/cvc5), plus bounded execution of the same contracts to find failing inputs"
            note = PROVED[pid]
        elif ded:
            level = "other"
            tech = "contract-based deductive verification of part of the functions involved (pyvc, z3/cvc5); bounded execution of the property's contract on the real code stands in for the rest"
            note = PARTLY.get(pid, "Part of the functions is proved; the rest is bounded.")
        else:
            level = "exploration"
            tech = "bounded execution of the property's contract on the real code (stand-in where the functions are out of the verifier's reach), never counted as proved"
            note = PARTLY.get(pid, "Bounded: seeded random inputs and histories, checked against an independent oracle; nothing is proved.")
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid}", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=tech, level=level, level_note=note))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
             notes="See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and are verified against the source as it is.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    kf = os.path.join(HERE, "known_findings.txt")
    head = [x for x in open(kf, encoding="utf-8").read().splitlines() if not x.startswith("fixed:")] if os.path.exists(kf) else [
        "# finding: property=<id> match=/<regex over kind and message>/ <what fails>   (reported as KNOWN-FINDING, exit 0)",
        "# fixed: property=<id> <commit> <what failed>   (suppresses nothing)",
    ]
    lines = []
    for pid in sorted(FIXED):
        for c in FIXED[pid]:
            s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True).stdout.strip()
            lines.append(f"fixed: property={pid} " + re.sub(r"^(\w+) fix: ", r"\1 ", s))
    with open(kf, "w", encoding="utf-8") as f:
        f.write("\n".join(head + lines) + "\n")


main()
