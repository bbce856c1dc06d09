"""python -m vt.run <PID> [--tier quick|thorough] [--only SUBSTR] | --replay FILE"""
import json
import os
import sys
import time

from . import harness as HN


def _replay(path):
    f = HN.replay_file(path)
    if f:
        for l, t, vals in f[:3]:
            print("REPRODUCED:", l, "|", t, "| inputs:", json.dumps(vals)[:3000])
        return 1
    print("not reproduced")
    return 0


def main(argv):
    if argv[0] == "--replay":
        return _replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    limit = float(os.environ.get("VT_LIMIT", "600" if tier == "quick" else "7200"))
    t0 = time.time()
    ck = HN.load_check(pid, patched=True)
    code = 0
    known = []
    kf = os.path.join(HN.VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k["property"] == pid and k.get("status") == "known"]
    problems = []
    n = 0
    tried, confirmed, sigs = {}, set(), set()

    def on_violation(d, v):
        """replay on the real code; a reproduced failure that is not listed ends the run"""
        nonlocal n, code
        sig = (d["name"], v["label"], tuple(sorted(map(str, v["notes"].items()))))
        if tried.get(d["name"], 0) >= 6 or d["name"] in confirmed or sig in sigs:
            return False
        sigs.add(sig)
        tried[d["name"]] = tried.get(d["name"], 0) + 1
        ok, path, msg = HN.confirm(pid, d["name"], v, n)
        n += 1
        if not ok:
            problems.append(f"{d['name']}: counterexample for '{v['label']}' did not reproduce ({path}): {v['detail'][:600]} {msg[-700:]}")
            return False
        confirmed.add(d["name"])
        k = next((k for k in known if k["harness"] == d["name"] and k["label"] in v["label"]), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
            return False
        print(f"VIOLATION property={pid} replay={path}")
        print(msg[:3000], flush=True)
        code = 1
        return True

    res, wall = HN.explore(pid, tier, limit, only, on_violation)
    for d in res:
        tag = f"{pid} {d['name']}: paths={d['paths']} infeasible={d['infeasible']} obligations={d['stats'].get('obl', 0)} solver={d['stats'].get('obl_nontriv', 0)} feas={d['stats'].get('feas', 0)} ({d['stats'].get('feas_t', 0):.1f}s) obl_t={d['stats'].get('obl_t', 0):.1f}s"
        print(tag, flush=True)
        conf = d["name"] in confirmed
        if code == 1:
            continue
        if d["unknown"]:
            problems.append(f"{d['name']}: {len(d['unknown'])} obligations undecided, e.g. {d['unknown'][:3]}")
        if d["enc"]:
            problems.append(f"{d['name']}: not encodable: {d['enc'][0]}")
        if not d["complete"] and not conf:
            problems.append(f"{d['name']}: exploration incomplete")
        if d["reached"] == 0 and not d["viol"] and not d["enc"]:
            problems.append(f"{d['name']}: vacuous (no path reaches the end of the harness)")
    tot = lambda k: sum(d["stats"].get(k, 0) for d in res)
    ev = dict(
        property=pid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level="model_checking",
        coverage=dict(
            states=sum(d["paths"] for d in res),
            transitions=sum(d["stats"].get("feas", 0) for d in res),
            traces_validated_against_impl=sum(d["reached"] for d in res),
            obligations=tot("obl"),
            discharged=tot("obl") - sum(len(d["unknown"]) + len(d["viol"]) for d in res),
            explanation="states = symbolic paths of the real code explored to completion; transitions = branch-feasibility queries sent to Z3; "
            "traces_validated_against_impl = paths on which the real implementation ran to the end of the harness under symbolic inputs; "
            "obligations = assertions (each decided for every input on its path)",
            functions_encoded=ck.functions,
            harnesses=[
                dict(
                    name=d["name"], bounds=d["bounds"], paths=d["paths"], infeasible=d["infeasible"], assertions=d["labels"],
                    solver_queries=d["stats"].get("feas", 0) + d["stats"].get("obl_nontriv", 0), normal_form_identities=d["nf"],
                    rounding_level_differences=d["approx"], feasibility_seconds=round(d["stats"].get("feas_t", 0), 2),
                    obligation_seconds=round(d["stats"].get("obl_t", 0), 2),
                )
                for d in res
            ],
            samples=[d["sample"] for d in res if d["sample"]][:6],
        ),
        assumptions=ck.assumptions
        + ["doubles are read as real numbers (rounding, overflow and signed zero are outside the claim)"],
        wall_s=round(time.time() - t0, 2),
        violations=1 if code == 1 else 0,
    )
    os.makedirs(os.path.join(HN.VERIF, "evidence"), exist_ok=True)
    if only is None:
        json.dump(ev, open(os.path.join(HN.VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if code == 1:
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE", p)
        return 2
    print(f"{pid}: held on everything explored ({tier}, {time.time() - t0:.1f}s)")
    return 0


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
