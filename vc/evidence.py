"""Evidence file of one run: what was put under contract, what was discharged and by what, what stays assumed."""
import os, json, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = [
 "clang 18 front end and mem2reg/sroa (C++ to LLVM IR of /repo's headers, compiled on every run)",
 "vc/ (VC generator over that IR, loop-summary inference, normaliser)", "z3 4.13 (python z3-solver), cvc5 1.1.2 when z3 gives up"]
ASSUME = [
 "double arithmetic is treated as exact real arithmetic (literals as the simplest rational that rounds to them); rounding is not modelled",
 "machine integers are mathematical integers (contracts marked overflow-checked excepted)",
 "distinct parameters of a contract do not overlap in memory"]
def write_evidence(pid, tier, m, rs, nat, nat_note, violations, kf, wall):
    backs = {}
    for r in rs:
        for b, n in r["backs"].items(): backs[b] = backs.get(b, 0) + n
    fns = sorted({f for r in rs for f in r["fns"]}); ext = sorted({f for r in rs for f in r["ext"]})
    real = [f for f in fns if "cafes" in f or "getMatElem" in f]
    bounded = [c.name for c in m.CONTRACTS if "bounded" in (c.note or "")]
    d = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof",
         "coverage": {
            "obligations": sum(r["goals"] for r in rs), "discharged": sum(r["proved"] for r in rs),
            "checker_cmd": "python3-vt -m vc.check %s --tier %s" % (pid, tier),
            "trusted_base": BASE + ["assumed contract of external function: " + f for f in ext],
            "contracts": [{"name": r["name"], "about": m.CONTRACTS[r["ci"]].functions, "note": m.CONTRACTS[r["ci"]].note, "paths": r["paths"], "infeasible_paths": r["dead"], "obligations": r["goals"],
                           "postconditions": r["posts"], "safety_and_invariant_obligations": r["safety"], "discharged": r["proved"],
                           "loops_cut_by_invariant": len(r["loops"]), "wall_s": round(r["wall"], 2)} for r in rs],
            "functions_of_repo_executed": real, "functions_of_repo_count": len(real),
            "backends": backs, "solver_s": round(sum(r["solver_s"] for r in rs), 2),
            "loops": sorted({"%s: %s" % (l[0], ",".join(l[1])) for r in rs for l in r["loops"]}),
            "bounded_contracts": bounded,
            "native_replay": nat_note, "native_samples": sum(x[0] for x in nat.values()),
            "known_findings": [k["what"] for k in kf]},
         "assumptions": ASSUME + list(getattr(m, "ASSUMES", ())) + sorted({a for r in rs for a in r["assumed"]}),
         "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
