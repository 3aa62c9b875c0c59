"""Merging the shards of one check, writing the evidence, reporting violations."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ["z3 5.x, cvc5 1.1 (unsat answers)", "the jaxpr interpreter, term simplifier and polynomial canonicaliser in /verif/engine, and sympy's polynomial arithmetic",
           "jax.make_jaxpr: the traced jaxpr is the program XLA runs"]
ASSUMPTIONS = ["floating point is treated as exact real arithmetic with IEEE inf/nan propagation: rounding, overflow, underflow and signed zeros are dropped",
               "floating literals denote their shortest decimal",
               "XLA compiles jaxprs correctly; jaxtyping/beartype decorators only check types"]


def report(prop, tier, dumps, t0):
    level, trusted, explanation = dumps[0]["args"]
    cs = [c for d in dumps for c in d["contracts"]]
    manual = [m for d in dumps for m in d["manual"]]
    violations = [v for d in dumps for v in d["violations"]]
    known = []
    for d in dumps: known += [k for k in d["known"] if k not in known]
    extra = {}
    for d in dumps: extra.update(d["extra"])
    assumptions = list(ASSUMPTIONS)
    for d in dumps: assumptions += [x for x in d["assumptions"] if x not in assumptions]
    obl = [o for c in cs for o in c["obls"]]
    unb = [o for c in cs if not c["bounded"] for o in c["obls"]]
    bnd = [o for c in cs if c["bounded"] for o in c["obls"]]
    mu = [m for m in manual if not m["bounded"]]; mb = [m for m in manual if m["bounded"]]
    proved = [o for o in unb if o["status"] == "proved"]
    bproved = [o for o in bnd if o["status"] == "proved"]
    sampled = [o for o in obl if o["by"] == "sampled only"]
    obl = [o for o in obl if o not in sampled]; unb = [o for o in unb if o not in sampled]; bnd = [o for o in bnd if o not in sampled]
    und = [o for o in obl if o["status"] not in ("proved", "refuted")]
    by = {}
    for o in proved + bproved: by[o["by"]] = by.get(o["by"], 0) + 1
    for m in manual:
        if m["ok"]: by[m["how"]] = by.get(m["how"], 0) + 1
    vac = [c["name"] for c in cs if (c["error"] or "").startswith("VACUOUS")]
    st = {"queries": 0, "solver_s": 0.0, "by": {}}
    for d in dumps:
        st["queries"] += d["stats"]["queries"]; st["solver_s"] += d["stats"]["solver_s"]
        for k, n in d["stats"]["by"].items(): st["by"][k] = st["by"].get(k, 0) + n
    cov = {
        "obligations": len(unb) + len(mu), "discharged": len(proved) + sum(m["ok"] for m in mu),
        "bounded_obligations": len(bnd) + len(mb), "bounded_discharged": len(bproved) + sum(m["ok"] for m in mb),
        "bounds": sorted({c["bounded"] for c in cs if c["bounded"]} | {m["bounded"] for m in mb}),
        "only_sampled": [f"{o['contract']}:{o['label']}" for o in sampled],
        "undischarged": [f"{o['contract']}:{o['label']} ({o['by']})" for o in und],
        "discharged_by": by, "functions_under_contract": sorted({f for c in cs for f in c["functions"]} | set(extra.pop("functions", []))),
        "contracts": len(cs) + len({m["contract"] for m in manual}), "native_runs": sum(c["native"] for c in cs),
        "solver_queries": st["queries"], "solver_seconds": round(st["solver_s"], 2), "solver_calls": st["by"],
        "not_applicable_contracts": [f"{c['name']}: {c['error']}" for c in cs if (c["error"] or "").startswith("not applicable")],
        "preconditions_reached": sum(c["reached"] for c in cs), "vacuous": vac,
        "checker_cmd": f"python3 check.py {prop}", "trusted_base": list(trusted) + TRUSTED,
    }
    cov.update(extra)
    if cov["obligations"] == 0 and level == "proof":
        level = "other"
        explanation = explanation or ("contracts on the real functions whose obligations are all discharged for arbitrary element values (coordinates, objects, functions are symbolic or "
                                      "uninterpreted), but only for the sizes listed under bounds: bounded, not counted as proved")
    if explanation: cov["explanation"] = explanation
    if level == "exploration":
        cov["evaluations"] = cov["obligations"] + cov["bounded_obligations"] + cov["native_runs"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for k in known: print(k)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged (+{cov['bounded_discharged']}/{cov['bounded_obligations']} bounded), "
          f"{len(und)} undecided, {cov['native_runs']} native runs, {cov['solver_queries']} solver queries, {ev['wall_s']} s")
    for u in cov["undischarged"]: print("  undischarged:", u)
    for u in cov["not_applicable_contracts"]: print("  ", u)
    if vac: print("  VACUOUS:", vac)
    if cov["obligations"] + cov["bounded_obligations"] == 0:
        print("no obligation was generated"); return 3
    if violations:
        d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        violations.sort(key=lambda v: not v[1])
        rec, replayed = violations[0]
        p = os.path.join(d, f"{prop}.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "violations": [{**r, "replayed": q} for r, q in violations], "rerun": f"python3 check.py {prop}"}, f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={p}" + ("" if replayed else " no-failing-input-found"))
        print("  ", json.dumps({**rec}, default=str)[:600], file=sys.stderr)
        return 1
    return 0
