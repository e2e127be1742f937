#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current source by static analysis."""
import json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import build, parts
from engine import AnalysisError
from ir import IRError

KF = os.path.join(HERE, "known-findings.txt")


class Ctx:
    def __init__(self, b, tier):
        self.b, self.tier, self.progs = b, tier, {}
        self.budget = 300 if tier == "quick" else 3000

    def program(self, t):
        if t not in self.progs:
            self.progs[t] = self.b.program(t)
        return self.progs[t]


def known():
    """finding: property=<id> kind=<kind> function=<function> match=<regex> :: text"""
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r"finding: property=(\S+) kind=(\S+) function=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick, deep = parts.PLAN[prop]
    todo = list(quick) + (list(deep) if tier == "thorough" else [])
    results, errors = [], []
    viol, kf = [], []
    with build.Builder() as b:
        ctx = Ctx(b, tier)
        for p in todo:
            try:
                r = p(ctx, prop)
            except (AnalysisError, IRError, build.BuildError) as e:
                errors.append(f"{p.__name__}: {e}")
                r = getattr(e, "partial", None)
            except Exception as e:
                traceback.print_exc()
                errors.append(f"{p.__name__}: {type(e).__name__}: {e}")
                r = None
            if r is not None:
                results.append(r)
                for x in r.reports:
                    if x["prop"] != prop:
                        continue
                    for kp, kk, kfn, kre, txt in known():
                        if kp == prop and kk == x["kind"] and kfn == x["function"] and re.search(kre, x["msg"]):
                            kf.append((x, txt))
                            break
                    else:
                        viol.append(x)
            if viol:
                break
    outdir = os.path.join(HERE, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    uniq = {}
    for x in viol:
        uniq.setdefault((x["kind"], x["loc"], x["function"], x["msg"]), x)
    viol = list(uniq.values())
    lines = []
    for i, x in enumerate(viol):
        path = os.path.join(outdir, f"violation-{i + 1}.txt")
        with open(path, "w") as f:
            f.write(f"property: {prop}\nrule: {x['kind']}\nplace: {x['loc']} in {x['function']}\nwhat: {x['msg']}\n"
                    f"analysis: {x['part']}\ncall stack: {' <- '.join(x.get('stack', []))}\npath:\n")
            for loc, txt in x.get("trail", []):
                f.write(f"  {loc}: {txt}\n")
        lines.append((x, path))
    for t in sorted({t for _, t in kf}):
        print(f"KNOWN-FINDING: property={prop} {t}")
    for x, path in lines[:20]:
        print(f"{x['loc']}: {x['function']}: [{x['kind']}] {x['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    fns = sorted(set().union(*[r.functions for r in results])) if results else []
    cov = {"explanation": "abstract interpretation / dataflow over the LLVM IR of the current source tree; every path of the "
                          "analysed functions is followed under the stated bounds and every system-call outcome is considered; "
                          "no code of the repository is executed",
           "functions_analysed": len(fns), "functions": fns,
           "call_sites": sum(r.sites for r in results),
           "parts": [{"name": r.name, "wall_s": round(r.wall, 2), "counts": r.counts, "bounds": r.bounds, "rules": r.rules,
                      "notes": r.notes} for r in results]}
    rules = sorted({k for r in results for k in r.rules})
    if rules:
        cov["rules"] = rules
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": parts.ASSUME.get(prop, []) + parts.ASSUME["*"],
          "violations": len(lines)}
    if lines:
        cov["violations"] = [{"what": f"{x['loc']} {x['function']}: {x['msg']}", "replay": p} for x, p in lines]
    if errors:
        ev["coverage"]["errors"] = errors
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for e in errors:
        print("analysis error:", e, file=sys.stderr)
    if viol:
        return 1
    if errors:
        return 2
    print(f"{prop}: held on everything analysed ({len(fns)} functions, {sum(r.sites for r in results)} call sites, "
          f"{time.time() - t0:.1f} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
