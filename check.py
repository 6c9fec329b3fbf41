#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current sources.
exit 0: holds; exit 1 + VIOLATION line: broken; exit 2: the analysis could not be carried out."""
import sys, os, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/engine", HERE + "/checks", HERE]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from core import Report
    from facts import AnalysisError
    rep = Report(pid)
    rep.tier = tier
    try:
        mod = importlib.import_module(pid)
        mod.run(rep)
        ab = sys.modules.get("absev")
        if ab and ab.AbsEval.limited:
            raise AnalysisError("too many abstract states in " + ", ".join(ab.AbsEval.limited))
        for k, n in getattr(mod, "FLOORS", {}).items():
            rep.floor(k, n)
        if rep.obl == 0:
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        if not rep.viol:
            print(f"ANALYSIS-ERROR property={pid} {e}")
            sys.exit(2)
        rep.note(f"analysis stopped early: {e}")
    known = {}
    try:
        for e in json.load(open(HERE + "/known_findings.json"))["findings"]:
            if e["property"] == pid and e["status"] == "known":
                known[e["key"]] = e
    except FileNotFoundError:
        pass
    new, old = [], []
    for k, t in rep.viol:
        (old if k in known else new).append((k, t))
    cov = {"obligations": rep.obl, "discharged": rep.discharged, "analysed": rep.analysed,
           "rules": rep.rules or [mod.__doc__ or ""], "samples": rep.samples[:60], "notes": rep.notes[:80],
           "known_findings": [k for k, _ in old], "violations": [t for _, t in new],
           "explanation": (mod.__doc__ or "").strip()}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", ["clang 18's resolution of /repo's sources (declaration-only stubs for wignerSymbols and omp.h)"]),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, t in old:
        print(f"KNOWN-FINDING: property={pid} {k}: {known[k]['what']}")
    for k in known:
        if all(k != o for o, _ in old):
            print(f"note: known finding no longer reported: {k}")
    print(f"{pid}: {rep.discharged}/{rep.obl} obligations discharged, {len(new)} violations, {len(old)} known findings; {rep.analysed} ({ev['wall_s']} s)")
    if os.environ.get("PI_VERBOSE"):
        for s in rep.samples[:int(os.environ["PI_VERBOSE"]) or 1]: print("  ok:", s)
        for s in rep.notes: print("  note:", s)
    if new:
        rp = f"{HERE}/evidence/{pid}.violation.txt"
        with open(rp, "w") as f:
            for k, t in new:
                f.write(f"[{k}]\n{t}\n\n")
        for k, t in new:
            print(f"  [{k}] {t}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violation.txt")
        sys.exit(1)
    rp = f"{HERE}/evidence/{pid}.violation.txt"
    if os.path.exists(rp):
        os.remove(rp)
    sys.exit(0)

try:
    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    print("ANALYSIS-ERROR (internal)")
    sys.exit(2)
