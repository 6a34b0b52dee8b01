"""python3 -m pm.check <property> [--tier quick|thorough] | --setup | --list

Extracts the MIR facts of /repo's current working tree, decides one property, writes
evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines."""
import importlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
from pm import facts
from pm.spec import Ctx, Prog
from pm.registry import CHECKS

FINDINGS = os.path.join(HERE, "known_findings.txt")


def known(prop):
    """keys of the findings recorded (not the fixed ones) for a property: {key: text}"""
    out = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def keyof(k):
    return re.sub(r"\s+", "", k)


def main(argv):
    if "--list" in argv:
        print("\n".join(sorted(CHECKS)))
        return 0
    if "--setup" in argv:
        facts.extract()
        print("facts extracted, driver built")
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    try:
        data = facts.extract()
    except facts.ToolError as e:
        print("ERROR: %s" % e)
        return 2
    t_ex = time.time() - t0
    ctx = Ctx(Prog(data), prop, tier)
    mod, fn, rule = CHECKS[prop]
    ctx._guard(prop, lambda c: getattr(importlib.import_module("pm.props." + mod), fn)(c))
    kf = known(prop)
    found, seen = [], set()
    for key, where, msg in ctx.violations:
        k = keyof(key)
        if k in kf:
            seen.add(k)
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, kf[k]))
        else:
            found.append((k, where, msg))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": rule + " Every function was interpreted abstractly (value numbering, linear relations, "
                           "loop fixpoints) from the MIR of the current tree; nothing was executed.",
            "obligations": ctx.obligations, "discharged": ctx.discharged,
            "undecided": [{"where": w, "reason": r[:600]} for w, r in ctx.undecided],
            "known_findings_seen": sorted(seen),
            "functions_analysed": sorted(ctx.analysed), "counts": ctx.counts,
            "samples": [str(s)[:400] for s in ctx.samples[:30]],
            "extraction_s": round(t_ex, 1),
        },
        "assumptions": sorted(ctx.assumptions) + [
            "the summaries of std / serde / pulldown-cmark functions used by the interpreter are faithful",
            "usize arithmetic does not overflow on additions (documents are smaller than 2^63)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "where": w, "what": m} for k, w, m in found],
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1fs" % (
        prop, tier, ctx.obligations, ctx.discharged, len(ctx.undecided), len(found), len(ctx.analysed),
        time.time() - t0))
    for w, r in ctx.undecided[:20]:
        print("undecided: %s: %s" % (w, r[:200]))
    if found:
        rep = os.path.join(HERE, "evidence", prop + ".violation.txt")
        with open(rep, "w") as f:
            for k, w, m in found:
                f.write("%s\n  at %s\n  %s\n\n" % (k, w, m))
        for k, w, m in found:
            print("violated: %s at %s: %s" % (k, w, m[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
