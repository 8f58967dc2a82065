"""Runs one property check: dump, analyse, evidence, verdict."""
import json, os, resource, sys, threading, time, traceback
import dump
import scen
from scen import Check, Problem
import interp as I

V = dump.VERIF
KNOWN = os.path.join(V, "known_findings.json")


def modules():
    import importlib
    r = {}
    for n in sorted(f[:-3] for f in os.listdir(os.path.join(V, "engine")) if f.startswith("props_") and f.endswith(".py")):
        m = importlib.import_module(n)
        for k, v in vars(m).items():
            if len(k) == 3 and k[0] == "C" and k[1:].isdigit() and callable(v) and v.__module__ == n:
                r[k] = v
    return r


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == pid]


def check(pid, argv=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    c = Check(pid, tier == "thorough")
    c.tier = tier
    fatal = None
    limit = int(os.environ.get("CHECK_LIMIT", "5400" if c.thorough else "780"))
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 24 << 30))

    def give_up():
        sys.stdout.flush()
        finish(c, t0, "analysis: no verdict within %d s" % limit)
        sys.stdout.flush()
        os._exit(1)
    dog = threading.Timer(limit, give_up)
    dog.daemon = True
    dog.start()
    try:
        if "--no-dump" not in argv:
            dump.dump()
        modules()[pid](c)
    except Problem as e:
        fatal = "anchor: %s" % e
    except I.AnalysisError as e:
        fatal = "analysis: %s" % e
        if "-v" in argv:
            traceback.print_exc()
    except RuntimeError as e:
        fatal = "build: %s" % e
    except MemoryError:
        fatal = "analysis: no verdict within 14 GB"
    except Exception as e:
        fatal = "analysis: %s: %s" % (type(e).__name__, e)
        if "-v" in argv:
            print("\n".join(traceback.format_exc().splitlines()[-14:]))
    dog.cancel()
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    return finish(c, t0, fatal)


def finish(c, t0, fatal):
    pid, tier = c.pid, c.tier
    viol = []
    kf = known(pid)
    seen = set()
    for key, text, where in c.violations:
        if key in seen:
            continue
        seen.add(key)
        k = [e for e in kf if e["key"] == key]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
        else:
            viol.append((key, text, where))
    if fatal:
        viol.append(("%s:undecided" % pid, fatal, ""))
    if c.obs == 0 and not fatal:
        viol.append(("%s:vacuous" % pid, "no obligation was generated", ""))
    rd = os.path.join(dump.TGT, "replay")
    os.makedirs(rd, exist_ok=True)
    for i, (key, text, where) in enumerate(viol[:20]):
        p = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "key": key, "what": text, "where": where,
                   "replay": "python3 /verif/check.py %s" % pid}, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s\n  at %s\n  %s" % (key, where, text[:int(__import__("os").environ.get("WIT","2500"))]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "coverage": {
            "explanation": "Interprocedural gated value-flow analysis of the compiler's MIR of /repo's current tree (all "
                           "paths of each entry point at once, symbolic inputs); each obligation compares what the code "
                           "does on every path with the property's statement.",
            "scenarios": c.scens, "obligations": c.obs, "discharged": c.obs - len(c.violations),
            "rules": c.rules, "entry_point_analyses": c.runs,
            "functions_analysed": len(c.fnset), "repo_functions": sorted(f for f in c.fnset if f.startswith("halo")
                                                                          or f.startswith("bignumber") or f.startswith("<halo"))[:120],
            "call_sites_resolved": c.calls, "mir_statements": c.steps,
            "samples": [{"rule": a, "instance": b, "holds": g, "where": w} for a, b, g, w in c.samples[:12]],
        },
        "assumptions": c.extra.get("assumptions", []) + BASE,
    }
    ev["coverage"].update({k: v for k, v in c.extra.items() if k != "assumptions"})
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if not viol:
        print("OK property=%s obligations=%d scenarios=%d functions=%d wall=%.1fs" % (pid, c.obs, len(c.scens), len(c.fnset), time.time() - t0))
    return 1 if viol else 0


BASE = ["rustc's MIR and the models of std, cosmwasm-std, cw-storage-plus and serde in engine/models.py are right",
        "list-valued inputs are analysed for the lengths named in DESIGN.md; all other inputs are unbounded"]
