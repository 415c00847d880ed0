#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current source."""
import importlib
import json
import os
import resource
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)

REG = {}


def register():
    import rules
    from rules import ALL
    return ALL


def decide(prop, tier, seed, release=False):
    """the obligations of one property on the program as compiled with or without debug assertions; None if the two
    forms are the same program"""
    from sa import build
    from sa.ctx import Ctx, Missing
    from sa.interp import Unsupported
    fn = register()[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.p = build.load(release)
        if ctx.p is None:
            return None
        fn(ctx)
        floor = getattr(fn, "floor", 1)
        if len(ctx.obs) < floor:
            ctx.ob("obligation floor", False, "", "only %d obligations were found, at least %d are expected"
                   % (len(ctx.obs), floor))
    except Missing as x:
        ctx.ob("anchor missing: %s" % x, False, str(x), "a construct this property is anchored in is gone")
    except Unsupported as x:
        inner = "; ".join("%s: %s" % q for q in getattr(x, "trail", [])[:1])
        ctx.ob("undecided construct", False, inner, "outside the analysed language: %s" % x)
    except build.BuildError as x:
        ctx.ob("program does not build", False, "", str(x)[-1500:])
    except RecursionError as x:
        ctx.ob("undecided construct", False, "", "recursion depth of the analyser exceeded")
    except MemoryError as x:
        ctx.ob("undecided construct", False, "", "memory of the analyser exhausted")
    except Exception as x:  # fail closed
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.ob("undecided construct", False, "", "analyser error: %s: %s" % (type(x).__name__, x))
    return ctx


def other_form(prop, tier):
    """start the process that decides the form compiled without debug assertions"""
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--release-form"]
                            + (["--thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, text=True)


def other_answer(r):
    """its obligations; none if that form is the same program"""
    out, _ = r.communicate()
    for l in out.splitlines():
        if l.startswith("FORM "):
            return json.loads(l[5:])
    return [{"key": "form without debug assertions", "ok": False, "where": "", "sig": None,
             "detail": "the program as compiled without debug assertions could not be analysed"}]


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from sa import build
    form = other_form(prop, tier)
    ctx = decide(prop, tier, seed)
    again = other_answer(form)
    for o in again or []:
        o = dict(o)
        o["release"] = True
        ctx.obs.append(o)
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == prop and k["status"] == "known"]
    bad, kn = [], []
    for o in ctx.obs:
        if o["ok"]:
            continue
        hit = None
        for k in known:
            if k["key"] == o["key"] and k["signature"] == (o["sig"] or ""):
                hit = k
        if hit:
            kn.append((hit, o))
        else:
            bad.append(o)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": " ".join(ctx.rules),
            "obligations": len(ctx.obs),
            "forms": "debug and release forms are the same program" if again is None else
                     "debug and release forms differ: both analysed",
            "discharged": sum(1 for o in ctx.obs if o["ok"]),
            "known_findings": len(kn),
            "functions_analysed": len(ctx.analysed),
            "functions": sorted(ctx.p.path(x) for x in ctx.analysed)[:200] if ctx.p else [],
            "source_lines": build.sources(),
            "counts": ctx.counts,
            "samples": [{"obligation": o["key"], "where": o["where"], "holds": o["ok"]} for o in ctx.obs[:60]],
            "notes": ctx.notes,
            "trusted": ctx.trusted,
        },
        "violations": [{"key": o["key"], "where": o["where"], "detail": o["detail"]} for o in bad],
        "wall_s": round(time.time() - t0, 2),
    }
    evd = os.environ.get("SETT_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d functions analysed, %.1f s"
          % (prop, len(ctx.obs), ev["coverage"]["discharged"], len(ctx.analysed), time.time() - t0))
    for w in dict.fromkeys(k["what"] for k, o in kn):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if bad:
        rp = os.path.join(build.BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        rp = os.path.join(rp, prop + ".json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "replay": "python3-vt check.py %s" % prop, "violations": bad}, f,
                      indent=1, default=str)
        for o in bad[:12]:
            print("  violated: %s\n     at %s\n     %s"
                  % (o["key"] + (" (compiled without debug assertions)" if o.get("release") else ""), o["where"],
                     o["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or hard > 14 << 30:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, hard))
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    rc = [1]

    def go():
        rc[0] = main(a[0], tier)

    if "--release-form" in sys.argv:
        def go():
            ctx = decide(a[0], tier, int(os.environ.get("VERIF_SEED", "1")), True)
            print("FORM " + json.dumps(None if ctx is None else ctx.obs, default=str))
            rc[0] = 0

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
