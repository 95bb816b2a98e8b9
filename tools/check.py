"""check.py <property>: decides one property (see MANIFEST.json, DESIGN.md)."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import props


def known(prop):
    """Recorded findings of this property: list of (signature, text)."""
    res = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    fn = getattr(props, prop)
    run = Run(prop)
    code, result = 0, "held"
    try:
        for _, text in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        fn(run)
        print("%s: held on everything explored (%.0f s)" % (prop, time.time() - run.t0))
    except Violation as v:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-seed%d-%s.json" % (prop, SEED, TIER))
        with open(p, "w") as f:
            json.dump({"property": prop, "what": v.what, "seed": SEED, "tier": TIER,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s bash tools/check.sh %s" % (SEED, TIER, prop), "data": v.data}, f, indent=1)
        print("what:", v.what)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        code, result = 1, "violated: " + v.what
    except ToolError as e:
        print("check error:", e)
        code, result = 2, "check error: " + str(e)[:500]
    except Exception:
        traceback.print_exc()
        code, result = 2, "check error"
    finally:
        run.close()
    run.evidence(props.LEVEL.get(prop, "model_checking"), result)
    return code


sys.exit(main())
