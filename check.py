#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.
check.py --replay FILE: runs one reported text again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common as C, engine, plans


def replay(path):
    f = json.load(open(path))
    c = engine.Check(f["property"], "quick", 1)
    try:
        c.docs("replay", [f["text"]])
        c.flush()
        c.session("replay", [f["text"]])
        for v in c.found:
            print(v[2])
        print("diverges" if c.found else "agrees with the specification")
        return 1 if c.found else 0
    finally:
        c.close()


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    c = None
    try:
        c = engine.Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        plans.PLANS[prop](c)
        c.flush()
        return c.finish()
    except C.ToolError as e:
        print("ERROR: %s" % e)
        return c.finish() if c and c.found else 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if c:
            c.close()


sys.exit(main())
