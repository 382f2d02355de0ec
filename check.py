#!/usr/bin/env python3
"""check.py <property> <quick|thorough>"""
import os, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base, props


def attempt(prop, tier):
    run = base.Run(prop, tier)
    try:
        run.build()
        level = props.CHECKS[prop](run)
        return run.finish(level or "model_checking")
    except base.Broken as e:
        print("BROKEN property=%s: %s" % (prop, e), file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(run.work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rc = attempt(prop, tier)
    # a failure of the machinery (never a verdict) may be of the moment: once more, if there is time
    if rc == 3 and time.time() - t0 < 200:
        rc = attempt(prop, tier)
    return rc


sys.exit(main())
