#!/usr/bin/env python3
"""check.py <property> -- decide one property on /repo's current sources"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, engine


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = getattr(checks, "jobs_" + prop)()
    try:
        rc = engine.run_check(prop, jobs, tier, seed, checks.META[prop][1], checks.META[prop][0], checks.TECHNIQUE)
    except engine.CheckError as e:
        engine.log("[%s] error: %s" % (prop, e))
        rc = 2
    sys.exit(rc)


main()
