#!/usr/bin/env python3
"""Decides one property.  usage: check.py PROPERTY [quick|thorough]
Exit 0: it held on everything explored; 1: VIOLATION; 2: no verdict (an error of the check)."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import campaign, decide


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = campaign.Check(pid, tier, seed)
    try:
        ck.build()
        decide.DECIDE[pid](ck)
        rc = ck.finish()
    except campaign.Machinery as e:
        print("ERROR of the check %s: %s" % (pid, e))
        rc = 2
        if ck.bad:                       # what was found before counts
            rc = ck.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.clean()
    sys.stdout.flush()
    sys.exit(rc)


main()
