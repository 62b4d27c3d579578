#!/usr/bin/env python3
"""run.py <PROPERTY-ID>: runs one property's check (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib")); sys.path.insert(0, os.path.join(here, "checks"))
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    if len(sys.argv) > 3: os.environ["VERIF_SEED"] = sys.argv[3]
    import vlib
    try:
        m = importlib.import_module(pid.lower())
        rc = m.main()
    except vlib.HarnessError as e:
        print("ERROR: " + str(e)); rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout); rc = 2
    sys.stdout.flush(); os._exit(rc)
main()
