#!/usr/bin/env python3
"""check.py Cxx : decides one property for /repo's working tree (VERIF_TIER=quick or thorough, VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import fnlib, registry

def main():
    pid = sys.argv[1]
    try:
        if pid == "setup":
            print("built", fnlib.build())
            return 0
        rc = registry.run(pid)
    except fnlib.CheckError as e:
        sys.stdout.write("CHECK ERROR %s: %s\n" % (pid, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()
