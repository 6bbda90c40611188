#!/usr/bin/env python3
"""check.py <property>   decide one property on /repo's current tree (VERIF_TIER=quick|thorough)
check.py --setup      build the analyser and the metadata of core for every target"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks, structure

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        core.setup([c.target for c in core.CONFIGS + structure.matrix()])
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in checks.PROPS:
        sys.exit("usage: check.py C01..C22 | --setup")
    sys.exit(checks.main(sys.argv[1]))
