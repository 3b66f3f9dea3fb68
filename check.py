#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property of /verif/properties.jsonl on the tree in /repo."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def main():
    import vrun
    prop = sys.argv[1]
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.endswith(".py"):
            m = importlib.import_module(f[:-3])
            if prop in getattr(m, "CHECKS", {}):
                vrun.main(prop, m.CHECKS[prop])
    sys.exit("no check for " + prop)


main()
