#!/opt/veriftools/pyvenv/bin/python
"""python3-vt check.py <PROPERTY> [--tier quick|thorough]: decide one property statically."""
import importlib
import os
import pkgutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sa.checks
from sa import core

for _m in pkgutil.iter_modules(sa.checks.__path__):
    importlib.import_module("sa.checks." + _m.name)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--selftest" in a:
        print("%d checks registered" % len(core.CHECKS))
        return 0
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    ids = [x for x in a if x in core.CHECKS]
    if "all" in a:
        ids = sorted(core.CHECKS)
    if not ids:
        print("known properties:", " ".join(sorted(core.CHECKS)))
        return 2
    rc = 0
    for pid in ids:
        r = core.run_check(pid, "thorough" if tier == "thorough" else "quick")
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
