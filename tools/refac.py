"""Behaviour-preserving edits on which every check must stay quiet.
`python3 tools/refac.py [NAME...]` applies each variant of tools/refactorings/*.py to a scratch copy of the
sources and runs all checks (or those named with --only) on it; prints alarms and undecided obligations."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = {}
    for p in sorted(glob.glob(os.path.join(VERIF, "tools", "refactorings", "*.py"))):
        sp = importlib.util.spec_from_file_location("rf_" + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for name, edits in m.VARIANTS.items():
            out[name] = edits
    return out


def run(name, edits, only):
    d = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "*.egg-info"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "BAD", ["edit does not match in %s: %r" % (f, old[:60])]
            s = s.replace(old, new)
            compile(s, f, "exec")
            open(p, "w").write(s)
        env = dict(os.environ, DIFFMAH_SA_REPO=r, DIFFMAH_SA_EVID=os.path.join(d, "ev"))
        o = subprocess.run(["python3-vt", os.path.join(VERIF, "check.py")] + (only or ["all"]), env=env, capture_output=True, text=True)
        lines = [l for l in o.stdout.splitlines() if "violated" in l or "undecided:" in l or l.startswith(("VIOLATION", "ANALYSIS", "    "))]
        if o.returncode not in (0, 1):
            lines.append((o.stdout + o.stderr)[-600:])
        tag = "ALARM" if o.returncode else "undecided" if any("undecided:" in l for l in lines) else "quiet"
        return name, tag, lines
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    only = None
    if "--only" in a:
        i = a.index("--only")
        only = a[i + 1].split(",")
        del a[i : i + 2]
    V = load()
    names = [n for n in V if not a or any(n.startswith(x) for x in a)]
    with ThreadPoolExecutor(7) as ex:
        for name, tag, lines in ex.map(lambda n: run(n, V[n], only), names):
            print(tag, name, flush=True)
            if tag != "quiet":
                for l in lines[:14]:
                    print("     ", l[:260])
