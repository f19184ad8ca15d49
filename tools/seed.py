"""Planting tool. seed.add(name, prop, edits, demo, needs, breaks): makes seeded/<name>/.
`python3 tools/seed.py verify NAME...` confirms each in a scratch copy: demo passes without, fails with;
stable tests pass with.  `python3 tools/seed.py run NAME...` runs the property's check against it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"


def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    return d, r


def add(name, prop, edits, demo, needs, breaks):
    d, r = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "edit matches", s.count(old), "times in", f)
                return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(SEEDED, name)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + demo.strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# cwd is /repo\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def verify(name, tests=True):
    sd = os.path.join(SEEDED, name)
    d, r = copy()
    try:
        demo = lambda: subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=r, capture_output=True, text=True)
        a = demo()
        subprocess.run(["git", "-C", r, "apply", os.path.join(sd, "patch.diff")], check=True)
        b = demo()
        miss = None
        if tests:
            t = open("/opt/vp/test.sh").read().replace("/repo", r)
            ts = os.path.join(d, "test.sh")
            open(ts, "w").write(t)
            subprocess.run(["bash", ts, os.path.join(d, "out.json")], capture_output=True, text=True)
            o = set(json.load(open(os.path.join(d, "out.json")))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o]
        ok = a.returncode == 0 and b.returncode != 0 and not miss
        print("OK " if ok else "BAD", name, "demo clean=%d patched=%d" % (a.returncode, b.returncode), "missing tests: %s" % miss)
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:])
        if not ok and b.returncode == 0:
            print(b.stdout[-500:])
        return ok
    finally:
        shutil.rmtree(d)


def run(name, props=None):
    sd = os.path.join(SEEDED, name)
    prop = json.load(open(os.path.join(sd, "meta.json")))["property"]
    d, r = copy()
    try:
        subprocess.run(["git", "-C", r, "apply", os.path.join(sd, "patch.diff")], check=True)
        env = dict(os.environ, DIFFMAH_SA_REPO=r, DIFFMAH_SA_EVID=os.path.join(d, "ev"))
        for p in props or [prop]:
            o = subprocess.run(["python3-vt", "check.py", p], cwd=VERIF, env=env, capture_output=True, text=True)
            print({0: "MISSED", 1: "CAUGHT"}.get(o.returncode, "ERROR %d" % o.returncode), name, p)
            if p == prop or o.returncode:
                print("    " + "\n    ".join(x[:300] for x in o.stdout.splitlines()[:4]))
            if o.returncode not in (0, 1):
                print(o.stderr[-800:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, names = sys.argv[1], sys.argv[2:]
    if names and names[0] == "all" or not names:
        names = sorted(os.listdir(SEEDED))
    for n in names:
        {"verify": verify, "run": run, "runall": lambda n: run(n, sorted(x for x in subprocess.run(
            ["python3-vt", "check.py"], cwd=VERIF, capture_output=True, text=True).stdout.split(":")[-1].split()))}[cmd](n)
