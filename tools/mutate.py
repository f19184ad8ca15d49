"""Development aid: static mutants of the repository's source, and which of
them no check reports.  python3-vt tools/mutate.py FILE... [--limit N] [--jobs N] [--only P01,P02]
(never part of a registered check; the mutants live in a scratch directory)"""
import argparse
import ast
import copy
import glob
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
SWAP = [("early", "late"), ("cens", "sats"), ("cen", "sat"), ("lo", "hi"), ("alpha", "beta"), ("min", "max"), ("x0", "k"), ("ylo", "yhi"), ("mean", "std"), ("c0", "c1"), ("u_params", "params"), ("start", "end"), ("t_obs", "t_peak"), ("lgm", "t")]


def mutants(src):
    tree = ast.parse(src)
    nodes = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    parents = {}
    scope = {}

    def visit(n, s):
        if isinstance(n, ast.FunctionDef):
            s = n
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n
            scope[id(c)] = s
            visit(c, s)

    visit(tree, None)
    names_in = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            names_in.setdefault(id(scope.get(id(n))), set()).add(n.id)
        if isinstance(n, ast.arg):
            names_in.setdefault(id(scope.get(id(n))), set()).add(n.arg)
    glob_names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
    out = []

    def emit(desc, node, edit, undo):
        edit()
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:
            new = None
        undo()
        if new:
            out.append(("%d: %s" % (getattr(node, "lineno", 0), desc), new))

    def setf(o, f, v, desc, node=None):
        old = getattr(o, f)
        emit(desc, node or o, lambda: setattr(o, f, v), lambda: setattr(o, f, old))

    def seti(l, i, v, desc, node):
        old = l[i]
        emit(desc, node, lambda: l.__setitem__(i, v), lambda: l.__setitem__(i, old))

    for n in list(ast.walk(tree)):
        if isinstance(n, ast.BinOp):
            t = type(n.op)
            if t in BIN:
                setf(n, "op", BIN[t](), "%s -> %s in %s" % (t.__name__, BIN[t].__name__, ast.unparse(n)[:60]))
            if t in (ast.Sub, ast.Div, ast.Pow):
                emit("swap operands of %s" % ast.unparse(n)[:60], n, lambda n=n: (lambda a, b: (setattr(n, "left", b), setattr(n, "right", a)))(n.left, n.right),
                     lambda n=n: (lambda a, b: (setattr(n, "left", b), setattr(n, "right", a)))(n.left, n.right))
        elif isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), []):
                seti(n.ops, 0, c(), "%s -> %s in %s" % (type(n.ops[0]).__name__, c.__name__, ast.unparse(n)[:60]), n)
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                setf(n, "value", not v, "%r -> %r" % (v, not v))
            elif isinstance(v, int):
                for w in {v + 1, v - 1 if v else 1}:
                    setf(n, "value", w, "%r -> %r" % (v, w))
            elif isinstance(v, float):
                setf(n, "value", v * 1.01 + 0.01, "%r -> %r" % (v, v * 1.01 + 0.01))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            setf(n, "op", ast.UAdd(), "drop minus of %s" % ast.unparse(n)[:60])
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]):
                        emit("swap args %d,%d of %s" % (i, i + 1, ast.unparse(n)[:70]), n, lambda n=n, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]]),
                             lambda n=n, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]]))
            for i in range(len(n.keywords)):
                emit("drop keyword %s of %s" % (n.keywords[i].arg, ast.unparse(n)[:60]), n, lambda n=n, i=i, c=list(n.keywords): setattr(n, "keywords", c[:i] + c[i + 1:]),
                     lambda n=n, c=list(n.keywords): setattr(n, "keywords", c))
        elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
            f = "id" if isinstance(n, ast.Name) else "attr"
            v = getattr(n, f)
            for a, b in SWAP:
                for x, y in ((a, b), (b, a)):
                    if re.search(r"(?<![a-z])%s(?![a-z])" % re.escape(x), v):
                        w = re.sub(r"(?<![a-z])%s(?![a-z])" % re.escape(x), y, v)
                        pool = names_in.get(id(scope.get(id(n))), set()) | glob_names if f == "id" else None
                        if w != v and (pool is None or w in pool):
                            setf(n, f, w, "%s -> %s" % (v, w))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
            pass
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(getattr(n, "ctx", None), (ast.Load, ast.Store)) and len(n.elts) >= 2:
            for i in range(len(n.elts) - 1):
                if ast.dump(n.elts[i]) != ast.dump(n.elts[i + 1]):
                    emit("swap elements %d,%d of %s" % (i, i + 1, ast.unparse(n)[:70]), n, lambda n=n, i=i: n.elts.__setitem__(slice(i, i + 2), [n.elts[i + 1], n.elts[i]]),
                         lambda n=n, i=i: n.elts.__setitem__(slice(i, i + 2), [n.elts[i + 1], n.elts[i]]))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Module)):
            for i, st in enumerate(n.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    if isinstance(n, ast.Module) and isinstance(st, ast.Assign):
                        continue
                    if isinstance(st, ast.Assign):
                        tg = [x.id for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name)]
                        use = set(ast.unparse(st.value).replace("(", " ").replace(")", " ").replace(",", " ").split())
                        if not any(t in use for t in tg) and not any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in st.targets):
                            continue
                    seti(n.body, i, ast.Pass(), "delete %s" % ast.unparse(st)[:70], st)
    return out


def relevant(rel, evid):
    mod = rel[:-3].replace("/", ".")
    ids = []
    for f in sorted(glob.glob(os.path.join(evid, "P??.json"))):
        d = json.load(open(f))
        n = sum(1 for q in d["coverage"]["functions_analysed"] if q.startswith(mod + "."))
        if n or mod in d["coverage"]["modules_analysed"]:
            ids.append((-n, d["coverage"].get("obligations", 0), d["property"]))
    return [p for n, o, p in sorted(ids)]


def work(job):
    rel, desc, text, ids, scratch = job
    d = tempfile.mkdtemp(dir=scratch)
    try:
        for sub in ("diffmah", "scripts"):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub), ignore=shutil.ignore_patterns("tests", "*.ipynb", "__pycache__", "data"))
        with open(os.path.join(d, rel), "w") as fh:
            fh.write(text)
        pid = os.fork()
        if pid == 0:
            import io

            out = os.path.join(d, "out")
            os.environ["DIFFMAH_SA_REPO"] = d
            os.environ["DIFFMAH_SA_EVID"] = os.path.join(d, "ev")
            fd = os.open(out, os.O_WRONLY | os.O_CREAT)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            import check
            from sa import core

            core.REPO = d
            res = {"killed": None, "und": [], "err": []}
            for p in ids:
                try:
                    r = core.run_check(p, "quick")
                except BaseException as e:
                    res["err"].append("%s %r" % (p, e))
                    continue
                if r == 1:
                    res["killed"] = p
                    break
                if r == 2:
                    res["err"].append(p)
                j = json.load(open(os.path.join(d, "ev", p + ".json"))) if r != 2 else None
                if j and j["coverage"]["undecided"]:
                    res["und"].append(p + ": " + j["coverage"]["undecided"][0]["reason"][:90])
            json.dump(res, open(os.path.join(d, "res"), "w"))
            os._exit(0)
        os.waitpid(pid, 0)
        try:
            res = json.load(open(os.path.join(d, "res")))
        except Exception:
            res = {"killed": None, "und": [], "err": ["crash"]}
        return rel, desc, res
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default="")
    ap.add_argument("--evid", default="/tmp/evid")
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="mut", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    jobs = []
    for rel in a.files:
        src = open(os.path.join(REPO, rel)).read()
        ids = a.only.split(",") if a.only else relevant(rel, a.evid)
        ms = mutants(src)
        if a.limit and len(ms) > a.limit:
            random.Random(a.seed).shuffle(ms)
            ms = ms[: a.limit]
        jobs += [(rel, d, t, ids, scratch) for d, t in ms]
    tot = {}
    try:
        with mp.Pool(a.jobs) as pool:
            for rel, desc, res in pool.imap(work, jobs):
                k = tot.setdefault(rel, [0, 0])
                k[0] += 1
                if res["killed"]:
                    k[1] += 1
                else:
                    print("SURVIVES %s:%s%s%s" % (rel, desc, "  UND " + "; ".join(res["und"][:2]) if res["und"] else "", "  ERR " + str(res["err"]) if res["err"] else ""), flush=True)
    finally:
        shutil.rmtree(scratch)
    for rel, (n, kd) in tot.items():
        print("%s: %d mutants, %d reported" % (rel, n, kd))


if __name__ == "__main__":
    main()
