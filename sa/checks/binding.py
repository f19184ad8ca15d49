"""P35: every import, attribute and call between the repository's modules binds."""
import ast
import builtins
import os

from ..core import prop, Fail, Undecided, REPO

SKIP = {"scripts/fitting_scripts/history_fitting_script.py": "documents that it only runs on diffmah<=0.6.2"}
TRANSPARENT = {"jit", "jjit", "vmap", "checkpoint", "remat"}  # same call signature as the wrapped function
MODVARS = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__"}


class Sig:
    """parameters a callable binds"""

    def __init__(self, name, pos, req, kwonly=(), kwreq=(), posonly=(), var=False, varkw=False):
        self.name, self.pos, self.req, self.kwonly, self.kwreq, self.posonly, self.var, self.varkw = name, list(pos), set(req), set(kwonly), set(kwreq), set(posonly), var, varkw

    @classmethod
    def of(cls, node):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = pos[: len(pos) - len(a.defaults)]
        kwo = [x.arg for x in a.kwonlyargs]
        kwr = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return cls(node.name, pos, req, kwo, kwr, [x.arg for x in a.posonlyargs], a.vararg is not None, a.kwarg is not None)

    def bind(self, call):
        """why the call does not bind, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = sum(not isinstance(x, ast.Starred) for x in call.args)
        if npos > len(self.pos) and not self.var:
            return "takes %d positional arguments, %d given" % (len(self.pos), npos)
        seen = set() if star else set(self.pos[:npos])
        lead = 0
        for x in call.args:
            if isinstance(x, ast.Starred):
                break
            lead += 1
        seen |= set(self.pos[:lead])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in seen and k.arg not in self.posonly:
                return "argument %s is given twice" % k.arg
            if (k.arg not in self.pos or k.arg in self.posonly) and k.arg not in self.kwonly and not self.varkw:
                return "has no argument %s" % k.arg
            seen.add(k.arg)
        if not star and not dstar:
            miss = [p for p in self.pos if p in self.req and p not in seen] + [p for p in self.kwreq if p not in seen]
            if miss:
                return "required argument %s is not given" % ", ".join(miss)
        return None


class Mod:
    def __init__(self, name, path, rel, pkg):
        self.name, self.rel, self.pkg = name, rel, pkg
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.stars = []
        self.defs = {}  # name -> list of definitions ("def", node) ("import", mod) ("from", mod, name) ("expr", node) ("other",)
        self.exports = None
        self._collect(self.tree.body)

    def _put(self, name, d):
        self.defs.setdefault(name, []).append(d)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._put(n.name, ("def", n))
            elif isinstance(n, ast.ClassDef):
                self._put(n.name, ("class", n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self._put(t.id, ("expr", n.value))
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self._put(x.id, ("other",))
            else:
                for x in stores(n):
                    self._put(x, ("other",)) if not isinstance(n, (ast.Import, ast.ImportFrom)) else None
                for c in ast.walk(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        self._put(c.name, ("other",))
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imp(n)
                else:
                    for c in ast.walk(n):
                        if isinstance(c, (ast.Import, ast.ImportFrom)):
                            self._imp(c)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self._put(x, ("other",))

    def _imp(self, n):
        for name, d in imports(n, self):
            if name == "*":
                self.stars.append(d[1])
            else:
                self._put(name, d)


def imports(n, mod):
    out = []
    if isinstance(n, ast.Import):
        for a in n.names:
            if a.asname:
                out.append((a.asname, ("import", a.name)))
            else:
                out.append((a.name.split(".")[0], ("import", a.name.split(".")[0])))
    else:
        base = n.module or ""
        if n.level:
            p = mod.pkg.split(".") if mod.pkg else []
            p = p[: len(p) - (n.level - 1)] if n.level > 1 else p
            base = ".".join(p + ([n.module] if n.module else []))
        for a in n.names:
            out.append((a.asname or a.name, ("from", base, a.name)))
    return out


def stores(n):
    """names bound by statement n in its own scope"""
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            todo += x.decorator_list
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        todo += list(ast.iter_child_nodes(x))
    return out


class World:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.dirs = {}
        for base in ("diffmah", "scripts"):
            for d, ds, fs in os.walk(os.path.join(root, base)):
                ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "notebooks"))
                rel = os.path.relpath(d, root).replace(os.sep, ".")
                self.dirs[rel] = d
                for f in sorted(fs):
                    if not f.endswith(".py") or f in ("_version.py",):
                        continue
                    r = os.path.relpath(os.path.join(d, f), root)
                    if r in SKIP:
                        continue
                    name = rel if f == "__init__.py" else rel + "." + f[:-3]
                    self.mods[name] = Mod(name, os.path.join(d, f), r, rel)
        self.opaque = {"diffmah._version"}

    def internal(self, name):
        return name in self.mods or name in self.opaque or name in self.dirs or name.split(".")[0] == "diffmah"

    def sibling(self, mod, name):
        """scripts import modules of their own directory by bare name"""
        c = mod.pkg + "." + name if mod.pkg else name
        return c if c in self.mods and not mod.pkg.startswith("diffmah") else None

    def canon(self, mod, name):
        return self.sibling(mod, name) or name

    def lookup(self, name, attr, seen=()):
        """definitions of attribute attr of internal module name; None = not found; "?" = cannot tell"""
        if (name, attr) in seen:
            return "?"
        m = self.mods.get(name)
        if name in self.opaque:
            return "?"
        if m is None:
            if name in self.dirs:
                sub = name + "." + attr
                return [("import", sub)] if sub in self.mods or sub in self.dirs else None
            return None
        if attr in m.defs:
            return [(d, m) for d in m.defs[attr]]
        if attr in MODVARS or "__getattr__" in m.defs:
            return "?"
        sub = name + "." + attr
        if name in self.dirs and (sub in self.mods or sub in self.dirs):
            return [(("import", sub), m)]
        for s in m.stars:
            if not self.internal(s):
                return "?"
            r = self.lookup(s, attr, seen + ((name, attr),))
            if r is not None:
                return r
        return None

    def resolve(self, d, mod, depth=0):
        """('mod', name) | ('sig', Sig) | ('ext',) | ('?',) | ('missing', text)"""
        if depth > 30:
            return ("?",)
        k = d[0]
        if k == "import":
            n = self.canon(mod, d[1])
            if self.internal(n):
                return ("mod", n) if n in self.mods or n in self.dirs or n in self.opaque else ("missing", "module %s" % n)
            return ("ext",)
        if k == "from":
            base = self.canon(mod, d[1])
            if not self.internal(base):
                return ("ext",)
            if base not in self.mods and base not in self.dirs and base not in self.opaque:
                return ("missing", "module %s" % base)
            r = self.lookup(base, d[2])
            if r == "?":
                return ("?",)
            if r is None:
                return ("missing", "name %s in module %s" % (d[2], base))
            return self.pick(r, depth)
        if k == "def":
            return self.deco(d[1], mod, depth)
        if k == "expr":
            return self.expr(d[1], mod, depth + 1)
        return ("?",)

    def pick(self, r, depth):
        rs = [self.resolve(*x, depth + 1) if isinstance(x[0], tuple) else self.resolve(x, None, depth + 1) for x in r]
        ok = [x for x in rs if x[0] != "missing"]
        if not ok:
            return rs[0]
        return ok[0] if len(ok) == 1 else ("?",)

    def deco(self, node, mod, depth):
        for dec in node.decorator_list:
            f = dec
            if isinstance(f, ast.Call):
                fn = f.func
                nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
                if nm == "partial" and f.args:
                    f = f.args[0]
                else:
                    f = fn
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm not in TRANSPARENT:
                return ("?",)
        return ("sig", Sig.of(node))

    def expr(self, e, mod, depth):
        """what a module-level expression denotes"""
        if isinstance(e, ast.Name):
            return self.pick([(d, mod) for d in mod.defs[e.id]], depth) if e.id in mod.defs else ("?",)
        if isinstance(e, ast.Attribute):
            b = self.expr(e.value, mod, depth)
            if b[0] == "mod":
                r = self.lookup(b[1], e.attr)
                if r == "?":
                    return ("?",)
                if r is None:
                    return ("missing", "name %s in module %s" % (e.attr, b[1]))
                return self.pick(r, depth)
            if b[0] == "cls" and e.attr in ("_fields", "_make", "_field_defaults"):
                return ("?",)
            return ("?",)
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in TRANSPARENT and e.args:
                # vmap and jit calls bind the wrapped signature (vmap needs its positional arguments)
                r = self.expr(e.args[0], mod, depth + 1)
                return r if r[0] == "sig" else ("?",)
            if nm == "namedtuple" and len(e.args) >= 2:
                fs = self.fields(e.args[1], mod, depth)
                if fs is not None and all(k.arg == "defaults" for k in e.keywords):
                    nd = 0
                    for k in e.keywords:
                        nd = len(k.value.elts) if isinstance(k.value, (ast.Tuple, ast.List)) else None
                    if nd is not None:
                        return ("sig", Sig("namedtuple", fs, fs[: len(fs) - nd]))
            if nm == "value_and_grad" or nm == "grad":
                if e.args:
                    r = self.expr(e.args[0], mod, depth + 1)
                    return r if r[0] == "sig" else ("?",)
        return ("?",)

    def fields(self, e, mod, depth):
        try:
            v = ast.literal_eval(e)
        except Exception:
            v = None
        if isinstance(v, str):
            return v.replace(",", " ").split()
        if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
            return list(v)
        if isinstance(e, ast.Name) and len(mod.defs.get(e.id, ())) == 1 and mod.defs[e.id][0][0] == "expr" and depth < 20:
            if changed_in_place(mod.tree, e.id):
                return None
            return self.fields(mod.defs[e.id][0][1], mod, depth + 1)
        return None


def changed_in_place(tree, name):
    """may the list bound to the name be something else than its defining expression says?
    (a method of it is called, or an item of it is stored)"""

    def isname(x):
        return isinstance(x, ast.Name) and x.id == name

    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isname(x.func.value):
            if x.func.attr not in ("index", "count", "copy"):
                return True
        elif isinstance(x, ast.AugAssign) and isname(x.target):
            return True
        elif isinstance(x, ast.Subscript) and isname(x.value) and not isinstance(x.ctx, ast.Load):
            return True
    return False


class Scope:
    def __init__(self, node, parent, names):
        self.node, self.parent, self.names = node, parent, names


def expand_stars(tree):
    """{id of a call: its arguments with every *name replaced by the elements of the tuple the name was last assigned}; only where one assignment reaches the call"""
    out = {}
    shared = {x for n in ast.walk(tree) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}

    def elements(xs, known):
        r = []
        for x in xs:
            if not isinstance(x, ast.Starred):
                r.append(x)
            elif isinstance(x.value, ast.Name) and x.value.id in known:
                r += known[x.value.id]
            elif isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts):
                r += x.value.elts
            else:
                return None
        return r

    def calls(e, known):
        if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            block(e.body if isinstance(e.body, list) else [], {})
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            hide = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            known = {k: v for k, v in known.items() if k not in hide}
        if isinstance(e, ast.Call) and any(isinstance(x, ast.Starred) for x in e.args):
            r = elements(e.args, known)
            if r is not None:
                out[id(e)] = r
        for c in ast.iter_child_nodes(e):
            calls(c, known)

    def block(body, known):
        for s in body:
            gone = stores(s) | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                calls(s.value, known)
                v = elements(s.value.elts, known) if isinstance(s.value, ast.Tuple) else None
                known = {k: x for k, x in known.items() if k not in gone}
                if v is not None and s.targets[0].id not in shared:
                    known[s.targets[0].id] = v
                continue
            inner = {k: x for k, x in known.items() if k not in gone}
            compound = False
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    block(b, inner)
                    compound = True
            for h in getattr(s, "handlers", []):
                block(h.body, inner)
            if compound:
                for f, v in ast.iter_fields(s):
                    if f not in ("body", "orelse", "finalbody", "handlers"):
                        for e in v if isinstance(v, list) else [v]:
                            if isinstance(e, ast.AST):
                                calls(e, inner)
            elif not isinstance(s, ast.Match):
                calls(s, inner)
            known = inner

    block(tree.body, {})
    return out


def params(a):
    xs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return xs + [x.arg for x in (a.vararg, a.kwarg) if x]


class Walk:
    """references of one module"""

    def __init__(self, w, mod):
        self.w, self.mod = w, mod
        self.bad = []
        self.n = dict(imports=0, names=0, attributes=0, calls=0)
        self.local_imports = []
        self.soft = 0
        self.stars = expand_stars(mod.tree)
        self.visit_body(mod.tree.body, [])

    def report(self, n, text):
        if not self.soft:
            self.bad.append(("%s:%d" % (self.mod.rel, n.lineno), text))

    # scopes: list of (set of names, {name: import definition})
    def visit_body(self, body, scopes):
        for s in body:
            self.visit(s, scopes)
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                break  # nothing after it is reached

    def func_scope(self, node):
        names = set(params(node.args))
        body = node.body if isinstance(node.body, list) else [node.body]
        imps = {}
        for s in body:
            names |= stores(s) if isinstance(node.body, list) else set()
        gl = set()
        if isinstance(node.body, list):
            for s in ast.walk(node):
                if isinstance(s, (ast.Global, ast.Nonlocal)):
                    gl |= set(s.names)
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for nm, d in imports(x, self.mod):
                            imps.setdefault(nm, []).append(d)
        return names - gl, imps

    def visit(self, n, scopes):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(x, scopes)
            self.visit_body(n.body, scopes + [self.func_scope(n)])
            return
        if isinstance(n, ast.Lambda):
            for x in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(x, scopes)
            self.visit(n.body, scopes + [(set(params(n.args)), {})])
            return
        if isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(x, scopes)
            names = set()
            for s in n.body:
                names |= stores(s)
            self.visit_body(n.body, scopes + [(names, {})])
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            sc = scopes + [(names, {})]
            self.visit(n.generators[0].iter, scopes)
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, sc)
                for c in g.ifs:
                    self.visit(c, sc)
            for x in [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]:
                self.visit(x, sc)
            return
        if isinstance(n, ast.Try):
            handles = any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "NameError", "Exception", "AttributeError", "TypeError", "BaseException")
                                                for x in ast.walk(h.type)) for h in n.handlers)
            self.soft += handles
            self.visit_body(n.body, scopes)
            self.soft -= handles
            for h in n.handlers:
                if h.type:
                    self.visit(h.type, scopes)
                self.visit_body(h.body, scopes)
            self.visit_body(n.orelse, scopes)
            self.visit_body(n.finalbody, scopes)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for nm, d in imports(n, self.mod):
                self.n["imports"] += 1
                if nm == "*":
                    continue
                r = self.w.resolve(d, self.mod)
                if r[0] == "missing":
                    self.report(n, "import of a missing %s" % r[1])
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.n["names"] += 1
            if not self.bound(n.id, scopes):
                self.report(n, "name %s is not defined" % n.id)
            return
        if isinstance(n, ast.Attribute):
            b = self.deref(n.value, scopes)
            if b[0] == "mod" and isinstance(n.ctx, ast.Load):
                self.n["attributes"] += 1
                r = self.w.lookup(b[1], n.attr)
                if r is None:
                    self.report(n, "module %s has no attribute %s" % (b[1], n.attr))
        if isinstance(n, ast.Call):
            f = self.deref(n.func, scopes)
            if f[0] == "sig":
                self.n["calls"] += 1
                why = f[1].bind(ast.Call(func=n.func, args=self.stars[id(n)], keywords=n.keywords) if id(n) in self.stars else n)
                if why:
                    self.report(n, "call of %s: %s" % (ast.unparse(n.func), why))
        for c in ast.iter_child_nodes(n):
            self.visit(c, scopes)

    def bound(self, name, scopes):
        if any(name in s[0] for s in scopes) or name in self.mod.defs or hasattr(builtins, name) or name in MODVARS:
            return True
        for s in self.mod.stars:
            if not self.w.internal(s) or self.w.lookup(s, name) is not None:
                return True
        return False

    def deref(self, e, scopes):
        """what expression e refers to inside a function"""
        if isinstance(e, ast.Name):
            for names, imps in reversed(scopes):
                if e.id in names:
                    ds = imps.get(e.id)
                    return self.w.resolve(ds[0], self.mod) if ds and len(ds) == 1 else ("?",)
            if e.id in self.mod.defs:
                return self.w.pick([(d, self.mod) for d in self.mod.defs[e.id]], 0)
            for s in self.mod.stars:
                if self.w.internal(s):
                    r = self.w.lookup(s, e.id)
                    if r and r != "?":
                        return self.w.pick(r, 0)
            return ("?",)
        if isinstance(e, ast.Attribute):
            b = self.deref(e.value, scopes)
            if b[0] == "mod":
                r = self.w.lookup(b[1], e.attr)
                return self.w.pick(r, 0) if r and r != "?" else ("?",)
        return ("?",)


@prop("P35", 25)
def p35(ctx):
    ctx.rule("every internal import names an existing module member, every loaded name is bound in an enclosing scope, every attribute of an internal module exists, and every call "
             "of an internal function or namedtuple binds to its signature (through jit / vmap / grad wrappers)")
    w = World(ctx.prog.root)
    for name, m in sorted(w.mods.items()):
        k = Walk(w, m)
        for c, v in k.n.items():
            ctx.count(c, v)

        def ob():
            if k.bad:
                where, text = k.bad[0]
                raise Fail("; ".join("%s (%s)" % (t, p) for p, t in k.bad[:4]), where)

        ctx.ob("references of %s bind" % m.rel, ob)
    for f, why in SKIP.items():
        ctx.notes.append("%s is excluded: %s" % (f, why))
