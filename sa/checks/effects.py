"""P41: functions leave their arguments, the package's defaults and the process-wide settings alone."""
import ast
import json
import os

from ..core import prop, Fail
from . import binding as B

MUT = {"sort", "fill", "append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "remove", "reverse", "resize", "put",
       "itemset", "partition", "setflags", "move_to_end", "byteswap", "__setitem__", "__delitem__", "appendleft", "popleft"}
FIRST = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}  # numpy functions writing into their first argument
VIEWF = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "ascontiguousarray", "broadcast_to",
         "moveaxis", "swapaxes", "expand_dims", "flip", "iter", "zip", "enumerate", "reversed", "list", "tuple", "next", "diagonal"}
SHALLOW = {"list", "tuple", "zip", "enumerate", "iter", "next", "reversed"}
VIEWM = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "get", "items", "values", "_asdict", "diagonal"}
VIEWA = {"T", "real", "imag", "flat", "mT"}
ARRAYISH = {"shape", "size", "ndim", "dtype", "max", "min", "sum", "mean", "astype", "reshape", "copy", "flatten", "ravel", "T", "cumsum", "std"}
SETTINGS = {("numpy", "random.seed"), ("numpy", "seterr"), ("numpy", "seterrcall"), ("numpy", "set_printoptions"), ("jax", "config.update"), ("os", "chdir"), ("os", "putenv"),
            ("os", "unsetenv"), ("os", "environ.update"), ("warnings", "simplefilter"), ("warnings", "filterwarnings"), ("warnings", "resetwarnings"), ("random", "seed"), ("os", "umask"),
            ("sys", "setrecursionlimit"), ("sys", "path.append"), ("sys", "path.insert")}
def wrap(o):
    """origins of the elements of a new container"""
    return {("in", x) if depth(x) < 4 else x for x in o}


def depth(x):
    return 1 + depth(x[1]) if x[0] == "in" else 0


def elem(o):
    """origins of an element of a value (an element of an argument is part of it)"""
    return {x[1] if x[0] == "in" else x for x in o}


TRACE = {"jit", "jjit", "vmap", "grad", "value_and_grad", "pmap", "checkpoint", "remat"}



def ext_path(w, m, e, scopes):
    """(top module, dotted rest) of an external name"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    for names, imps in reversed(scopes):
        if e.id in names:
            ds = imps.get(e.id)
            if not ds:
                return None
            d = ds[0]
            break
    else:
        ds = m.defs.get(e.id)
        if not ds or len(ds) != 1:
            return None
        d = ds[0]
    if d[0] == "import":
        full = d[1]
    elif d[0] == "from":
        full = d[1] + "." + d[2]
    else:
        return None
    full = ".".join([full] + parts[::-1])
    return full


class Func:
    def __init__(self, mod, node, name, outer=None):
        self.mod, self.node, self.name, self.outer = mod, node, name, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.mutates = {}  # param -> (where, text)
        self.returns = set()  # origins
        self.globals = {}  # (module, name) -> (where, text)
        self.settings = []
        self.traced = False
        self.sites = 0
        self.arrays = set()  # parameters that receive arrays


class Analysis:
    def __init__(self, root):
        self.w = B.World(root)
        self.funcs = {}  # node -> Func
        self.top = {}  # (module, name) -> Func
        for name, m in sorted(self.w.mods.items()):
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, n, n.name)
                    self.funcs[n] = f
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.top[(name, n.name)] = self.funcs[n]
        self._traced()
        self.module_effects = {}
        for _ in range(6):
            before = [(dict(f.mutates), set(f.returns), dict(f.globals), set(f.arrays)) for f in self.funcs.values()]
            for f in self.funcs.values():
                Flow(self, f).run()
            if before == [(dict(f.mutates), set(f.returns), dict(f.globals), set(f.arrays)) for f in self.funcs.values()]:
                break
        for name, m in sorted(self.w.mods.items()):
            fl = Flow(self, None, m)
            fl.run_module()
            self.module_effects[name] = fl

    def _traced(self):
        for f in self.funcs.values():
            for d in f.node.decorator_list:
                for x in ast.walk(d):
                    if (isinstance(x, ast.Name) and x.id in TRACE) or (isinstance(x, ast.Attribute) and x.attr in TRACE):
                        f.traced = True
        # functions handed to a transformation
        for name, m in self.w.mods.items():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call):
                    fn = c.func
                    nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
                    if nm in TRACE:
                        for a in c.args[:1]:
                            if isinstance(a, ast.Name) and (name, a.id) in self.top:
                                self.top[(name, a.id)].traced = True
        # helpers called from traced functions only
        calls = {}
        for f in self.funcs.values():
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call):
                    g = self.target(f.mod, c.func, None)
                    if g is not None:
                        calls.setdefault(g, []).append(f)
        for _ in range(10):
            ch = False
            for g, fs in calls.items():
                if not g.traced and g.name.startswith("_") and all(x.traced for x in fs):
                    g.traced = ch = True
            if not ch:
                break

    def target(self, m, e, local):
        """package function expression e denotes"""
        if isinstance(e, ast.Name):
            if local is not None and e.id in local:
                return None
            if (m.name, e.id) in self.top:
                return self.top[(m.name, e.id)]
            ds = m.defs.get(e.id)
            if not ds or len(ds) != 1:
                return None
            return self._def(m, ds[0])
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            if local is not None and e.value.id in local:
                return None
            ds = m.defs.get(e.value.id)
            if not ds or len(ds) != 1:
                return None
            r = self.w.resolve(ds[0], m)
            if r[0] == "mod":
                return self.by(r[1], e.attr)
        return None

    def by(self, mod, name, depth=0):
        if (mod, name) in self.top:
            return self.top[(mod, name)]
        m = self.w.mods.get(mod)
        if m is None or depth > 10:
            return None
        ds = m.defs.get(name)
        if not ds or len(ds) != 1:
            return None
        return self._def(m, ds[0], depth + 1)

    def _def(self, m, d, depth=0):
        if d[0] == "from":
            return self.by(self.w.canon(m, d[1]), d[2], depth)
        if d[0] == "expr" and depth < 10:
            e = d[1]
            while isinstance(e, ast.Call):  # jit(f), vmap(jit(f)), ...
                fn = e.func
                nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
                if nm not in TRACE or not e.args:
                    return None
                e = e.args[0]
            if isinstance(e, ast.Name):
                return self.by(m.name, e.id, depth)
        return None

    def gvar(self, m, name, depth=0):
        """origin of a module-level variable holding a package object: (module, name)"""
        ds = m.defs.get(name)
        if not ds or depth > 10:
            return None
        kinds = {d[0] for d in ds}
        if kinds == {"from"}:
            base = self.w.canon(m, ds[0][1])
            m2 = self.w.mods.get(base)
            if m2 is None or self.w.internal(base + "." + ds[0][2]) and base + "." + ds[0][2] in self.w.mods:
                return None
            return self.gvar(m2, ds[0][2], depth + 1) or ((m2.name, ds[0][2]) if ds[0][2] in m2.defs else None)
        if kinds & {"expr", "other"} and not kinds & {"def", "class", "import"}:
            return (m.name, name)
        return None


def documented_arrays(node):
    """parameters the docstring declares as arrays"""
    out = set()
    doc = ast.get_docstring(node) or ""
    names = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
    inside = False
    for l in doc.splitlines():
        w = l.strip().lower()
        if w in ("parameters", "other parameters"):
            inside = True
        elif w in ("returns", "yields", "notes", "raises", "examples"):
            inside = False
        if inside and ":" in l:
            left, right = l.split(":", 1)
            if "array" in right.lower() and all(x.strip().isidentifier() for x in left.split(",")):
                out |= {x.strip() for x in left.split(",")} & names
    return out


class Flow:
    """origins of the values of one function, in statement order"""

    def __init__(self, an, f, mod=None):
        self.an, self.f, self.m = an, f, mod or f.mod
        self.env = {}
        self.globs = set()
        self.scopes = []
        self.arrayish = set()
        self.quiet = 0  # inside warnings.catch_warnings()
        self.mglob = {}
        self.sites = 0
        self.cross = []
        self.value = None

    # ------------------------------------------------------------------ run
    def run(self):
        f = self.f
        for p in f.params:
            self.env[p] = {("param", p)}
        self.locals = set(f.params)
        for s in f.node.body:
            self.locals |= B.stores(s)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                self.globs |= set(n.names)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.arrayish.add(n.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAYISH:
                self.arrayish.add(n.value.id)
        self.locals -= self.globs
        self.arrayish |= f.arrays | documented_arrays(f.node)
        for a in f.params:
            if a in self.arrayish:
                f.arrays.add(a)
        imps = {}
        for s in ast.walk(f.node):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for nm, d in B.imports(s, self.m):
                    imps.setdefault(nm, []).append(d)
        self.scopes = [(self.locals, imps)]
        f.sites = 0
        f.settings = []
        self.block(f.node.body)

    def run_module(self):
        self.locals = set()
        self.block(self.m.tree.body)

    def where(self, n):
        return "%s:%d" % (self.m.rel, n.lineno)

    def mutate(self, orgs, n, what):
        self.sites += 1
        if self.f is not None:
            self.f.sites += 1
        for o in orgs:
            if o[0] == "param":
                self.f.mutates.setdefault(o[1], (self.where(n), what))
            elif o[0] == "global":
                if self.f is not None:
                    self.f.globals.setdefault(o[1:], (self.where(n), what))
                elif o[1] != self.m.name:
                    self.cross.append((o[1:], self.where(n), what))

    # ----------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, envs):
        keys = set().union(*envs)
        self.env = {k: set().union(*[e.get(k, set()) for e in envs]) for k in keys}

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.env[s.name] = set()
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            self.value = s.value
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                o = self.name(t.id)
                traced = self.f is not None and self.f.traced
                listy = isinstance(s.value, (ast.List, ast.ListComp))
                if not traced and (t.id in self.arrayish or listy) and t.id not in self.globs:
                    self.mutate(o, s, "%s is updated in place" % t.id)
                if t.id in self.globs:
                    self.setglobal(t.id, s)
                if self.f is None:
                    pass
            else:
                self.store(t, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.store(t, s)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = {k: set(v) for k, v in self.env.items()}
            self.block(s.body)
            e1 = self.env
            self.env = e0
            self.block(s.orelse)
            e2 = self.env
            ends = [self.ends(s.body), self.ends(s.orelse)]
            live = [e for e, d in zip((e1, e2), ends) if not d]
            self.join(live or [e1, e2])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            o = self.ev(s.iter)
            e0 = {k: set(v) for k, v in self.env.items()}
            for _ in range(2):
                self.bind(s.target, elem(o), None)
                self.block(s.body)
                self.join([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            e0 = {k: set(v) for k, v in self.env.items()}
            for _ in range(2):
                self.ev(s.test)
                self.block(s.body)
                self.join([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            q = 0
            for i in s.items:
                o = self.ev(i.context_expr)
                c = i.context_expr
                if isinstance(c, ast.Call):
                    p = ext_path(self.an.w, self.m, c.func, self.scopes)
                    if p in ("warnings.catch_warnings", "numpy.errstate", "numpy.printoptions"):
                        q = 1
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, o, None)
            self.quiet += q
            self.block(s.body)
            self.quiet -= q
        elif isinstance(s, ast.Try):
            e0 = {k: set(v) for k, v in self.env.items()}
            self.block(s.body)
            envs = [self.env]
            for h in s.handlers:
                self.env = {k: set(v) for k, v in e0.items()}
                self.block(h.body)
                envs.append(self.env)
            self.join(envs)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                o = self.ev(s.value)
                if self.f is not None:
                    self.f.returns |= {x for x in o}
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def setglobal(self, name, n):
        if self.f is not None:
            self.f.globals.setdefault((self.m.name, name), (self.where(n), "module variable %s is reassigned" % name))

    def bind(self, t, o, value):
        if isinstance(t, ast.Name):
            if t.id in self.globs:
                self.setglobal(t.id, t)
            if self.f is None and value is not None and not o:
                o = {("global", self.m.name, t.id)}
            self.env[t.id] = set(o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for e, v in zip(t.elts, vs):
                self.bind(e, self.ev(v) if v is not None else elem(o), v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, set(), None)
        else:
            self.store(t, t)

    def store(self, t, n):
        """assignment to a subscript or an attribute"""
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.store(e, n) if not isinstance(e, ast.Name) else None
            return
        if isinstance(t, ast.Subscript):
            self.ev(t.slice)
            p = ext_path(self.an.w, self.m, t.value, self.scopes)
            if p == "os.environ" and self.f is not None:
                self.setting(n, "os.environ is modified")
            self.mutate(self.ev(t.value), n, "%s is assigned" % ast.unparse(t))
        elif isinstance(t, ast.Attribute):
            b = t.value
            if isinstance(b, ast.Name) and b.id not in self.locals:
                ds = self.m.defs.get(b.id)
                r = self.an.w.resolve(ds[0], self.m) if ds and len(ds) == 1 else ("?",)
                if r[0] == "mod" and r[1] in self.an.w.mods:
                    k = (r[1], t.attr)
                    if self.f is not None:
                        self.f.globals.setdefault(k, (self.where(n), "module variable %s is reassigned" % ast.unparse(t)))
                    elif not self.same_constant(r[1], t.attr):
                        self.cross.append((k, self.where(n), "module variable %s is reassigned" % ast.unparse(t)))
                    return
            self.mutate(self.ev(b), n, "%s is assigned" % ast.unparse(t))

    def same_constant(self, mod, name):
        """the statement assigns the literal the other module already defines"""
        ds = self.an.w.mods[mod].defs.get(name) or ()
        v = self.value
        return len(ds) == 1 and ds[0][0] == "expr" and isinstance(ds[0][1], ast.Constant) and isinstance(v, ast.Constant) and v.value == ds[0][1].value

    def setting(self, n, what):
        if self.f is not None:
            self.f.settings.append((self.where(n), what))
        else:
            self.mglob.setdefault(what, self.where(n))

    # ---------------------------------------------------------- expressions
    def name(self, i):
        if i in self.env:
            return self.env[i]
        if i in self.locals:
            return set()
        g = self.an.gvar(self.m, i)
        return {("global",) + g} if g else set()

    def ev(self, e):
        """origins the value of e may alias"""
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            return set(self.name(e.id))
        if isinstance(e, ast.Attribute):
            b = e.value
            if isinstance(b, ast.Name) and b.id not in self.locals and b.id not in self.env:
                ds = self.m.defs.get(b.id)
                r = self.an.w.resolve(ds[0], self.m) if ds and len(ds) == 1 else ("?",)
                if r[0] == "mod" and r[1] in self.an.w.mods:
                    g = self.an.gvar(self.an.w.mods[r[1]], e.attr)
                    return {("global",) + g} if g else set()
            o = self.ev(b)
            if e.attr in ("shape", "size", "ndim", "dtype", "at", "_fields"):
                return set()
            return o
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, ast.Slice):
                return o
            r = elem(o)
            return r if basic(e.slice) else {x for x in r if ("in", x) in o}
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.ev(x) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            o = self.ev(e.value)
            self.env[e.target.id] = set(o)
            return o
        if isinstance(e, (ast.Tuple, ast.List)):
            return wrap(set().union(set(), *[self.ev(x) for x in e.elts]))
        if isinstance(e, ast.Starred):
            return elem(self.ev(e.value))
        if isinstance(e, ast.Dict):
            for x in e.keys:
                self.ev(x)
            return set().union(set(), *[wrap(self.ev(v)) if k is not None else wrap(elem(self.ev(v))) for k, v in zip(e.keys, e.values)])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sv = {k: set(v) for k, v in self.env.items()}
            for g in e.generators:
                self.bind(g.target, elem(self.ev(g.iter)), None)
                for c in g.ifs:
                    self.ev(c)
            r = set()
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                r |= self.ev(x)
            self.env = sv
            return wrap(r)
        if isinstance(e, ast.Lambda):
            return set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return set()

    def call(self, e):
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        f = e.func
        if "out" in kws:
            self.mutate(kws["out"], e, "%s is written (out=)" % ast.unparse(next(k.value for k in e.keywords if k.arg == "out")))
        g = self.an.target(self.m, f, self.locals)
        if g is not None:
            r = set()
            star = any(isinstance(a, ast.Starred) for a in e.args)
            bound = {}
            if not star:
                bound.update({p: (o, a) for p, o, a in zip(g.pos, args, e.args)})
            bound.update({k.arg: (kws[k.arg], k.value) for k in e.keywords if k.arg})
            for p, (o, a) in bound.items():
                if isinstance(a, ast.Name) and a.id in self.arrayish and p in g.params:
                    g.arrays.add(p)
            for p, (wh, what) in list(g.mutates.items()):
                if p in bound and bound[p][0]:
                    self.mutate(bound[p][0], e, "%s modifies its argument %s (%s at %s)" % (g.name, p, what, wh))
            def back(o):
                if o[0] == "in":
                    return wrap(back(o[1]))
                return bound.get(o[1], (set(),))[0] if o[0] == "param" else {o}

            for o in g.returns:
                r |= back(o)
            return r if not g.traced else set()
        path = ext_path(self.an.w, self.m, f, self.scopes)
        if path is not None:
            top, _, rest = path.partition(".")
            if (top, rest) in SETTINGS and not self.quiet:
                self.setting(e, "%s changes a process-wide setting" % path)
            last = path.rsplit(".", 1)[-1]
            if top == "numpy" or path in ("random.shuffle",):
                if last in FIRST and args and not path.startswith("jax"):
                    self.mutate(args[0], e, "%s writes into %s" % (path, ast.unparse(e.args[0])))
                if last == "at" and args:
                    self.mutate(args[0], e, "%s writes into %s" % (path, ast.unparse(e.args[0])))
                if last == "array":
                    cp = [k.value for k in e.keywords if k.arg == "copy"]
                    if cp and isinstance(cp[0], ast.Constant) and cp[0].value is False:
                        return args[0] if args else set()
                    return set()
                if last in VIEWF and args:
                    return {o for o in args[0] if o[0] != "in"}
            return set()
        if isinstance(f, ast.Name):
            if f.id in VIEWF and f.id not in self.locals and f.id not in self.m.defs:
                r = set().union(set(), *[elem(a) for a in args])
                return r if f.id == "next" else wrap(wrap(r)) if f.id in ("zip", "enumerate") else wrap(r)
            if f.id in ("sorted", "dict") and f.id not in self.locals and f.id not in self.m.defs:
                return wrap(set().union(set(), *[elem(a) for a in args], *kws.values()))
            return set()
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value)
            if f.attr in MUT and o and not self.under_at(f.value):
                self.mutate(o, e, "%s(...)" % ast.unparse(f))
            if f.attr in ("append", "appendleft", "add", "insert", "extend", "update", "setdefault") and isinstance(f.value, ast.Name) and args:
                new = elem(args[-1]) if f.attr in ("extend", "update") else args[-1]
                self.env[f.value.id] = set(self.env.get(f.value.id, o)) | wrap(new)
            if f.attr in ("_asdict", "values"):
                return wrap(elem(o))
            if f.attr == "items":
                return wrap(wrap(elem(o)))
            if f.attr == "get":
                return elem(o)
            if f.attr in VIEWM:
                return o
            if f.attr == "astype":
                cp = [k.value for k in e.keywords if k.arg == "copy"]
                return o if cp and isinstance(cp[0], ast.Constant) and cp[0].value is False else set()
            if f.attr in ("pop", "popleft", "setdefault"):
                return elem(o)
        else:
            self.ev(f)
        return set()

    def under_at(self, e):
        return any(isinstance(x, ast.Attribute) and x.attr == "at" for x in ast.walk(e))


def basic(s):
    """an index that may give a view or an element, not a copy"""
    if isinstance(s, ast.Slice):
        return True
    if isinstance(s, ast.Constant):
        return True
    if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
        return True
    if isinstance(s, ast.Tuple):
        return all(basic(x) for x in s.elts) or any(isinstance(x, ast.Slice) for x in s.elts) and all(basic(x) or isinstance(x, ast.Name) and False for x in s.elts)
    return False


@prop("P41", 40)
def p41(ctx):
    ctx.rule("alias and effect analysis over the syntax tree: no public function writes (item or attribute assignment, in-place operator or method, out=) into a value that may alias "
             "one of its arguments or a public module-level object, reassigns module variables, or changes process-wide settings; no module modifies another module's objects when imported")
    an = Analysis(ctx.prog.root)
    ctx.count("functions", len(an.funcs))
    for name, m in sorted(an.w.mods.items()):
        fs = [f for (mn, n), f in sorted(an.top.items()) if mn == name]
        inner = [f for f in an.funcs.values() if f.mod is m]
        fl = an.module_effects[name]
        ctx.count("write_sites", sum(f.sites for f in inner) + fl.sites)

        def ob():
            for f in fs:
                pub = (name, f.name) in INTERFACE
                if pub:
                    for p, (wh, what) in f.mutates.items():
                        raise Fail("%s modifies its argument %s: %s" % (f.name, p, what), wh)
            for f in inner:
                for (gm, gn), (wh, what) in f.globals.items():
                    if not gn.startswith("_"):
                        raise Fail("%s modifies %s of module %s: %s" % (f.name, gn, gm, what), wh)
                for wh, what in f.settings:
                    if name.startswith("diffmah"):
                        raise Fail("%s: %s" % (f.name, what), wh)
            for (gm, gn), wh, what in fl.cross:
                raise Fail("importing %s modifies %s of module %s: %s" % (name, gn, gm, what), wh)
            if name.startswith("diffmah"):
                for what, wh in fl.mglob.items():
                    raise Fail("importing %s: %s" % (name, what), wh)

        ctx.ob("%s leaves arguments, defaults and settings alone" % m.rel, ob)


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "interface.json")) as _fh:
    INTERFACE = {tuple(x) for x in json.load(_fh)}
