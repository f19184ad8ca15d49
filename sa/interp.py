"""Abstract interpreter: evaluates the *syntax trees* of /repo (and of the
specification modules) over the value-numbering domain of terms.py.

Nothing of the analysed program is imported or executed.  Inputs are symbols,
array axes are symbolic sizes, vmap introduces a generic batch index,
conditionals on symbolic values fork the abstract state and join it again,
loops of symbolic length are summarised by a generic iteration.
"""
import ast
import builtins as _bi
import os
from fractions import Fraction as Fr

from . import terms as tm
from .terms import T, C
from .values import *  # noqa
from .values import ProgError, Unsupported, is_num, is_numlike, _int_rank
from . import values as V

BUILTINS = (
    "len range enumerate zip list tuple dict set str int float bool getattr "
    "isinstance print max min sum abs sorted open any all reversed hasattr "
    "round type map filter repr object complex setattr iter next super slice frozenset bytes divmod pow callable vars id format chr ord"
).split()
EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Poison:
    def __init__(self, why):
        self.why = why


class Frame:
    __slots__ = ("vars", "parent", "module", "rets", "loops", "fn", "base", "globs", "dead", "yields")

    def __init__(self, module, parent=None, fn=None, base=0):
        self.vars = {}
        self.parent, self.module, self.fn = parent, module, fn
        self.rets = []
        self.yields = []
        self.loops = []
        self.base = base
        self.globs = set()


class CondItem:
    """an element produced only under a condition"""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value


class GenItems:
    """the elements of a generator, some of them conditional"""

    def __init__(self, items):
        self.items = items


def is_generator(node):
    """does the body of a function contain a yield of its own"""
    r = getattr(node, "_is_gen", None)
    if r is None:
        r, todo = False, list(node.body) if isinstance(node.body, list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += list(ast.iter_child_nodes(n))
        node._is_gen = r
    return r


class Module:
    def __init__(self, name, path, relpath, pkg):
        self.name, self.path, self.relpath, self.pkg = name, path, relpath, pkg
        self.frame = Frame(self)
        self.state = "new"
        self.tree = None

    def __repr__(self):
        return "Module(%s)" % self.name


class Event:
    __slots__ = ("kind", "what", "args", "kw", "path", "loc", "batch", "loops", "jit", "stack", "res")

    def __repr__(self):
        return "Event(%s %s %s @%s)" % (self.kind, self.what, self.args, self.loc)


def is_text(t):
    return t.op == "str" or (t.op == "fn" and t.args[0] in ("strcat", "fmt"))


def _detach(v):
    """copy of the mutable containers of a value"""
    if isinstance(v, list):
        return [_detach(x) for x in v]
    if type(v) is tuple:
        return tuple(_detach(x) for x in v)
    if type(v) is dict:
        return {k: _detach(x) for k, x in v.items()}
    if isinstance(v, Arr):
        return Arr(v.axes, dict(v.data), v.tag)
    if isinstance(v, NT):
        return NT(v.cls, [_detach(x) for x in v.vals])
    return v


class Program:
    def __init__(self, root, spec=None):
        self.root = os.path.abspath(root)
        self.spec = spec
        self.modules = {}
        self.errors = []

    def find(self, name):
        parts = name.split(".")
        if parts[0] == "spec" and self.spec:
            p = os.path.join(self.spec, *parts[1:]) + ".py"
            return p, False
        if parts[0] == "scripts":
            p = os.path.join(self.root, *parts) + ".py"
            return p, False
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def internal(self, name):
        return name.split(".")[0] in ("diffmah", "spec", "scripts")

    def module(self, name, interp=None, main=False):
        m = self.modules.get(name)
        if m is None and "." in name and not name.startswith(("spec.", "scripts.")):
            self.module(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
        if m is None:
            path, pkg = self.find(name)
            if path is None or not os.path.isfile(path):
                return None
            m = Module(name, path, os.path.relpath(path, self.root), pkg)
            self.modules[name] = m
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            try:
                m.tree = ast.parse(src, path)
            except SyntaxError as e:
                m.state = "failed"
                m.error = ProgError("syntax error: %s" % e.msg, (m.relpath, e.lineno or 0))
                raise m.error
        if m.state == "failed":
            raise m.error
        if m.state == "new":
            m.state = "running"
            it = Interp(self)
            m.frame.vars["__name__"] = "__main__" if main else name
            m.frame.vars["__file__"] = opq(tm.sym("__file__:" + m.relpath))
            m.events = it.events
            try:
                it.exec_module(m)
            except ProgError as e:
                m.state = "failed"
                m.error = e
                raise
            m.state = "done"
        return m


def qual(interp_or_prog, modname, name):
    prog = getattr(interp_or_prog, "prog", interp_or_prog)
    m = prog.module(modname)
    if m is None:
        raise MissingAnchor("module %s does not exist" % modname)
    if name not in m.frame.vars:
        raise MissingAnchor("%s.%s does not exist" % (modname, name))
    v = m.frame.vars[name]
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return v


class MissingAnchor(Exception):
    pass


MUT = (list, dict, set)


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.events = []
        self.path = []
        self.batch = []
        self.loopctx = []
        self.jit = 0
        self.stack = []  # frames
        self.loc = None
        self.fresh = 0
        self.steps = 0
        self.callstack = []
        self.hooks = {}  # qualified function name -> replacement model
        self.ext = {}  # library function -> replacement model
        self.extval = {}  # library object -> replacement value
        self.notes = []

    # ------------------------------------------------------------- utilities
    def event(self, kind, what, args=(), kw=None, res=None):
        e = Event()
        e.kind, e.what, e.args, e.kw = kind, what, args, kw or {}
        e.path = tuple(self.path)
        e.loc = self.loc
        e.batch = tuple(self.batch)
        e.loops = tuple(self.loopctx)
        e.jit = self.jit
        e.stack = tuple(self.callstack)
        e.res = res
        self.events.append(e)
        return e

    def gensym(self, base):
        self.fresh += 1
        return tm.idx("%s%d" % (base, self.fresh))

    # --------------------------------------------------------------- modules
    def exec_module(self, m):
        fr = m.frame
        self.stack.append(fr)
        for st in m.tree.body:
            try:
                self.exec_stmts([st], fr)
            except Unsupported as e:
                self.prog.errors.append((m.relpath, st.lineno, str(e)))
                for n in self._targets(st):
                    fr.vars[n] = Poison(str(e))
        self.stack.pop()

    def _targets(self, st):
        out = []
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.append(n.name)
            elif isinstance(n, ast.alias):
                out.append((n.asname or n.name).split(".")[0])
        return out

    def mod_attr(self, m, name):
        if name in m.frame.vars:
            v = m.frame.vars[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        sub = self.prog.module(m.name + "." + name) if m.pkg else None
        if sub is not None:
            return sub
        if m.state == "running":
            raise ProgError("cannot import name %s from partially initialised %s" % (name, m.name), self.loc)
        raise ProgError("module %s has no attribute %s" % (m.name, name), self.loc)

    def resolve_from(self, mod, node):
        if node.level:
            base = mod.name.split(".")
            if not mod.pkg:
                base = base[:-1]
            if node.level > 1:
                base = base[: -(node.level - 1)]
            return ".".join(base + (node.module.split(".") if node.module else []))
        name = node.module
        if mod.name.startswith("scripts.") and not self.prog.internal(name):
            sib = mod.name.rsplit(".", 1)[0] + "." + name
            if self.prog.find(sib)[0] and os.path.isfile(self.prog.find(sib)[0]):
                return sib
        return name

    def st_ImportFrom(self, st, fr):
        name = self.resolve_from(fr.module, st)
        if name == "__future__":
            return True
        if self.prog.internal(name):
            m = self.prog.module(name)
            if m is None:
                raise ProgError("no module named %s" % name, self.loc)
            for a in st.names:
                if a.name == "*":
                    names = m.frame.vars.get("__all__")
                    if names is None:
                        names = [k for k in m.frame.vars if not k.startswith("_")]
                    for k in names:
                        fr.vars[k] = self.mod_attr(m, k)
                else:
                    fr.vars[a.asname or a.name] = self.mod_attr(m, a.name)
            return True
        for a in st.names:
            if a.name == "*":
                raise Unsupported("star import of %s" % name, self.loc)
            fr.vars[a.asname or a.name] = self.ext_name(name + "." + a.name)
        return True

    def ext_name(self, path):
        """what a dotted name of a library stands for"""
        if path in self.extval:
            return self.extval[path]
        if path in ("numpy.newaxis", "jax.numpy.newaxis"):
            return None
        if path in ("math.pi", "jax.numpy.pi", "scipy.constants.pi"):
            path = "numpy.pi"
        return Ext(path)

    def st_Import(self, st, fr):
        for a in st.names:
            name = a.name
            if fr.module.name.startswith("scripts.") and not self.prog.internal(name):
                sib = fr.module.name.rsplit(".", 1)[0] + "." + name
                p = self.prog.find(sib)[0]
                if p and os.path.isfile(p):
                    name = sib
            if self.prog.internal(name):
                m = self.prog.module(name)
                if m is None:
                    raise ProgError("no module named %s" % name, self.loc)
                if a.asname:
                    fr.vars[a.asname] = m
                elif name != a.name:
                    fr.vars[a.name] = m
                else:
                    fr.vars[name.split(".")[0]] = self.prog.module(name.split(".")[0])
            elif a.asname:
                fr.vars[a.asname] = Ext(name)
            else:
                fr.vars[name.split(".")[0]] = Ext(name.split(".")[0])
        return True

    # ---------------------------------------------------- state fork and join
    def _reach(self, fr):
        """mutable objects reachable from the frames on the stack"""
        objs = {}
        frames = []
        seenf = set()

        def addf(f):
            while f is not None and id(f) not in seenf:
                seenf.add(id(f))
                frames.append(f)
                f = f.parent

        for f in self.stack:
            addf(f)
        addf(fr)

        def walk(v):
            if isinstance(v, Arr):
                objs[id(v)] = v
            elif isinstance(v, MUT):
                if id(v) in objs:
                    return
                objs[id(v)] = v
                if isinstance(v, dict):
                    for x in v.values():
                        walk(x)
                else:
                    for x in v:
                        walk(x)
            elif isinstance(v, NT):
                for x in v.vals:
                    walk(x)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
            elif isinstance(v, SymList):
                pass

        for f in frames:
            if f.module is not None and f is f.module.frame and f is not fr:
                continue
            for v in f.vars.values():
                walk(v)
        return frames, objs

    def snapshot(self, fr):
        frames, objs = self._reach(fr)
        s = {}
        for f in frames:
            if f.module is not None and f is f.module.frame and f is not fr:
                continue
            s[id(f)] = (f, dict(f.vars))
        c = {}
        for k, o in objs.items():
            if isinstance(o, Arr):
                c[k] = (o, (o.axes, dict(o.data)))
            elif isinstance(o, dict):
                c[k] = (o, dict(o))
            elif isinstance(o, set):
                c[k] = (o, set(o))
            else:
                c[k] = (o, list(o))
        return s, c

    def restore(self, snap):
        s, c = snap
        for f, vs in s.values():
            f.vars.clear()
            f.vars.update(vs)
        for o, d in c.values():
            self._setobj(o, d)

    def _setobj(self, o, d):
        if isinstance(o, Arr):
            o.axes, o.data = d[0], dict(d[1])
        elif isinstance(o, (dict, set)):
            o.clear()
            o.update(d)
        else:
            o[:] = d

    def join_states(self, cond, a, b):
        """state := cond ? a : b  (snapshots)"""
        sa, ca = a
        sb, cb = b
        for k in set(ca) | set(cb):
            if k not in ca:
                o, d = cb[k]
                self._setobj(o, d)
                continue
            if k not in cb:
                o, d = ca[k]
                self._setobj(o, d)
                continue
            o, da = ca[k]
            _, db = cb[k]
            if isinstance(o, Arr):
                if da[0] == db[0]:
                    nd = {}
                    for p in da[1]:
                        x, y = da[1][p], db[1].get(p)
                        nd[p] = x if x is y else tm.where(cond, x, y)
                    self._setobj(o, (da[0], nd))
                else:
                    self._setobj(o, (None, {(): tm.where(cond, to_term(Arr(*da)), to_term(Arr(*db)))}))
            elif isinstance(o, dict):
                out = {}
                for key in list(db) + [x for x in da if x not in db]:
                    if key in da and key in db:
                        out[key] = join(cond, da[key], db[key])
                    elif key in da:
                        out[key] = Phi(cond, da[key], UNDEF)
                    else:
                        out[key] = Phi(cond, UNDEF, db[key])
                self._setobj(o, out)
            elif isinstance(o, set):
                if da == db:
                    self._setobj(o, da)
                else:
                    raise Unsupported("conditional set update", self.loc)
            else:
                if len(da) == len(db):
                    self._setobj(o, [join(cond, x, y) for x, y in zip(da, db)])
                else:
                    n = min(len(da), len(db))
                    L = [join(cond, x, y) for x, y in zip(da[:n], db[:n])]
                    if len(da) > n:
                        L += [Phi(cond, x, UNDEF) for x in da[n:]]
                    else:
                        L += [Phi(cond, UNDEF, x) for x in db[n:]]
                    self._setobj(o, L)
        for k in set(sa) | set(sb):
            if k not in sa or k not in sb:
                continue
            f, va = sa[k]
            vb = sb[k][1]
            out = {}
            for n in list(vb) + [x for x in va if x not in vb]:
                if n in va and n in vb:
                    x, y = va[n], vb[n]
                    if isinstance(x, MUT + (Arr,)) and x is y:
                        out[n] = x
                    else:
                        out[n] = join(cond, x, y)
                elif n in va:
                    out[n] = va[n]
                else:
                    out[n] = vb[n]
            f.vars.clear()
            f.vars.update(out)

    # ------------------------------------------------------------ statements
    def exec_stmts(self, stmts, fr):
        """True when control reaches the end"""
        for st in stmts:
            self.steps += 1
            if self.steps > 2000000:
                raise Unsupported("analysis step limit", self.loc)
            self.loc = (fr.module.relpath, st.lineno)
            h = getattr(self, "st_" + type(st).__name__, None)
            if h is None:
                raise Unsupported("statement %s" % type(st).__name__, self.loc)
            try:
                alive = h(st, fr)
            except (ProgError, Unsupported) as e:
                if e.loc is None:
                    e.loc = (fr.module.relpath, st.lineno)
                raise
            if alive is False:
                return False
        return True

    def st_Pass(self, st, fr):
        return True

    def st_Global(self, st, fr):
        fr.globs.update(st.names)
        return True

    st_Nonlocal = st_Global

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return True
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(st.value.value, fr) if st.value.value else None
            if fr.fn is None or isinstance(st.value, ast.YieldFrom):
                raise Unsupported("yield from", self.loc)
            fr.yields.append((tm.and_(*self.path[fr.base :]), _detach(v), tuple(self.loopctx)))
            return True
        self.ev(st.value, fr)
        return True

    def st_Assert(self, st, fr):
        v = self.ev(st.test, fr)
        t = self.truth(v)
        if t is tm.FALSE:
            raise ProgError("assertion always fails", self.loc)
        if t is not tm.TRUE:
            self.event("assert", "assert", (t,))
        return True

    def st_Raise(self, st, fr):
        v = self.ev(st.exc, fr) if st.exc is not None else None
        self.event("raise", "raise", (v,))
        if not [p for p in self.path if p is not tm.TRUE]:
            if not self.loopctx:
                raise ProgError("raises unconditionally", self.loc)
        return False

    def st_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        if len(self.path) > fr.base:
            v = _detach(v)  # the branch's effects on containers are undone when it is left
        fr.rets.append((tuple(self.path[fr.base :]), v, (fr.module.relpath, st.lineno), tuple(self.loopctx)))
        return False

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, dict):
                    if k not in o:
                        raise ProgError("KeyError %r" % (k,), self.loc)
                    del o[k]
                elif isinstance(o, list) and isinstance(k, int):
                    del o[k]
                else:
                    raise Unsupported("del of subscript", self.loc)
            else:
                raise Unsupported("del", self.loc)
        return True

    def st_FunctionDef(self, st, fr):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [self.ev(d, fr) if d is not None else None for d in a.kw_defaults]
        f = Fn(st, fr.module, fr, defaults, kwd, st.name)
        v = f
        for dec in reversed(st.decorator_list):
            v = self.call(self.ev(dec, fr), [v], {}, dec)
        fr.vars[st.name] = v
        return True

    def st_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        nts = [b for b in bases if isinstance(b, NTCls)]
        if nts:
            fr.vars[st.name] = nts[0]
            return True
        if any(isinstance(b, Ext) and b.path == "typing.NamedTuple" for b in bases):
            fields, dfl = [], []
            for s in st.body:
                if isinstance(s, ast.AnnAssign):
                    fields.append(s.target.id)
                    if s.value is not None:
                        dfl.append(self.ev(s.value, fr))
            fr.vars[st.name] = NTCls(st.name, fields, dfl)
            return True
        raise Unsupported("class %s" % st.name, self.loc)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return True

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        return True

    def st_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            old = self.lookup(st.target.id, fr)
        elif isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value, fr)
            k = self.ev_index(st.target.slice, fr)
            m = self.region_mask(o, k)
            if m is not None:
                r = self.ev(st.value, fr)
                if is_numlike(r) and as_arr(r).axes == ():
                    self.event("arrset", "setitem", (o, k, r))
                    new = self.binop(type(st.op).__name__, o, r)
                    o.data = emap(lambda c, x, y: tm.where(c, x, y), m, new, o).data
                    return True
                raise Unsupported("in-place update of part of an array of fixed length", self.loc)
            old = self.getitem(o, k)
            new = self.binop(type(st.op).__name__, old, self.ev(st.value, fr))
            self.setitem(o, k, new)
            return True
        else:
            old = self.ev(st.target, fr)
        r = self.ev(st.value, fr)
        if isinstance(old, list) and isinstance(st.op, ast.Add):
            if isinstance(r, (list, tuple)):
                old.extend(r)
                return True
        new = self.binop(type(st.op).__name__, old, r)
        if (
            isinstance(old, Arr)
            and isinstance(new, Arr)
            and old.axes
            and old.axes == new.axes
            and isinstance(st.target, ast.Name)
            and not self.jit
        ):
            # numpy in-place update (aliases see it)
            self.event("inplace", "augassign", (old, new))
            old.data = dict(new.data)
            return True
        self.assign(st.target, new, fr)
        return True

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globs:
                f = fr
                while f.parent is not None and t.id not in f.parent.vars:
                    f = f.parent
                (f.parent or fr.module.frame).vars[t.id] = v
            else:
                fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not stars:
                vals = self.unpack(v, len(t.elts))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
            else:
                vals = self.tolist(v)
                i = stars[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    raise ProgError("not enough values to unpack", self.loc)
                k = len(vals) - n
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(vals[i : i + k]), fr)
                for e, x in zip(t.elts[i + 1 :], vals[i + k :]):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, Module):
                o.frame.vars[t.attr] = v
            else:
                self.event("setattr", t.attr, (o, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target", self.loc)

    def unpack(self, v, n):
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [join(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, Arr) and v.axes is None:
            return [opq(tm.atom("getitem", v.t, C(i))) for i in range(n)]
        if isinstance(v, Arr) and v.axes and not isinstance(v.axes[0], int):
            raise ProgError("cannot unpack an array of length %s into %d names" % (tm.show(v.axes[0]), n), self.loc)
        L = self.tolist(v)
        if len(L) != n:
            raise ProgError("cannot unpack %d values into %d names" % (len(L), n), self.loc)
        return L

    def tolist(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, NT):
            return list(v.vals)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, (str, range)):
            return list(v)
        if isinstance(v, Arr):
            if v.axes is None:
                raise Unsupported("iteration over an unknown object", self.loc)
            if not v.axes:
                raise ProgError("iteration over a 0-d array", self.loc)
            if isinstance(v.axes[0], int):
                return [take(v, 0, i) for i in range(v.axes[0])]
            raise Unsupported("iteration over an axis of symbolic length", self.loc)
        if isinstance(v, Phi):
            a, b = self.tolist(v.a), self.tolist(v.b)
            if len(a) == len(b):
                return [join(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, (int, Fr, float)) or v is None:
            raise ProgError("cannot iterate over %r" % (v,), self.loc)
        raise Unsupported("iteration over %s" % type(v).__name__, self.loc)

    # ----------------------------------------------------------- conditionals
    def truth(self, v):
        """boolean term"""
        if isinstance(v, Arr):
            if v.axes is not None and v.axes != ():
                n = 1
                for s in v.axes:
                    if not isinstance(s, int) or s != 1:
                        raise ProgError("truth value of an array is ambiguous", self.loc)
                return tm.as_bool(next(iter(v.data.values())))
            return tm.as_bool(v.data[()]) if v.axes == () else self._opaque_truth(v.data[()])
        if isinstance(v, Phi):
            return tm.where(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, SymList):
            return tm.lt(tm.ZERO, v.size)
        if isinstance(v, T):
            return tm.as_bool(v)
        if isinstance(v, (bool, int, Fr, float, str, bytes, list, tuple, dict, set)) or v is None:
            return tm.TRUE if v else tm.FALSE
        if isinstance(v, NT):
            return tm.TRUE if v.vals else tm.FALSE
        if isinstance(v, PyObj) and v.truth is not None:
            return self.truth(v.truth(self))
        return tm.TRUE

    def _opaque_truth(self, t):
        if tm.is_bool(t):
            return t
        return tm.batom("truth", t)

    def st_If(self, st, fr):
        c = self.truth(self.ev(st.test, fr))
        return self.branch(c, st.body, st.orelse, fr)

    def decided(self, c):
        if c is tm.TRUE or c is tm.FALSE:
            return c
        for p in self.path:
            if p is c:
                return tm.TRUE
            if p is tm.not_(c):
                return tm.FALSE
            if p.op == "and":
                if c in p.args:
                    return tm.TRUE
                if tm.not_(c) in p.args:
                    return tm.FALSE
        return c

    def check_traced(self, c, what):
        if self.jit:
            bad = [l for l in tm.leaves(c) if not str(l.args[0]).startswith(("size:", "static:"))]
            if bad:
                self.event("traced_branch", what, (c,))

    def branch(self, c, body, orelse, fr):
        run = lambda b: b() if callable(b) else self.exec_stmts(b, fr)
        c = self.decided(c)
        if c is tm.TRUE:
            return run(body)
        if c is tm.FALSE:
            return run(orelse)
        self.check_traced(c, "if")
        loc = self.loc
        s0 = self.snapshot(fr)
        n0 = len(self.path)
        self.path.append(c)
        la = run(body)
        pa = self.path[n0 + 1 :]
        del self.path[n0:]
        sa = self.snapshot(fr)
        self.restore(s0)
        self.path.append(tm.not_(c))
        self.loc = loc
        lb = run(orelse)
        pb = self.path[n0 + 1 :]
        del self.path[n0:]
        if la and lb:
            sb = self.snapshot(fr)
            self.join_states(c, sa, sb)
            if pa or pb:
                self.path.append(tm.where(c, tm.and_(*pa), tm.and_(*pb)))
            return True
        if la:
            self.restore(sa)
            self.path.append(c)
            self.path.extend(pa)
            return True
        if lb:
            self.path.append(tm.not_(c))
            self.path.extend(pb)
            return True
        return False

    # ------------------------------------------------------------------ loops
    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        it = it.items if isinstance(it, GenItems) else self.iterable(it)
        if isinstance(it, GenIter):
            return self.symbolic_for(st, it, fr)
        ctx = {"breaks": [], "conts": [], "n0": len(self.path)}
        fr.loops.append(ctx)
        alive = True
        for x in it:
            ctx["conts"] = []
            n0 = len(self.path)
            if isinstance(x, CondItem):
                def body(x=x):
                    self.assign(st.target, x.value, fr)
                    return self.exec_stmts(st.body, fr)

                alive = self.branch(x.cond, body, lambda: True, fr)
            else:
                self.assign(st.target, x, fr)
                alive = self.exec_stmts(st.body, fr)
            alive = self.rejoin(ctx["conts"], alive, fr, n0)
            if not alive:
                break
        fr.loops.pop()
        if alive and st.orelse:
            alive = self.exec_stmts(st.orelse, fr)
        return self.rejoin(ctx["breaks"], alive, fr, ctx["n0"])

    def rejoin(self, snaps, alive, fr, n0):
        """merge abrupt completions (cond, snapshot) with the current state"""
        if not snaps:
            return alive
        if alive:
            cur = self.snapshot(fr)
        else:
            cur = None
        for cond, s in reversed(snaps):
            c = tm.and_(*cond[n0:])
            if cur is None:
                self.restore(s)
            else:
                self.join_states(c, s, cur)
            cur = self.snapshot(fr)
        del self.path[n0:]
        return True

    def st_Break(self, st, fr):
        if not fr.loops:
            raise ProgError("break outside loop", self.loc)
        ctx = fr.loops[-1]
        if ctx.get("symbolic"):
            ctx["abrupt"].append(("break", tuple(self.path)))
            return False
        ctx["breaks"].append((tuple(self.path), self.snapshot(fr)))
        return False

    def st_Continue(self, st, fr):
        ctx = fr.loops[-1]
        ctx["conts"].append((tuple(self.path), self.snapshot(fr)))
        return False

    def iterable(self, it):
        if isinstance(it, GenItems):
            raise Unsupported("generator that yields under a condition", self.loc)
        if isinstance(it, Ext) and it.path in self.extval:
            it = self.extval[it.path]
        if isinstance(it, PyObj):
            if it.iter is None:
                raise (ProgError if it.closed else Unsupported)("%s is not iterable" % it.name, self.loc)
            return it.iter(self)
        if isinstance(it, (GenIter, list, tuple, range)):
            return it
        if isinstance(it, SymList):
            return GenIter(it.size, lambda i, it=it: subst_val(it.value, {it.ix: i}))
        if isinstance(it, Arr):
            if it.axes is None:
                n = tm.atom("len", it.t)
                return GenIter(n, lambda i, it=it: opq(tm.atom("getitem", it.t, i)))
            if not it.axes:
                raise ProgError("iteration over a 0-d array", self.loc)
            if not isinstance(it.axes[0], int):
                return GenIter(it.axes[0], lambda i, it=it: take(it, 0, i))
        if isinstance(it, Ext):
            return GenIter(tm.atom("len", to_term(it)), lambda i, it=it: opq(tm.atom("getitem", to_term(it), i)))
        return self.tolist(it)

    def st_While(self, st, fr):
        ctx = {"breaks": [], "conts": [], "n0": len(self.path)}
        fr.loops.append(ctx)
        k = 0
        alive = True
        while True:
            c = self.decided(self.truth(self.ev(st.test, fr)))
            if c is tm.FALSE:
                break
            if c is not tm.TRUE:
                raise Unsupported("while loop with a symbolic condition", self.loc)
            n0 = len(self.path)
            ctx["conts"] = []
            alive = self.exec_stmts(st.body, fr)
            alive = self.rejoin(ctx["conts"], alive, fr, n0)
            if not alive:
                break
            k += 1
            if k > 500:
                raise Unsupported("while loop does not terminate in the analysis", self.loc)
        fr.loops.pop()
        return self.rejoin(ctx["breaks"], alive, fr, ctx["n0"])

    def _assigned(self, stmts):
        names = []
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names:
                    names.append(n.id)
        return names

    def symbolic_for(self, st, gi, fr):
        """summary of a loop of symbolic length by one generic iteration"""
        self.fresh += 1
        i = tm.idx("it%d" % self.fresh)
        size = gi.size
        names = [n for n in self._assigned(st.body) if n in fr.vars]
        s0 = self.snapshot(fr)
        # objects that may be mutated in the loop
        frames, objs = self._reach(fr)
        targets = set(self._assigned([ast.Assign(targets=[st.target], value=ast.Constant(0), lineno=st.lineno)]))
        carried = [n for n in names if n not in targets]

        def run(carry, log):
            """one generic iteration; returns vars after"""
            for n in carried:
                if n in carry:
                    fr.vars[n] = carry[n]
            ctx = {"breaks": [], "conts": [], "symbolic": True, "abrupt": [], "n0": len(self.path)}
            fr.loops.append(ctx)
            self.loopctx.append((i, size))
            nr = len(fr.rets)
            n0 = len(self.path)
            self.assign(st.target, gi.at(i), fr)
            alive = self.exec_stmts(st.body, fr)
            alive = self.rejoin(ctx["conts"], alive, fr, n0)
            tailpath = self.path[n0:]
            del self.path[n0:]
            self.loopctx.pop()
            fr.loops.pop()
            return alive, ctx["abrupt"], fr.rets[nr:], tailpath

        # pass 1: discover which variables are really loop carried
        ev0 = len(self.events)
        rets0 = len(fr.rets)
        marks = {}
        init = {}
        for n in carried:
            v = fr.vars[n]
            init[n] = v
            marks[n] = self.mark(v, n)
        # mutated containers: replace list objects content marks
        alive, abrupt, rets, tail = run(marks, None)
        after = {n: fr.vars.get(n) for n in carried}
        after_all = dict(fr.vars)
        # in-place changes
        changed = {}
        _, c0 = s0
        for k, (o, d) in c0.items():
            if isinstance(o, Arr):
                if (o.axes, o.data) != (d[0], d[1]):
                    changed[k] = (o, d, (o.axes, dict(o.data)))
            elif isinstance(o, dict):
                if list(o) != list(d) or any(o[x] is not d[x] for x in o):
                    changed[k] = (o, d, dict(o))
            elif isinstance(o, list):
                if len(o) != len(d) or any(x is not y for x, y in zip(o, d)):
                    changed[k] = (o, d, list(o))
        self.restore(s0)
        del self.events[ev0:]
        del fr.rets[rets0:]
        # solve the recurrences (innermost dependencies first)
        carry_at, final = {}, {}
        todo = list(carried)
        sub = {}
        while todo:
            prog = False
            for n in list(todo):
                a0 = subst_val(after[n], sub) if sub else after[n]
                own = set(self.markleaves(marks[n]))
                others = [l for l in self.markleaves(a0) if l not in own]
                if others and not (len(todo) and self._stuck):
                    continue
                a, f = self.solve_rec(n, init[n], marks[n], a0, i, size)
                carry_at[n], final[n] = a, f
                if is_numlike(marks[n]) and is_numlike(a):
                    m0, a1 = as_arr(marks[n]), as_arr(a)
                    if m0.axes == a1.axes:
                        for p in m0.data:
                            if m0.data[p] is not a1.data[p]:
                                sub[m0.data[p]] = a1.data[p]
                todo.remove(n)
                prog = True
            self._stuck = not prog
        self._stuck = False
        # pass 2: run with the solved carried values, keep events and results
        selfref = {}
        for k, (o, d, new) in changed.items():
            selfref[k] = o
            if isinstance(o, list):
                pass
        fresh0 = self.fresh
        for k, (o, d, new) in changed.items():
            if isinstance(o, list) and len(new) > len(d):
                # inside the loop the list has symbolic length: reads see the summary
                o.append(LoopList(self, o, d, i, size))
                del o[len(d):]
        alive, abrupt, rets, tail = run(carry_at, None)
        body_vars = dict(fr.vars)
        upd = {}
        for k, (o, d, new) in changed.items():
            if isinstance(o, Arr):
                upd[k] = (o, d, (o.axes, dict(o.data)))
            elif isinstance(o, dict):
                upd[k] = (o, d, dict(o))
            else:
                upd[k] = (o, d, list(o))
        s1 = self.snapshot(fr)
        self.restore(s0)
        for n in carried:
            fr.vars[n] = final[n]
        last = tm.sub(size, tm.ONE)
        for n in body_vars:
            if n not in carried and n not in s0[0][id(fr)][1]:
                fr.vars[n] = subst_val(body_vars[n], {i: last})
        for n in targets:
            if n in body_vars:
                fr.vars[n] = subst_val(body_vars[n], {i: last})
        guard = tm.and_(*tail) if tail else tm.TRUE
        for k, (o, d, new) in upd.items():
            self.loop_store(o, d, new, i, size)
        for r in rets:
            pass  # already registered with loop context
        if abrupt:
            self.notes.append("break in a loop of symbolic length")
            raise Unsupported("break in a loop of symbolic length", (fr.module.relpath, st.lineno))
        if st.orelse:
            return self.exec_stmts(st.orelse, fr)
        return True

    def mark(self, v, n):
        self.fresh += 1
        k = self.fresh

        def f(a):
            if a.axes is None:
                return opq(tm.sym("carry:%s" % n, k))
            out = {}
            for p in a.data:
                out[p] = tm.sym("carry:%s" % n, k, *p, *[x for x in V.ixvars(a.axes) if x is not None])
            return Arr(a.axes, out)

        if isinstance(v, MUT):
            return v
        if is_numlike(v) or isinstance(v, (NT, tuple)):
            return tree_map(f, v)
        if isinstance(v, (Phi, SymList)):
            return opq(tm.sym("carry:%s" % n, k))
        return v

    _stuck = False

    def markleaves(self, v):
        out = []
        for t in leaves_of(v) if not isinstance(v, (Phi, SymList)) else [to_term(v)]:
            out += [l for l in tm.leaves(t) if str(l.args[0]).startswith("carry:")]
        return out

    def solve_rec(self, n, init, mark, after, i, size):
        """value of carried variable at iteration i, and after the loop"""
        if after is mark or isinstance(init, MUT):
            return init, init
        if is_numlike(init) and is_numlike(after):
            x0, m, f = as_arr(init), as_arr(mark), as_arr(after)
            if x0.axes == () and f.axes == ():
                ms = m.data[()]
                ft = f.data[()]
                if not tm.depends_struct(ft, ms):
                    at = tm.where(tm.eq(i, tm.ZERO), x0.data[()], tm.subst(ft, {i: tm.sub(i, tm.ONE)}))
                    fin = tm.where(tm.lt(tm.ZERO, size), tm.subst(ft, {i: tm.sub(size, tm.ONE)}), x0.data[()])
                    return scalar(at), scalar(fin)
                d = tm.sub(ft, ms)
                if not tm.depends_struct(d, ms):
                    k = tm.idx("rec%d" % self.fresh)
                    body = tm.subst(d, {i: k})
                    at = tm.add(x0.data[()], tm.red("sum", i, k, body))
                    fin = tm.add(x0.data[()], tm.red("sum", size, k, body))
                    return scalar(at), scalar(fin)
        self.fresh += 1
        t = tm.atom("rec", n, to_term(init), to_term(after), to_term(mark))
        at = self._shape_like(init, tm.atom("at", t, i))
        fin = self._shape_like(init, tm.atom("final", t, size))
        return at, fin

    def _shape_like(self, v, t):
        if is_numlike(v):
            a = as_arr(v)
            if a.axes is None or a.axes == ():
                return Arr(a.axes, {(): t})
            return Arr(a.axes, {p: tm.atom("elem", t, *[C(q) for q in p], *[x for x in V.ixvars(a.axes) if x is not None]) for p in a.data})
        return opq(t)

    def loop_store(self, o, d, new, i, size):
        """o mutated by one generic iteration from d to new"""
        if isinstance(o, Arr):
            if d[0] != new[0] or d[0] is None:
                o.axes, o.data = None, {(): tm.atom("loopstore", to_term(Arr(*d)), tm.lam(size, i, to_term(Arr(*new))))}
                return
            data = {}
            for p in new[1]:
                old, nw = d[1][p], new[1][p]
                data[p] = old if old is nw else self._store_elem(old, nw, i, size)
            o.axes, o.data = d[0], data
            return
        if isinstance(o, list):
            if len(new) > len(d) and all(x is y for x, y in zip(d, new)):
                added = new[len(d):]
                if not d and len(added) == 1:
                    o[:] = [SymSplice(SymList(size, i, added[0]))]
                else:
                    o[:] = list(d) + [SymSplice(SymList(size, i, a)) for a in added]
                return
            raise Unsupported("list mutated in a loop of symbolic length", self.loc)
        if isinstance(o, dict):
            out = dict(d)
            for k in new:
                if k not in d or new[k] is not d[k]:
                    out[k] = subst_val(new[k], {i: tm.sub(size, tm.ONE)})
            self._setobj(o, out)
            return
        raise Unsupported("container mutated in a loop of symbolic length", self.loc)

    def _store_elem(self, old, nw, i, size):
        """nw = where(eq(ix - i), val, old)"""
        if nw.op == "where" and nw.args[0].op == "eq" and nw.args[2] is old:
            e = nw.args[0].args[0]
            c0, dd = tm.as_lin(e)
            ixs = [k for k in dd if k is not i]
            if len(ixs) == 1 and i in dd and dd[i] == -dd[ixs[0]]:
                jx = ixs[0]
                off = -c0 / dd[i]  # i = jx + off
                at = tm.add(jx, C(off))
                val = tm.subst(nw.args[1], {i: at})
                inside = tm.and_(tm.le(tm.ZERO, at), tm.lt(at, size))
                return tm.where(inside, val, old)
        return tm.atom("loopstore", old, tm.lam(size, i, nw))

    def st_With(self, st, fr):
        exits = []
        for item in st.items:
            v = self.ev(item.context_expr, fr)
            self.event("with", "enter", (v,))
            if isinstance(v, PyObj):
                exits.append(v)
                if v.enter is not None:
                    v = v.enter(self)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        alive = self.exec_stmts(st.body, fr)
        for v in reversed(exits):
            if "__exit__" in v.methods:
                v.methods["__exit__"](self, [], {})
        return alive

    def st_Try(self, st, fr):
        s0 = self.snapshot(fr)
        n0 = len(self.path)
        e0 = len(self.events)
        try:
            alive = self.exec_stmts(st.body, fr)
            failed = None
        except ProgError as e:
            failed = e
            alive = False
        if failed is not None:
            for h in st.handlers:
                self.restore(s0)
                del self.path[n0:]
                if h.name:
                    fr.vars[h.name] = opq(tm.sym("exc"))
                a = self.exec_stmts(h.body, fr)
                return a
            raise failed
        if alive and st.orelse:
            alive = self.exec_stmts(st.orelse, fr)
        if st.handlers:
            h = st.handlers[0]
            only_import = all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Assign)) for s in st.body) and any(
                isinstance(s, (ast.Import, ast.ImportFrom)) for s in st.body
            )
            if not only_import:
                g = tm.batom("raises", tm.mk("str", "%s:%s" % (fr.module.relpath, st.lineno)))
                pa = self.path[n0:]
                del self.path[n0:]
                sa = self.snapshot(fr)
                self.restore(s0)
                self.path.append(g)
                if h.name:
                    fr.vars[h.name] = opq(tm.sym("exc"))
                try:
                    lb = self.exec_stmts(h.body, fr)
                except ProgError:
                    lb = False
                del self.path[n0:]
                sb = self.snapshot(fr)
                if alive and lb:
                    self.join_states(g, sb, sa)
                elif alive:
                    self.restore(sa)
                    self.path.extend(pa)
                elif lb:
                    self.restore(sb)
                    self.path.append(g)
                    alive = True
                else:
                    alive = False
        if st.finalbody:
            self.exec_stmts(st.finalbody, fr)
        return alive

    # ------------------------------------------------------------ expressions
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            f = f.parent
        v = fr.module.frame.vars.get(name, UNDEF)
        if v is not UNDEF:
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if name in BUILTINS or name in EXC:
            return Ext("builtins." + name)
        if name in ("NotImplemented", "Ellipsis"):
            return Ellipsis
        raise ProgError("name %r is not defined" % name, self.loc)

    def ev(self, n, fr):
        h = getattr(self, "ex_" + type(n).__name__, None)
        if h is None:
            raise Unsupported("expression %s" % type(n).__name__, (fr.module.relpath, n.lineno))
        return h(n, fr)

    def ex_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return scalar(C(v))
            return Fr(repr(v))
        return v

    def ex_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def ex_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def ex_List(self, n, fr):
        return list(self.elts(n.elts, fr))

    def ex_Set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.tolist(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ex_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, dict):
                    raise Unsupported("** of non-dict", self.loc)
                d.update(o)
            else:
                d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return d

    def key(self, k):
        if isinstance(k, Arr):
            t = to_term(k)
            if tm.is_c(t):
                return int(tm.cval(t)) if tm.cval(t).denominator == 1 else tm.cval(t)
            return t
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (list, dict)):
            raise ProgError("unhashable key", self.loc)
        return k

    def ex_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ""
                parts.append(self.fmt(x, spec))
        return self.strcat(parts)

    def fmt(self, x, spec=""):
        if isinstance(x, Arr) and x.axes == () and tm.is_c(x.data[()]):
            x = self.pynum(x)
        if isinstance(x, (str, int, bool)) or x is None:
            if isinstance(spec, str):
                return format(x, spec)
        if isinstance(x, Fr) and isinstance(spec, str):
            return format(float(x), spec)
        if spec == "" and isinstance(x, Arr) and x.axes is None and is_text(x.t):
            return x
        return opq(tm.atom("fmt", to_term(spec), to_term(x)))

    def strcat(self, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        out = []
        for p in parts:
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                elif p:
                    out.append(p)
            else:
                t = to_term(p)
                if t.op == "fn" and t.args[0] == "strcat":
                    for a in t.args[1:]:
                        out.append(a.args[0] if a.op == "str" else a)
                else:
                    out.append(t)
        res = []
        for p in out:
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        if len(res) == 1 and not isinstance(res[0], str):
            return opq(res[0])
        return opq(tm.atom("strcat", *[tm.mk("str", p) if isinstance(p, str) else p for p in res]))

    def ex_Lambda(self, n, fr):
        a = n.args
        f = Fn(n, fr.module, fr, [self.ev(d, fr) for d in a.defaults], [self.ev(d, fr) if d is not None else None for d in a.kw_defaults], "<lambda>")
        return f

    def ex_IfExp(self, n, fr):
        c = self.decided(self.truth(self.ev(n.test, fr)))
        if c is tm.TRUE:
            return self.ev(n.body, fr)
        if c is tm.FALSE:
            return self.ev(n.orelse, fr)
        self.check_traced(c, "conditional expression")
        self.path.append(c)
        a = self.ev(n.body, fr)
        self.path[-1] = tm.not_(c)
        b = self.ev(n.orelse, fr)
        self.path.pop()
        return join(c, a, b)

    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr)
        for nx in n.values[1:]:
            c = self.decided(self.truth(v))
            if c is tm.TRUE:
                if not isand:
                    return v
                v = self.ev(nx, fr)
            elif c is tm.FALSE:
                if isand:
                    return v
                v = self.ev(nx, fr)
            else:
                self.check_traced(c, "and/or")
                self.path.append(c if isand else tm.not_(c))
                w = self.ev(nx, fr)
                self.path.pop()
                tw = self.truth(w)
                v = scalar(tm.and_(c, tw) if isand else tm.or_(c, tw))
        return v

    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = type(n.op).__name__
        if op == "Not":
            t = self.truth(v)
            if t is tm.TRUE:
                return False
            if t is tm.FALSE:
                return True
            return scalar(tm.not_(t))
        if op == "USub":
            if is_num(v):
                return -v
            return emap(tm.neg, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, bool):
                raise Unsupported("~ of a python bool", self.loc)
            if isinstance(v, int):
                return ~v
            return emap(lambda x: tm.not_(x), v)

    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def pynum(self, v):
        """python number for a constant scalar"""
        if isinstance(v, Arr) and v.axes == () and tm.is_c(v.data[()]):
            c = tm.cval(v.data[()])
            return int(c) if c.denominator == 1 else c
        return v

    def binop(self, op, a, b):
        if isinstance(a, Phi) and not is_numlike(b) or isinstance(b, Phi) and not is_numlike(a):
            if isinstance(a, Phi):
                return join(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
            return join(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                if is_num(a) or is_num(b) or a is None or b is None:
                    raise ProgError("cannot add str and number", self.loc)
                return self.strcat([a, b])
            if isinstance(a, (list, tuple, NT)) and isinstance(b, (list, tuple, NT)):
                r = self.tolist(a) + self.tolist(b)
                return r if isinstance(a, list) else tuple(r)
        if op == "Mod" and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int)) for x in args):
                return a % b
            return opq(tm.atom("strfmt", tm.mk("str", a), *[to_term(x) for x in args]))
        if op == "Mult":
            if isinstance(a, (list, tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(b, (list, tuple, str)) and isinstance(a, int):
                return a * b
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"BitAnd": a.__and__, "BitOr": a.__or__, "Sub": a.__sub__}[op](b)
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            d = dict(a)
            d.update(b)
            return d
        if op == "Div" and (isinstance(a, Ext) or isinstance(b, str) or (isinstance(a, Arr) and a.axes is None and isinstance(b, str))):
            return opq(tm.atom("pathjoin", to_term(a), to_term(b)))
        for x in (a, b):
            if x is None or isinstance(x, (str, dict, Fn, Xf, Module)):
                raise ProgError("unsupported operand for %s: %s" % (op, type(x).__name__), self.loc)
            if isinstance(x, Ext):
                return opq(tm.atom("op." + op, to_term(a), to_term(b)))
        if is_num(a) and is_num(b) and not isinstance(a, float) and not isinstance(b, float):
            r = self.numop(op, a, b)
            if r is not None:
                return r
        return self.arrop(op, a, b)

    def numop(self, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                raise ProgError("division by zero", self.loc)
            return Fr(a) / Fr(b)
        if op == "FloorDiv":
            if b == 0:
                raise ProgError("division by zero", self.loc)
            return a // b
        if op == "Mod":
            if b == 0:
                raise ProgError("modulo by zero", self.loc)
            return a % b
        if op == "Pow":
            if Fr(b).denominator == 1 and abs(b) < 400:
                if a == 0 and b < 0:
                    raise ProgError("division by zero", self.loc)
                r = Fr(a) ** int(b)
                if isinstance(a, int) and isinstance(b, int) and b >= 0:
                    return int(r)
                return r
            return None
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
        return None

    def arrop(self, op, a, b):
        f = {
            "Add": tm.add,
            "Sub": tm.sub,
            "Mult": tm.mul,
            "Div": self._div,
            "Pow": tm.power,
            "BitAnd": lambda x, y: tm.and_(x, y),
            "BitOr": lambda x, y: tm.or_(x, y),
            "BitXor": lambda x, y: tm.or_(tm.and_(x, tm.not_(y)), tm.and_(tm.not_(x), y)),
            "FloorDiv": tm.floordiv,
            "Mod": tm.mod,
        }.get(op)
        if op == "MatMult":
            return self.matmul(a, b)
        if f is None:
            raise Unsupported("operator " + op, self.loc)
        if op == "Add":
            A, B = as_arr(a), as_arr(b)
            if (A.axes is None and tm.atom("x").op and A.t.op == "fn" and A.t.args[0] in ("strcat", "fmt", "strfmt")) or (
                B.axes is None and B.t.op == "fn" and B.t.args[0] in ("strcat", "fmt", "strfmt")
            ):
                return self.strcat([a, b])
        return emap(f, a, b)

    def _div(self, x, y):
        if y is tm.ZERO:
            return tm.mk("nan") if x is tm.ZERO else tm.mul(x, tm.INF)
        return tm.div(x, y)

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                t = tm.and_(self.truth(res), self.truth(r))
                res = True if t is tm.TRUE else False if t is tm.FALSE else scalar(t)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Phi) and not (is_numlike(b) and op not in ("Is", "IsNot")):
            x, y = self.compare(op, a.a, b), self.compare(op, a.b, b)
            return self._b(tm.where(a.c, self.truth(x), self.truth(y)))
        if op in ("Is", "IsNot"):
            r = self._is(a, b)
            if isinstance(r, T):
                return scalar(r if op == "Is" else tm.not_(r))
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self._in(a, b)
            if isinstance(r, T):
                return scalar(r if op == "In" else tm.not_(r))
            return r if op == "In" else not r
        if is_num(a) and is_num(b):
            return {
                "Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b,
            }[op]
        if is_numlike(a) and is_numlike(b):
            f = {
                "Eq": tm.eq,
                "NotEq": lambda x, y: tm.not_(tm.eq(x, y)),
                "Lt": tm.lt,
                "LtE": tm.le,
                "Gt": lambda x, y: tm.lt(y, x),
                "GtE": lambda x, y: tm.le(y, x),
            }[op]
            r = emap(self._cmpwrap(f, op), a, b)
            return r
        conc = (str, bytes, int, Fr, bool, type(None), tuple, list, dict, set)
        if isinstance(a, NT):
            a = a.vals
        if isinstance(b, NT):
            b = b.vals
        if isinstance(a, conc) and isinstance(b, conc) and self._plain(a) and self._plain(b):
            if op == "Eq":
                return a == b
            if op == "NotEq":
                return a != b
            try:
                return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
            except TypeError as e:
                raise ProgError(str(e), self.loc)
        if op in ("Eq", "NotEq"):
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (is_numlike(a) or is_numlike(b)):
                if len(a) != len(b):
                    return op == "NotEq"
                t = tm.and_(*[self.truth(self.compare("Eq", x, y)) for x, y in zip(a, b)])
                return self._b(t if op == "Eq" else tm.not_(t))
            if isinstance(a, (list, tuple)) and isinstance(b, Arr) or isinstance(b, (list, tuple)) and isinstance(a, Arr):
                return self.compare(op, as_arr(a), as_arr(b))
            x, y = sorted((to_term(a), to_term(b)), key=lambda t: t.id)
            t = tm.TRUE if x is y else tm.batom("eq", x, y)
            return self._b(t if op == "Eq" else tm.not_(t))
        if isinstance(a, (list, tuple, SymList)) or isinstance(b, (list, tuple, SymList)):
            return self.compare(op, as_arr(a), as_arr(b))
        return scalar(tm.batom("cmp." + op, to_term(a), to_term(b)))

    def _cmpwrap(self, f, op):
        def g(x, y):
            bad = ("str", "none", "tuple", "dict")
            if x.op in bad or y.op in bad:
                return tm.batom("cmp." + op, x, y)
            if tm.is_bool(x) and tm.is_bool(y) and op in ("Eq", "NotEq"):
                e = tm.or_(tm.and_(x, y), tm.and_(tm.not_(x), tm.not_(y)))
                return e if op == "Eq" else tm.not_(e)
            return f(x, y)

        return g

    def _b(self, t):
        return True if t is tm.TRUE else False if t is tm.FALSE else scalar(t)

    def _plain(self, v):
        if isinstance(v, (list, tuple, set)):
            return all(self._plain(x) for x in v)
        if isinstance(v, dict):
            return all(self._plain(x) for x in v.values())
        return isinstance(v, (str, bytes, int, Fr, bool, type(None)))

    def _is(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Arr) and x.axes is None and x.t.op in ("fn", "sym") and x.tag != "notnone":
                return tm.batom("isnone", x.t)
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        return a is b

    def _in(self, a, b):
        if isinstance(b, (list, tuple, set, frozenset)):
            vals = list(b)
            if self._plain(a) and all(self._plain(x) for x in vals):
                return a in vals
            t = tm.or_(*[self.truth(self.compare("Eq", a, x)) for x in vals])
            return t if t not in (tm.TRUE, tm.FALSE) else t is tm.TRUE
        if isinstance(b, dict):
            if isinstance(a, (str, int)):
                return a in b
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, PyObj) and b.contains is not None:
            return b.contains(self, a)
        if isinstance(b, NT) and self._plain(a):
            return self._in(a, list(b.vals))
        return tm.batom("in", to_term(a), to_term(b))

    # comprehension ---------------------------------------------------------
    def ex_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def ex_GeneratorExp(self, n, fr):
        return self.comp(n, fr, "list")

    def ex_SetComp(self, n, fr):
        return set(self.comp(n, fr, "list"))

    def ex_DictComp(self, n, fr):
        pairs = self.comp(n, fr, "dict")
        if isinstance(pairs, SymList):
            raise Unsupported("dict comprehension of symbolic length", self.loc)
        return {self.key(k): v for k, v in pairs}

    def comp(self, n, fr, kind):
        sub = Frame(fr.module, fr, fr.fn, fr.base)
        self.stack.append(sub)

        def rec(gens):
            if not gens:
                if kind == "dict":
                    return [(self.ev(n.key, sub), self.ev(n.value, sub))]
                return [self.ev(n.elt, sub)]
            g = gens[0]
            it = self.iterable(self.ev(g.iter, sub))
            if isinstance(it, GenIter):
                if g.ifs:
                    raise Unsupported("filtered comprehension of symbolic length", self.loc)
                i = self.gensym("c")
                self.loopctx.append((i, it.size))
                self.assign(g.target, it.at(i), sub)
                r = rec(gens[1:])
                self.loopctx.pop()
                if isinstance(r, SymList):
                    raise Unsupported("nested comprehension of symbolic length", self.loc)
                return SymList(it.size, i, r[0])
            out = []
            for x in it:
                self.assign(g.target, x, sub)
                keep = True
                for c in g.ifs:
                    t = self.decided(self.truth(self.ev(c, sub)))
                    if t is tm.FALSE:
                        keep = False
                        break
                    if t is not tm.TRUE:
                        raise Unsupported("comprehension filter on a symbolic value", self.loc)
                if keep:
                    r = rec(gens[1:])
                    if isinstance(r, SymList):
                        raise Unsupported("nested comprehension of symbolic length", self.loc)
                    out.extend(r)
            return out

        try:
            return rec(n.generators)
        finally:
            self.stack.pop()

    def ex_Starred(self, n, fr):
        raise Unsupported("starred expression", self.loc)

    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def ex_Slice(self, n, fr):
        return SliceV(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ev_index(self, n, fr):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(e, fr) for e in n.elts)
        return self.ev(n, fr)

    def ex_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_index(n.slice, fr)
        return self.getitem(o, k)

    # ------------------------------------------------------------- subscript
    def getitem(self, o, k):
        if isinstance(k, Arr) and k.axes == () and tm.is_c(k.data[()]):
            k = self.pynum(k)
        if isinstance(o, Phi):
            return join(o.c, self.getitem(o.a, k), self.getitem(o.b, k))
        if isinstance(o, NT):
            o = o.vals
        if isinstance(o, str) and isinstance(k, (int, SliceV)):
            return o[self._pyslice(k)] if not isinstance(k, int) else o[k]
        if isinstance(o, (list, tuple)):
            if any(isinstance(x, SymSplice) for x in o):
                return self._splice_getitem(o, k)
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise ProgError("index %d out of range (length %d)" % (k, len(o)), self.loc)
                return o[k]
            if isinstance(k, SliceV):
                sl = self._pyslice(k)
                if sl is None:
                    return self.getitem(as_arr(o), k)
                return o[sl]
            if isinstance(k, Arr):
                if all(is_numlike(x) for x in o):
                    return self.getitem(as_arr(o), k)
                t = to_term(k)
                r = o[-1]
                for j in range(len(o) - 2, -1, -1):
                    r = join(tm.eq(t, C(j)), o[j], r)
                return r
            if isinstance(k, (str, Fr)):
                raise ProgError("sequence indexed with %r" % (k,), self.loc)
            if isinstance(k, Phi):
                return join(k.c, self.getitem(o, k.a), self.getitem(o, k.b))
            raise Unsupported("sequence index", self.loc)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk in o:
                return o[kk]
            if isinstance(kk, (str, int)) and all(isinstance(x, (str, int)) for x in o):
                raise ProgError("KeyError %r" % (kk,), self.loc)
            return opq(tm.atom("getitem", to_term(o), to_term(k)))
        if isinstance(o, SymList):
            if isinstance(k, int):
                ix = C(k) if k >= 0 else tm.add(o.size, C(k))
                return subst_val(o.value, {o.ix: ix})
            if isinstance(k, Arr):
                return subst_val(o.value, {o.ix: to_term(k)})
            if isinstance(k, SliceV):
                lo, size = self._slice_bounds(o.size, k)
                return SymList(size, o.ix, subst_val(o.value, {o.ix: tm.add(o.ix, lo)}))
            raise Unsupported("symbolic list index", self.loc)
        if isinstance(o, Arr):
            return self.arr_getitem(o, k)
        if isinstance(o, PyObj):
            if o.getitem is None:
                if o.closed:
                    raise ProgError("%s is not subscriptable" % o.name, self.loc)
                raise Unsupported("subscript of %s" % o.name, self.loc)
            return o.getitem(self, k)
        if isinstance(o, Ext):
            return opq(tm.atom("getitem", to_term(o), to_term(k)))
        if isinstance(o, AtProxy):
            return AtIndexed(o.arr, k)
        if o is None or is_num(o) or isinstance(o, (Fn, Xf)):
            raise ProgError("%s is not subscriptable" % type(o).__name__, self.loc)
        raise Unsupported("subscript of %s" % type(o).__name__, self.loc)

    def _splice_getitem(self, o, k):
        if len(o) == 1:
            return self.getitem(o[0].sl, k)
        if isinstance(k, int) and k >= 0 and all(not isinstance(x, SymSplice) for x in o[: k + 1]):
            return o[k]
        if isinstance(k, int) and k < 0 and all(not isinstance(x, SymSplice) for x in o[k:]):
            return o[k]
        raise Unsupported("index into a partially symbolic list", self.loc)

    def _pyslice(self, k):
        out = []
        for x in (k.lo, k.hi, k.st):
            x = self.pynum(x) if x is not None else None
            if x is not None and not isinstance(x, int):
                return None
            out.append(x)
        return slice(*out)

    def _slice_bounds(self, size, k):
        """(lo term, size) of a unit-step slice on an axis of symbolic size"""
        S = size_term(size)

        def b(x, d):
            if x is None:
                return d
            x = self.pynum(x)
            if isinstance(x, int):
                return C(x) if x >= 0 else tm.add(S, C(x))
            return to_term(x)

        lo, hi = b(k.lo, tm.ZERO), b(k.hi, S)
        return lo, norm_size(tm.sub(hi, lo))

    def arr_getitem(self, a, k):
        if a.axes is None:
            return opq(tm.atom("getitem", a.t, to_term(k)))
        ks = list(k) if isinstance(k, tuple) else [k]
        if any(isinstance(x, str) for x in ks):
            return opq(tm.atom("getitem", to_term(a), to_term(k)))
        ks = [as_arr(x) if isinstance(x, (list, SymList)) else x for x in ks]
        nreal = sum(1 for x in ks if x is not None and x is not Ellipsis)
        for x in ks:
            if isinstance(x, Arr) and x.axes and self._isboolarr(x):
                nreal += len(x.axes) - 1
        if Ellipsis in [x if x is Ellipsis else 0 for x in ks]:
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            ks[i : i + 1] = [SliceV(None, None, None)] * (len(a.axes) - nreal)
        if nreal > len(a.axes):
            raise ProgError("too many indices for array of dimension %d" % len(a.axes), self.loc)
        pos = 0
        r = a
        fancy = sum(1 for x in ks if isinstance(x, Arr) and x.axes)
        if fancy > 1:
            raise Unsupported("several index arrays", self.loc)
        for x in ks:
            if isinstance(x, Arr) and x.axes == () and tm.is_c(x.data[()]):
                x = self.pynum(x)
            if x is None:
                r = add_axis(r, 1, None, pos)
                pos += 1
            elif isinstance(x, bool):
                raise Unsupported("boolean scalar index", self.loc)
            elif isinstance(x, int):
                r = take(r, pos, x)
            elif isinstance(x, Fr):
                raise ProgError("array indexed with a float", self.loc)
            elif isinstance(x, SliceV):
                r = self.slice_axis(r, pos, x)
                pos += 1
            elif isinstance(x, Arr) and x.axes == ():
                r = self.take_sym(r, pos, x.data[()])
            elif isinstance(x, Arr) and x.axes is None:
                return opq(tm.atom("getitem", to_term(a), to_term(k)))
            elif isinstance(x, Arr):
                if self._isboolarr(x):
                    r = self.mask_axis(r, pos, x)
                    pos += 1
                else:
                    r = self.fancy_axis(r, pos, x)
                    pos += len(x.axes)
            else:
                raise Unsupported("array index %s" % type(x).__name__, self.loc)
        return r

    def _isboolarr(self, x):
        return all(tm.is_bool(t) for t in x.data.values()) and len(x.data) > 0

    def take_sym(self, r, pos, t):
        s = r.axes[pos]
        if isinstance(s, int):
            parts = [take(r, pos, i) for i in range(s)]
            out = parts[-1]
            for i in range(s - 2, -1, -1):
                out = emap(lambda x, y, i=i: tm.where(tm.eq(t, C(i)), x, y), parts[i], out)
            return out
        return take(r, pos, t)

    def slice_axis(self, a, j, k):
        s = a.axes[j]
        st = self.pynum(k.st) if k.st is not None else 1
        if isinstance(s, int):
            sl = self._pyslice(k)
            if sl is None:
                raise Unsupported("symbolic slice of a fixed-length axis", self.loc)
            idxs = list(range(s))[sl]
            parts = [take(a, j, i) for i in idxs]
            return self._restack(a, j, parts)
        if st == -1 and k.lo is None and k.hi is None:
            return reslice(a, j, s, lambda n: tm.sub(tm.sub(s, tm.ONE), n))
        if st != 1:
            raise Unsupported("strided slice of a symbolic axis", self.loc)
        if k.lo is None and k.hi is None:
            return Arr(a.axes, dict(a.data))
        lo, size = self._slice_bounds(s, k)
        if isinstance(size, T) and tm.gv(size) == tm.gv(s):
            size = s
        return reslice(a, j, size, lambda n: tm.add(n, lo))

    def _restack(self, a, j, parts):
        n = len(parts)
        axes = a.axes[:j] + (n,) + a.axes[j + 1 :]
        r = _int_rank(axes, j)
        data = {}
        for i, p in enumerate(parts):
            pv = V.ixvars(p.axes)
            nv = V.ixvars(axes)
            rest = [v for k, v in enumerate(nv) if k != j]
            m = {o: q for o, q in zip(pv, rest) if o is not None and o is not q}
            for k, v in p.data.items():
                data[k[:r] + (i,) + k[r:]] = tm.subst(v, m) if m else v
        return Arr(axes, data)

    def mask_axis(self, a, j, m):
        if len(m.axes) != 1:
            raise Unsupported("multi-dimensional mask", self.loc)
        s = a.axes[j]
        if isinstance(s, int):
            if all(t in (tm.TRUE, tm.FALSE) for t in m.data.values()):
                if m.axes[0] != s:
                    raise ProgError("boolean index length mismatch", self.loc)
                return self._restack(a, j, [take(a, j, i) for i in range(s) if m.data[(i,)] is tm.TRUE])
            raise Unsupported("symbolic mask on a fixed-length axis", self.loc)
        if isinstance(m.axes[0], int) or not V.same_size(m.axes[0], s):
            raise ProgError("boolean mask of length %s used on axis of length %s" % (tm.show(size_term(m.axes[0])), tm.show(s)), self.loc)
        ix = V.ixvars(m.axes)[0]
        L = tm.lam(s, ix, m.data[()])
        n = tm.red("sum", s, ix, tm.where(m.data[()], tm.ONE, tm.ZERO))
        if isinstance(norm_size(n), int):
            n = norm_size(n)
        return reslice(a, j, n, lambda q: tm.atom("nth", L, q))

    def fancy_axis(self, a, j, x):
        if len(x.axes) == 1:
            if isinstance(x.axes[0], int):
                return self._restack(a, j, [self.take_sym(a, j, x.data[(i,)]) if not tm.is_c(x.data[(i,)]) else take(a, j, int(tm.cval(x.data[(i,)]))) for i in range(x.axes[0])])
            s = a.axes[j]
            ix = V.ixvars(x.axes)[0]
            if isinstance(s, int):
                raise Unsupported("symbolic index array on fixed axis", self.loc)
            return reslice(a, j, x.axes[0], lambda q: tm.subst(x.data[()], {ix: q}))
        if len(a.axes) == 1 and all(isinstance(s, int) for s in x.axes):
            d = {}
            for p, t in x.data.items():
                if not tm.is_c(t):
                    raise Unsupported("symbolic index array", self.loc)
                d[p] = take(a, 0, int(tm.cval(t))).data[()]
            return Arr(x.axes, d)
        raise Unsupported("index array of dimension %d" % len(x.axes), self.loc)

    def region_mask(self, o, k):
        """the positions a symbolic slice selects on a one-dimensional array of fixed length"""
        if not isinstance(o, Arr) or self.jit or o.axes is None or len(o.axes) != 1 or not isinstance(o.axes[0], int):
            return None
        n = o.axes[0]
        if isinstance(k, Arr) and k.axes == o.axes and self._isboolarr(k):
            return k
        if not isinstance(k, SliceV) or self._pyslice(k) is not None or k.st is not None and self.pynum(k.st) != 1:
            return None

        def bound(x, d):
            if x is None:
                return d
            t = to_term(as_arr(x))
            return tm.where(tm.lt(t, tm.ZERO), tm.add(t, C(n)), t)

        lo, hi = bound(k.lo, tm.ZERO), bound(k.hi, C(n))
        return Arr((n,), {(i,): tm.and_(tm.le(lo, C(i)), tm.lt(C(i), hi)) for i in range(n)})

    def setitem(self, o, k, v):
        if isinstance(o, PyObj) and o.setitem is not None:
            o.setitem(self, k, v)
            return
        if isinstance(o, dict):
            self.event("dictset", "setitem", (o, k, v))
            o[self.key(k)] = v
            return
        if isinstance(o, list):
            k = self.pynum(k)
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise ProgError("list assignment index out of range", self.loc)
                o[k] = v
                return
            raise Unsupported("list store with symbolic index", self.loc)
        if isinstance(o, (NT, tuple, str)):
            raise ProgError("%s does not support item assignment" % type(o).__name__, self.loc)
        if isinstance(o, Arr):
            if o.axes is None:
                self.event("setitem", "setitem", (o, k, v))
                o.data = {(): tm.atom("store", o.t, to_term(k), to_term(v))} if o.tag == "local" else o.data
                return
            if self.jit and [l for t in o.data.values() for l in tm.leaves(t) if not str(l.args[0]).startswith("size:")]:
                self.event("traced_store", "setitem", (o, k, v))
            self.event("arrset", "setitem", (o, k, v))
            m = self.region_mask(o, k) if isinstance(k, SliceV) else None
            if m is not None and is_numlike(v) and as_arr(v).axes == ():
                o.data = emap(lambda c, x, y: tm.where(c, x, y), m, as_arr(v), o).data
                return
            new = self.arr_set(o, k, v)
            o.axes, o.data = new.axes, new.data
            return
        if isinstance(o, (Ext, Phi, PyObj)):
            self.event("setitem", "setitem", (o, k, v))
            return
        raise Unsupported("item assignment on %s" % type(o).__name__, self.loc)

    def arr_set(self, a, k, v):
        ks = list(k) if isinstance(k, tuple) else [k]
        if Ellipsis in [x if x is Ellipsis else 0 for x in ks]:
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            ks[i : i + 1] = [SliceV(None, None, None)] * (len(a.axes) - len(ks) + 1)
        ks = [as_arr(x) if isinstance(x, (list, SymList)) else x for x in ks]
        while len(ks) < len(a.axes):
            ks.append(SliceV(None, None, None))
        if len(ks) > len(a.axes):
            raise ProgError("too many indices for array", self.loc)
        ixs = [x for x in ks if isinstance(x, Arr) and x.axes and not self._isboolarr(x)]
        if ixs and all(isinstance(n, int) for n in a.axes) and not any(isinstance(x, SliceV) for x in ks):
            # integer arrays with known entries: one store per entry
            ks = [as_arr(x) for x in ks]
            axes = V.bcast([x.axes for x in ks])
            va = as_arr(v)
            if all(isinstance(n, int) for n in axes) and all(tm.is_c(t) for x in ks for t in x.data.values()) and va.axes is not None:
                if V.bcast([va.axes, axes]) == axes:
                    for p in V.positions(axes):
                        a = self.arr_set(a, tuple(self.pynum(scalar(V.elem_at(x, axes, p))) for x in ks), scalar(V.elem_at(va, axes, p)))
                    return a
        # guard per position and the sub-shape of the assigned region
        ivs = V.ixvars(a.axes)
        conds = []
        keep = []  # (axis index, offset) of surviving axes
        for j, x in enumerate(ks):
            if isinstance(x, Arr) and x.axes == () and tm.is_c(x.data[()]):
                x = self.pynum(x)
                ks[j] = x
            s = a.axes[j]
            if isinstance(x, int) and not isinstance(x, bool):
                if isinstance(s, int):
                    if not -s <= x < s:
                        raise ProgError("index %d out of range for axis of length %d" % (x, s), self.loc)
                conds.append(("ix", C(x) if x >= 0 else tm.add(size_term(s), C(x))))
            elif isinstance(x, SliceV):
                lo, size = self._slice_bounds(s, x)
                if x.lo is None and x.hi is None:
                    size = s
                conds.append(("sl", lo, size))
                keep.append((j, lo, size))
            elif isinstance(x, Arr) and x.axes == ():
                conds.append(("ix", x.data[()]))
            elif isinstance(x, Arr) and x.axes is not None and self._isboolarr(x) and len(x.axes) == 1:
                conds.append(("mask", x))
                keep.append((j, tm.ZERO, s))
            else:
                raise Unsupported("array store index", self.loc)
        va = as_arr(v)
        if va.axes is None:
            va = None
            vt = to_term(v)
        regaxes = tuple(s for _, _, s in keep)
        masked = any(c[0] == "mask" for c in conds)
        data = {}
        for p in V.positions(a.axes):
            full = []
            q = 0
            for j, s in enumerate(a.axes):
                if isinstance(s, int):
                    full.append(C(p[q]))
                    q += 1
                else:
                    full.append(ivs[j])
            g = []
            regpos = []
            m = {}
            nv = V.ixvars(regaxes)
            kk = 0
            for j, c in enumerate(conds):
                if c[0] == "ix":
                    g.append(tm.eq(full[j], c[1]))
                elif c[0] == "sl":
                    rel = tm.sub(full[j], c[1])
                    if not (c[1] is tm.ZERO and size_term(c[2]) is size_term(a.axes[j])):
                        g.append(tm.le(tm.ZERO, rel))
                        g.append(tm.lt(rel, size_term(c[2])))
                    regpos.append(rel)
                    kk += 1
                else:
                    x = c[1]
                    g.append(elem_at(x, (a.axes[j],), tuple([p[_int_rank(a.axes, j)]] if isinstance(a.axes[j], int) else [])))
                    if not isinstance(a.axes[j], int):
                        g[-1] = tm.subst(g[-1], {V.ixvars(x.axes)[0]: ivs[j]})
                    regpos.append(full[j])
            cond = tm.and_(*g)
            if cond is tm.FALSE:
                data[p] = a.data[p]
                continue
            if va is None:
                val = tm.atom("elem", vt, *regpos) if regpos else vt
            elif va.axes == ():
                val = va.data[()]
            else:
                if masked:
                    raise Unsupported("array store through a mask", self.loc)
                val = self._val_at(va, regaxes, regpos)
            data[p] = tm.where(cond, val, a.data[p])
        return Arr(a.axes, data)

    def _val_at(self, va, regaxes, regpos):
        if len(va.axes) > len(regaxes):
            raise ProgError("could not broadcast array of dimension %d into %d" % (len(va.axes), len(regaxes)), self.loc)
        off = len(regaxes) - len(va.axes)
        r = va
        for j in range(len(va.axes)):
            pos = regpos[j + off]
            s = r.axes[0]
            if isinstance(s, int) and s == 1:
                r = take(r, 0, 0)
                continue
            reg = size_term(regaxes[j + off])
            if tm.gv(size_term(s)) != tm.gv(reg) and (isinstance(s, int) and tm.is_c(reg)):
                raise ProgError("could not broadcast input array", self.loc)
            if tm.is_c(pos):
                r = take(r, 0, int(tm.cval(pos)) if isinstance(s, int) else pos)
            else:
                r = self.take_sym(r, 0, pos)
        return r.data[()]

    # ------------------------------------------------------------- attributes
    def ex_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getattr(o, n.attr)

    def getattr(self, o, name):
        if isinstance(o, Module):
            return self.mod_attr(o, name)
        if isinstance(o, Ext) and o.path in self.extval:
            o = self.extval[o.path]
        if isinstance(o, PyObj):
            if name in o.attrs:
                v = o.attrs[name]
                return v(self) if callable(v) else v
            if name in o.methods:
                return Model(lambda it, args, kw: o.methods[name](it, args, kw))
            if o.closed:
                raise ProgError("%s has no attribute %s" % (o.name, name), self.loc)
            raise Unsupported("attribute %s of %s" % (name, o.name), self.loc)
        if isinstance(o, Ext):
            p = o.path + "." + name
            return self.ext_name(p)
        if isinstance(o, NT):
            if name in o.cls.fields:
                return o.get(name)
            if name == "_fields":
                return o.cls.fields
            if name in ("_asdict", "_replace", "_make", "index", "count"):
                return Bound(o, name)
            if name == "__class__":
                return o.cls
            if name == "_field_defaults":
                return dict(zip(o.cls.fields[len(o.cls.fields) - len(o.cls.defaults) :], o.cls.defaults))
            if name.startswith("__"):
                raise Unsupported("attribute %s of a named tuple" % name, self.loc)
            raise ProgError("%s has no field %s" % (o.cls.name, name), self.loc)
        if isinstance(o, NTCls):
            if name == "_fields":
                return o.fields
            if name in ("_make",):
                return Bound(o, name)
            if name in ("__name__",):
                return o.name
            if name == "_field_defaults":
                return dict(zip(o.fields[len(o.fields) - len(o.defaults) :], o.defaults))
            if name.startswith("__"):
                raise Unsupported("attribute %s of a named tuple class" % name, self.loc)
            raise ProgError("%s has no attribute %s" % (o.name, name), self.loc)
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if is_num(o):
            if name in ("real",):
                return o
            if name in ("size",):
                raise ProgError("number has no attribute %s" % name, self.loc)
            return Bound(o, name)
        if isinstance(o, (str, bytes, list, dict, set, tuple)):
            if not hasattr(o, name) and not (isinstance(o, dict) and name == "move_to_end"):
                raise ProgError("%s object has no attribute %s" % (type(o).__name__, name), self.loc)
            return Bound(o, name)
        if isinstance(o, SymList):
            return Bound(o, name)
        if isinstance(o, Phi):
            if o.a is UNDEF:
                return self.getattr(o.b, name)
            if o.b is UNDEF:
                return self.getattr(o.a, name)
            return join(o.c, self.getattr(o.a, name), self.getattr(o.b, name))
        if isinstance(o, (Fn, Xf)):
            if name in ("__name__", "__doc__"):
                return "fn"
            raise Unsupported("function attribute %s" % name, self.loc)
        if isinstance(o, AtIndexed):
            return Bound(o, name)
        if o is None:
            raise ProgError("None has no attribute %s" % name, self.loc)
        if isinstance(o, Bound):
            return Bound(o, name)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__), self.loc)

    def arr_attr(self, a, name):
        if name == "at":
            return AtProxy(a)
        if a.axes is None:
            if name in ("size", "shape", "ndim", "T", "dtype"):
                return opq(tm.atom("getattr", a.t, name))
            return Bound(a, name) if name in ARR_METHODS or is_text(a.t) else opq(tm.atom("getattr", a.t, name))
        if name == "shape":
            return tuple(s if isinstance(s, int) else scalar(s) for s in a.axes)
        if name == "size":
            n = tm.ONE
            for s in a.axes:
                n = tm.mul(n, size_term(s))
            return self.pynum(scalar(n))
        if name == "ndim":
            return len(a.axes)
        if name == "T":
            return moveaxis(a, tuple(range(len(a.axes)))[::-1])
        if name == "dtype":
            return Ext("dtype")
        if name in ("real",):
            return a
        if name in ARR_METHODS or name in NDARRAY:
            return Bound(a, name)
        if any(len(k) == 0 and is_text(x) for k, x in a.data.items()):
            return Bound(a, name)
        raise ProgError("an array has no attribute %s" % name, self.loc)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                try:
                    args.extend(self.tolist(v))
                except Unsupported:
                    if isinstance(f, (Ext, Bound)) or (isinstance(f, Arr) and f.axes is None):
                        args.append(opq(tm.atom("star", to_term(v))))
                    else:
                        raise
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, NT):
                    raise ProgError("** of a namedtuple", self.loc)
                if not isinstance(v, dict):
                    raise Unsupported("** of unknown mapping", self.loc)
                for kk, vv in v.items():
                    if kk in kw:
                        raise ProgError("multiple values for keyword %s" % kk, self.loc)
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        save = self.loc
        self.loc = (fr.module.relpath, n.lineno)
        r = self.call(f, args, kw, n)
        self.loc = save
        return r

    def call(self, f, args, kw, node=None):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Xf):
            return self.call_xf(f, args, kw)
        if isinstance(f, NTCls):
            return self.make_nt(f, args, kw)
        if isinstance(f, Ext):
            from . import lib

            return lib.call_ext(self, f.path, args, kw)
        if isinstance(f, Bound):
            from . import lib

            return lib.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Phi):
            if f.a is UNDEF:
                return self.call(f.b, args, kw, node)
            if f.b is UNDEF:
                return self.call(f.a, args, kw, node)
            return join(f.c, self.call(f.a, args, kw, node), self.call(f.b, args, kw, node))
        if isinstance(f, Arr) and f.axes is None:
            r = opq(tm.atom("call", f.t, *[to_term(a) for a in args], *[x for k in sorted(kw) for x in (tm.mk("str", k), to_term(kw[k]))]))
            self.event("call", f.t, tuple(args), kw, r)
            return r
        if isinstance(f, Model):
            return f.fn(self, args, kw)
        if f is None or is_num(f) or isinstance(f, (str, list, tuple, dict, NT, Arr, Module)):
            raise ProgError("%s is not callable" % type(f).__name__, self.loc)
        raise Unsupported("call of %s" % type(f).__name__, self.loc)

    def make_nt(self, cls, args, kw):
        n = len(cls.fields)
        if len(args) > n:
            raise ProgError("%s takes %d fields, got %d" % (cls.name, n, len(args)), self.loc)
        vals = {}
        for k, v in zip(cls.fields, args):
            vals[k] = v
        for k, v in kw.items():
            if k not in cls.fields:
                raise ProgError("%s has no field %s" % (cls.name, k), self.loc)
            if k in vals:
                raise ProgError("%s: field %s given twice" % (cls.name, k), self.loc)
            vals[k] = v
        nd = len(cls.defaults)
        for k, v in zip(cls.fields[n - nd :], cls.defaults):
            vals.setdefault(k, v)
        missing = [k for k in cls.fields if k not in vals]
        if missing:
            raise ProgError("%s: missing field %s" % (cls.name, ", ".join(missing[:4])), self.loc)
        return NT(cls, [vals[k] for k in cls.fields])

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(pos) and a.vararg is None:
            raise ProgError("%s() takes %d arguments, got %d" % (f.name, len(pos), len(args)), self.loc)
        for k, v in zip(pos, args):
            out[k] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos) :])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in konly:
                if k in out:
                    raise ProgError("%s() got multiple values for argument %s" % (f.name, k), self.loc)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise ProgError("%s() got an unexpected keyword argument %s" % (f.name, k), self.loc)
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        for k, d in zip(pos[len(pos) - len(f.defaults) :], f.defaults):
            if k not in out:
                out[k] = d
        for k, d, dn in zip(konly, f.kwdefaults, a.kw_defaults):
            if k not in out and dn is not None:
                out[k] = d
        miss = [k for k in pos + konly if k not in out]
        if miss:
            raise ProgError("%s() missing arguments: %s" % (f.name, ", ".join(miss)), self.loc)
        return out

    def call_fn(self, f, args, kw):
        qn = f.module.name + "." + f.name
        vals = self.bind(f, args, kw)
        if qn in self.hooks:
            return self.hooks[qn](self, vals)
        if len(self.callstack) > 80:
            raise Unsupported("call depth", self.loc)
        fr = Frame(f.module, f.parent, f, len(self.path))
        fr.vars.update(vals)
        callloc = self.loc
        self.event("enter", qn, tuple(vals.items()))
        self.callstack.append((qn, callloc))
        self.stack.append(fr)
        n0 = len(self.path)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            alive = self.exec_stmts(f.node.body, fr)
            if alive:
                fr.rets.append((tuple(self.path[fr.base :]), None, None, tuple(self.loopctx)))
            del self.path[n0:]
            if not fr.rets:
                raise ProgError("%s() never returns" % f.name, callloc)
            if self.hooks.get("rets"):
                self.hooks["rets"](qn, fr.rets)
            if is_generator(f.node):
                return self.generated(fr)
            res = fr.rets[-1][1]
            for conds, v, loc, loops in reversed(fr.rets[:-1]):
                c = tm.and_(*conds)
                if len(loops) > len(self.loopctx):
                    for ix, size in reversed(loops[len(self.loopctx):]):
                        c = tm.batom("exists", tm.lam(size, ix, tm.where(c, tm.ONE, tm.ZERO)))
                        v = subst_val(v, {ix: tm.atom("first", c)})
                res = join(c, v, res)
            return res
        finally:
            del self.path[n0:]
            self.stack.pop()
            self.callstack.pop()
            self.loc = callloc

    def generated(self, fr):
        """what a generator function yields (it is run to its end at once)"""
        ys = fr.yields
        if any(len(l) > len(self.loopctx) for _, _, l in ys):
            if len(ys) == 1 and len(ys[0][2]) == len(self.loopctx) + 1 and ys[0][0] is tm.TRUE:
                (i, n) = ys[0][2][-1]
                return SymList(n, i, ys[0][1])
            raise Unsupported("generator with loops of symbolic length", self.loc)
        if all(c is tm.TRUE for c, _, _ in ys):
            return [v for _, v, _ in ys]
        return GenItems([CondItem(c, v) for c, v, _ in ys])

    # ------------------------------------------------------- transformations
    def call_xf(self, f, args, kw):
        if f.kind == "jit":
            self.jit += 1
            try:
                return self.call(f.fn, args, kw)
            finally:
                self.jit -= 1
        if f.kind == "partial":
            k2 = dict(f.opt["kw"])
            k2.update(kw)
            return self.call(f.fn, list(f.opt["args"]) + list(args), k2)
        if f.kind == "vmap":
            return self.call_vmap(f, args, kw)
        if f.kind in ("grad", "value_and_grad"):
            return self.call_grad(f, args, kw)
        if f.kind == "makejit":
            return Xf("jit", args[0], **f.opt)
        raise Unsupported("transformation " + f.kind, self.loc)

    def call_vmap(self, f, args, kw):
        if kw:
            raise Unsupported("keyword arguments to a vmapped function", self.loc)
        in_axes = f.opt.get("in_axes", 0)
        out_axes = f.opt.get("out_axes", 0)
        if isinstance(in_axes, (list, tuple)):
            if len(in_axes) != len(args):
                raise ProgError("vmap in_axes has %d entries but the function is called with %d arguments" % (len(in_axes), len(args)), self.loc)
        else:
            in_axes = [in_axes] * len(args)
        sizes = []

        def walk(ax, v, g):
            """apply g(arr, axis) on mapped leaves"""
            if ax is None:
                return v
            if isinstance(ax, (tuple, list, NT)):
                axs = ax.vals if isinstance(ax, NT) else ax
                vs = v.vals if isinstance(v, NT) else v
                if not isinstance(vs, (tuple, list)) or len(vs) != len(axs):
                    raise ProgError("vmap in_axes does not match argument structure", self.loc)
                out = [walk(x, y, g) for x, y in zip(axs, vs)]
                return NT(v.cls, out) if isinstance(v, NT) else tuple(out)
            if isinstance(v, NT):
                return NT(v.cls, [walk(ax, x, g) for x in v.vals])
            if isinstance(v, (tuple, list)):
                return type(v)(walk(ax, x, g) for x in v)
            if isinstance(v, dict):
                return {k: walk(ax, x, g) for k, x in v.items()}
            if v is None:
                return None
            if isinstance(v, Phi):
                v = as_arr(v)
            if is_numlike(v) or isinstance(v, SymList):
                a = as_arr(v)
                if a.axes is None:
                    return g(a, ax)
                if not a.axes or not -len(a.axes) <= ax < len(a.axes):
                    raise ProgError("vmap was requested to map axis %d of an array of dimension %d" % (ax, len(a.axes)), self.loc)
                return g(a, ax % len(a.axes))
            raise Unsupported("vmap over %s" % type(v).__name__, self.loc)

        def rec_size(a, ax):
            if a.axes is not None:
                sizes.append(a.axes[ax])
            return a

        for ax, v in zip(in_axes, args):
            walk(ax, v, rec_size)
        if not sizes:
            raise ProgError("vmap must have at least one mapped argument", self.loc)
        s = sizes[0]
        for q in sizes[1:]:
            if not V.same_size(q, s):
                raise ProgError("vmap got inconsistent sizes %s and %s for mapped axes" % (tm.show(size_term(s)), tm.show(size_term(q))), self.loc)
        if isinstance(s, int):
            outs = []
            for i in range(s):
                a2 = [walk(ax, v, lambda a, x: opq(tm.atom("getitem", a.t, C(i))) if a.axes is None else take(a, x, i)) for ax, v in zip(in_axes, args)]
                self.batch.append((C(i), C(s)))
                try:
                    outs.append(self.call(f.fn, a2, {}))
                finally:
                    self.batch.pop()
            return self.stack_tree(outs, out_axes)
        b = tm.idx("b%d" % len(self.batch))
        a2 = [walk(ax, v, lambda a, x: opq(tm.atom("getitem", a.t, b)) if a.axes is None else take(a, x, b)) for ax, v in zip(in_axes, args)]
        self.batch.append((b, s))
        try:
            r = self.call(f.fn, a2, {})
        finally:
            self.batch.pop()

        def out(v, ax):
            if isinstance(ax, (tuple, list)):
                vs = v.vals if isinstance(v, NT) else v
                o = [out(x, y) for x, y in zip(vs, ax)]
                return NT(v.cls, o) if isinstance(v, NT) else tuple(o)
            if ax is None:
                return v
            return tree_map(lambda a: add_axis(a, s, b, ax if ax >= 0 else len(a.axes) + 1 + ax), v)

        return out(r, out_axes)

    def stack_tree(self, outs, ax=0):
        o = outs[0]
        if isinstance(o, NT):
            return NT(o.cls, [self.stack_tree([x.vals[i] for x in outs], ax) for i in range(len(o.vals))])
        if isinstance(o, (tuple, list)):
            return type(o)(self.stack_tree([x[i] for x in outs], ax) for i in range(len(o)))
        if isinstance(o, dict):
            return {k: self.stack_tree([x[k] for x in outs], ax) for k in o}
        if o is None:
            return None
        r = stack([as_arr(x) for x in outs])
        if ax:
            n = len(r.axes)
            ax %= n
            perm = list(range(1, n))
            perm.insert(ax, 0)
            r = moveaxis(r, tuple(perm))
        return r

    def call_grad(self, f, args, kw):
        argn = f.opt.get("argnums", 0)
        if not isinstance(argn, int):
            raise Unsupported("grad with several argnums", self.loc)
        if argn >= len(args):
            raise ProgError("grad argnums=%d but %d positional arguments" % (argn, len(args)), self.loc)
        has_aux = f.opt.get("has_aux", False)
        x = args[argn]
        leaves = []
        sub = {}

        def f1(a):
            if a.axes is None:
                leaves.append(a)
                return a
            out = {}
            for p, t in a.data.items():
                self.fresh += 1
                if a.axes == () or all(isinstance(s, int) for s in a.axes):
                    s = tm.sym("d%d" % self.fresh)
                    sub[s] = t
                    out[p] = s
                else:
                    out[p] = t
            na = Arr(a.axes, out)
            leaves.append(na)
            return na

        x2 = tree_map(f1, x)
        a2 = list(args)
        a2[argn] = x2
        v = self.call(f.fn, a2, kw)
        aux = None
        if has_aux:
            v, aux = v
        if isinstance(v, (tuple, list, NT)) or (isinstance(v, Arr) and v.axes):
            raise ProgError("grad requires a scalar-valued function", self.loc)
        vt = to_term(as_arr(v))
        it = iter(leaves)

        def f2(a):
            lf = next(it)
            if lf.axes is None:
                return opq(tm.atom("grad", vt, lf.t))
            out = {}
            for p, s in lf.data.items():
                if s in sub:
                    try:
                        d = tm.deriv(vt, s)
                    except tm.NoDeriv:
                        d = tm.atom("grad", vt, s)
                    out[p] = tm.subst(d, sub)
                else:
                    out[p] = tm.atom("grad", vt, s)
            return Arr(lf.axes, out)

        g = tree_map(f2, x)
        v = scalar(tm.subst(vt, sub)) if isinstance(v, Arr) and v.axes == () or is_num(v) else opq(tm.subst(vt, sub))
        if f.kind == "grad":
            return (g, aux) if has_aux else g
        return ((v, aux), g) if has_aux else (v, g)

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b):
        a, b = as_arr(a), as_arr(b)
        if a.axes is None or b.axes is None:
            return opq(tm.atom("matmul", to_term(a), to_term(b)))
        if not a.axes or not b.axes:
            return emap(tm.mul, a, b)
        if len(a.axes) > 2 or len(b.axes) > 2:
            raise Unsupported("matmul of dimension > 2", self.loc)
        ka = len(a.axes) - 1
        kb = 0 if len(b.axes) == 1 else 0
        if not V.same_size(a.axes[ka], b.axes[kb]):
            raise ProgError("matmul: inner dimensions %s and %s differ" % (a.axes[ka], b.axes[kb]), self.loc)
        s = a.axes[ka]
        if not isinstance(s, int):
            x = V.moveaxis(a, (1, 0)) if len(a.axes) == 2 else a
            y = b
            if len(a.axes) == 2 and len(b.axes) == 2:
                x, y = V.add_axis(x, 1, None, 2), V.add_axis(b, 1, None, 1)
            elif len(a.axes) != len(b.axes):
                x, y = (x, V.add_axis(b, 1, None, 1)) if len(a.axes) == 2 else (V.add_axis(a, 1, None, 1), b)
            return V.reduce(emap(tm.mul, x, y), "sum", 0)
        tot = None
        for i in range(s):
            x, y = take(a, ka, i), take(b, kb, i)
            if len(x.axes) == 1 and len(y.axes) == 1:
                x = add_axis(x, 1, None, 1)
            p = emap(tm.mul, x, y)
            tot = p if tot is None else emap(tm.add, tot, p)
        return tot


class LoopList:
    def __init__(self, *a):
        pass


class SymSplice:
    """a run of list elements of symbolic length"""

    def __init__(self, sl):
        self.sl = sl


class AtProxy:
    def __init__(self, arr):
        self.arr = arr


class AtIndexed:
    def __init__(self, arr, k):
        self.arr, self.k = arr, k


class Model:
    """analysis-side model of a callable"""

    def __init__(self, fn):
        self.fn = fn


# every attribute of numpy and jax arrays
NDARRAY = set(
    '''T all any argmax argmin argpartition argsort astype at base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
    diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero
    partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes
    take tobytes tofile tolist tostring trace transpose var view mT device devices sharding block_until_ready addressable_data weak_type aval
    is_fully_addressable copy_to_host_async on_device_size_in_bytes decode encode split strip'''.split()
)
ARR_METHODS = set(
    "sum mean max min std var any all astype reshape flatten ravel copy argmax argmin dot cumsum transpose squeeze "
    "tolist item clip round prod nonzero sort repeat keys values items append write split strip format decode encode "
    "read close update get replace startswith endswith lower upper join".split()
)
