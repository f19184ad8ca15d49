"""Abstract values of the interpreter."""
from fractions import Fraction as Fr

from . import terms as tm
from .terms import T, C

LIM = 96  # axes up to this length are expanded element-wise


class ProgError(Exception):
    """the analysed program definitely fails here (TypeError, NameError, ...)"""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg, self.loc = msg, loc

    def __str__(self):
        return self.msg + (" at %s:%s" % self.loc if self.loc else "")


class Unsupported(Exception):
    """a construct outside the modelled language"""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg, self.loc = msg, loc

    def __str__(self):
        return self.msg + (" at %s:%s" % self.loc if self.loc else "")


def size_term(s):
    return C(s) if isinstance(s, int) else s


def norm_size(s):
    """int (expanded axis) or T"""
    if isinstance(s, T):
        if tm.is_c(s) and tm.cval(s).denominator == 1 and tm.cval(s) <= LIM:
            return int(tm.cval(s))
        return s
    if isinstance(s, Fr):
        s = int(s)
    if s > LIM:
        return C(s)
    return s


def same_size(a, b):
    if a is b:
        return True
    a, b = size_term(a), size_term(b)
    return a is b or tm.gv(a) == tm.gv(b) or not (tm.is_c(a) and tm.is_c(b)) and tm.equal(a, b)[0]


def ixvars(axes):
    seen = {}
    out = []
    for a in axes:
        if isinstance(a, int):
            out.append(None)
        else:
            n = seen.get(a, 0)
            seen[a] = n + 1
            out.append(tm.idx("i%d#%d" % (a.id, n)))
    return out


class Arr:
    """array: axes (int -> expanded, T -> symbolic size), data {int tuple: T}.
    axes None: opaque value of unknown shape/type."""

    __slots__ = ("axes", "data", "tag")

    def __init__(self, axes, data, tag=None):
        self.axes, self.data, self.tag = axes, data, tag

    @property
    def opaque(self):
        return self.axes is None

    @property
    def t(self):
        if len(self.data) != 1 or (self.axes and any(isinstance(a, int) for a in self.axes)):
            raise Unsupported("expected a single-element value")
        return self.data[()]

    def __repr__(self):
        if self.axes is None:
            return "Opq(%s)" % tm.show(self.t, 4)
        return "Arr%s{%s}" % (
            tuple(a if isinstance(a, int) else tm.show(a) for a in self.axes),
            ", ".join(tm.show(v, 4) for v in list(self.data.values())[:4]),
        )


def scalar(t):
    return Arr((), {(): t})


def opq(t):
    return Arr(None, {(): t})


class NTCls:
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields = name, tuple(fields)
        self.defaults = tuple(defaults)
        if len(set(self.fields)) != len(self.fields):
            raise ProgError("duplicate namedtuple fields in %s" % name)

    def __repr__(self):
        return "NTCls(%s)" % self.name


class NT:
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def get(self, name):
        return self.vals[self.cls.fields.index(name)]

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % p for p in zip(self.cls.fields, self.vals)))


class Fn:
    def __init__(self, node, module, parent, defaults, kwdefaults, name):
        self.node, self.module, self.parent = node, module, parent
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.seeds = None

    @property
    def loc(self):
        return (self.module.relpath, self.node.lineno)

    def __repr__(self):
        return "Fn(%s.%s)" % (self.module.name, self.name)


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Xf:
    """transformed function: jit / vmap / grad / value_and_grad / partial"""

    def __init__(self, kind, fn, **opt):
        self.kind, self.fn, self.opt = kind, fn, opt

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.fn)


class Ext:
    """external name, by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class PyObj:
    """Stand-in for an object of a library that is not analysed.  The check
    supplies its attributes, items and methods; everything else is an
    error of the program for a closed object, outside the model otherwise."""

    def __init__(self, name, term=None, attrs=None, methods=None, getitem=None, setitem=None, iter=None, enter=None, contains=None, truth=None, closed=False):
        self.name = name
        self.term = term if term is not None else tm.sym("obj:" + name)
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.getitem = getitem
        self.setitem = setitem
        self.iter = iter
        self.enter = enter
        self.contains = contains
        self.truth = truth
        self.closed = closed

    def __repr__(self):
        return "PyObj(%s)" % self.name


class Phi:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%s, %r, %r)" % (tm.show(self.c, 3), self.a, self.b)


class SymList:
    """list of symbolic length: value generic in index ix"""

    def __init__(self, size, ix, value):
        self.size, self.ix, self.value = size, ix, value


class GenIter:
    def __init__(self, size, at):
        self.size, self.at = size, at


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class PyStr:
    """string of unknown content, by term"""


# ---------------------------------------------------------------- Arr algebra
def is_num(v):
    return isinstance(v, (int, Fr, bool, float))


def is_numlike(v):
    return is_num(v) or isinstance(v, Arr)


def as_arr(v):
    if isinstance(v, Arr):
        return v
    if is_num(v):
        if isinstance(v, bool):
            return scalar(tm.TRUE if v else tm.FALSE)
        return scalar(C(v))
    if isinstance(v, NT):
        return stack([as_arr(x) for x in v.vals])
    if isinstance(v, (list, tuple)):
        return stack([as_arr(x) for x in v])
    if isinstance(v, SymList):
        return add_axis(as_arr(v.value), v.size, v.ix)
    if isinstance(v, Phi):
        a, b = as_arr(v.a), as_arr(v.b)
        if a.axes == b.axes:
            return Arr(a.axes, {k: tm.where(v.c, a.data[k], b.data[k]) for k in a.data})
    if isinstance(v, PyObj) and "__array__" in v.methods:
        return v.methods["__array__"](None, [], {})
    raise Unsupported("not an array: %r" % (type(v).__name__,))


def elem_at(a, axes, pos):
    """element of a broadcast to axes, at expanded position pos (ints)"""
    if a.axes is None:
        return a.data[()]
    off = len(axes) - len(a.axes)
    key = []
    m = {}
    av = ixvars(a.axes)
    rv = ixvars(axes)
    # positions of int axes in result
    ipos = {}
    k = 0
    for j, s in enumerate(axes):
        if isinstance(s, int):
            ipos[j] = pos[k]
            k += 1
    for j, s in enumerate(a.axes):
        r = axes[j + off]
        if isinstance(s, int):
            if s == 1:
                key.append(0)
            else:
                key.append(ipos[j + off])
        else:
            if av[j] is not rv[j + off]:
                m[av[j]] = rv[j + off]
    t = a.data[tuple(key)]
    return tm.subst(t, m) if m else t


def bcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for j in range(n):
        cur = 1
        for s in shapes:
            k = j - (n - len(s))
            if k < 0:
                continue
            d = s[k]
            if d == 1 and isinstance(d, int):
                continue
            if cur == 1 and isinstance(cur, int):
                cur = d
            elif cur is d or (isinstance(cur, int) and isinstance(d, int) and cur == d):
                pass
            elif same_size(cur, d):
                pass
            else:
                raise ProgError(
                    "shape mismatch: axis of length %s aligned with axis of length %s"
                    % (tm.show(size_term(cur)), tm.show(size_term(d)))
                )
        out.append(cur)
    return tuple(out)


def positions(axes):
    import itertools

    return itertools.product(*[range(a) for a in axes if isinstance(a, int)])


def emap(f, *vs):
    arrs = [as_arr(v) for v in vs]
    if any(a.axes is None for a in arrs):
        if all(len(a.data) == 1 for a in arrs):
            return opq(f(*[next(iter(a.data.values())) for a in arrs]))
        return opq(tm.atom("emap", *[to_term(a) for a in arrs]))
    axes = bcast([a.axes for a in arrs])
    return Arr(axes, {p: f(*[elem_at(a, axes, p) for a in arrs]) for p in positions(axes)})


def stack(arrs):
    if not arrs:
        return Arr((0,), {})
    if any(a.axes is None for a in arrs):
        return opq(tm.mk("tuple", *[to_term(a) for a in arrs]))
    axes = bcast([a.axes for a in arrs])
    if any(len(a.axes) != len(axes) for a in arrs):
        raise ProgError("ragged array")
    data = {}
    for i, a in enumerate(arrs):
        for p in positions(axes):
            data[(i,) + p] = elem_at(a, axes, p)
    return Arr((len(arrs),) + axes, data)


def _int_rank(axes, j):
    return sum(1 for s in axes[:j] if isinstance(s, int))


def take(a, j, index):
    """drop axis j at the given index (python int or term)"""
    s = a.axes[j]
    naxes = a.axes[:j] + a.axes[j + 1 :]
    if isinstance(s, int):
        if isinstance(index, T):
            if tm.is_c(index):
                index = int(tm.cval(index))
            else:
                raise Unsupported("symbolic index into a fixed-length axis")
        if not -s <= index < s:
            raise ProgError("index %d out of range for axis of length %d" % (index, s))
        index %= s
        r = _int_rank(a.axes, j)
        data = {k[:r] + k[r + 1 :]: v for k, v in a.data.items() if k[r] == index}
        return Arr(naxes, data)
    if isinstance(index, int):
        index = C(index) if index >= 0 else tm.add(s, C(index))
    av = ixvars(a.axes)
    nv = ixvars(naxes)
    m = {av[j]: index}
    for k in range(len(a.axes)):
        if k == j or av[k] is None:
            continue
        n = nv[k if k < j else k - 1]
        if n is not av[k]:
            m[av[k]] = n
    return Arr(naxes, {k: tm.subst(v, m) for k, v in a.data.items()})


def add_axis(a, size, ix, pos=0):
    """insert a symbolic (or expanded when size is int 1) axis; ix is the index
    term bound by it"""
    if a.axes is None:
        return opq(tm.lam(size_term(size), ix, a.t))
    naxes = a.axes[:pos] + (size,) + a.axes[pos:]
    av, nv = ixvars(a.axes), ixvars(naxes)
    m = {}
    for k in range(len(a.axes)):
        if av[k] is None:
            continue
        n = nv[k if k < pos else k + 1]
        if n is not av[k]:
            m[av[k]] = n
    if isinstance(size, int):
        if size != 1:
            raise Unsupported("add_axis expanded")
        r = _int_rank(naxes, pos)
        return Arr(naxes, {k[:r] + (0,) + k[r:]: tm.subst(v, m) for k, v in a.data.items()})
    if ix is not None:
        m[ix] = nv[pos]
    return Arr(naxes, {k: tm.subst(v, m) for k, v in a.data.items()})


def reslice(a, j, newsize, f):
    """replace axis j (symbolic) by one of size newsize; index map f(new index)->old"""
    s = a.axes[j]
    naxes = a.axes[:j] + (newsize,) + a.axes[j + 1 :]
    av, nv = ixvars(a.axes), ixvars(naxes)
    if isinstance(newsize, int):
        parts = [take(a, j, f(C(i))) for i in range(newsize)]
        base = parts[0].axes if parts else a.axes[:j] + a.axes[j + 1 :]
        data = {}
        r = _int_rank(naxes, j)
        for i, p in enumerate(parts):
            pv = ixvars(p.axes)
            m = {}
            rest = [v for k, v in enumerate(nv) if k != j]
            for o, n in zip(pv, rest):
                if o is not None and o is not n:
                    m[o] = n
            for k, v in p.data.items():
                data[k[:r] + (i,) + k[r:]] = tm.subst(v, m) if m else v
        return Arr(naxes, data)
    m = {}
    for k in range(len(a.axes)):
        if av[k] is None:
            continue
        if k == j:
            m[av[k]] = f(nv[k])
        elif nv[k] is not av[k]:
            m[av[k]] = nv[k]
    return Arr(naxes, {k: tm.subst(v, m) for k, v in a.data.items()})


def moveaxis(a, perm):
    naxes = tuple(a.axes[p] for p in perm)
    av, nv = ixvars(a.axes), ixvars(naxes)
    m = {}
    for newpos, p in enumerate(perm):
        if av[p] is not None and av[p] is not nv[newpos]:
            m[av[p]] = nv[newpos]
    data = {}
    ints_old = [p for p in range(len(a.axes)) if isinstance(a.axes[p], int)]
    for k, v in a.data.items():
        d = dict(zip(ints_old, k))
        nk = tuple(d[p] for p in perm if isinstance(a.axes[p], int))
        data[nk] = tm.subst(v, m) if m else v
    return Arr(naxes, data)


def lam_axis(a, j):
    """(array without axis j whose elements are lambdas over that axis)"""
    s = a.axes[j]
    if isinstance(s, int):
        r = _int_rank(a.axes, j)
        out = {}
        for k in a.data:
            kk = k[:r] + k[r + 1 :]
            out.setdefault(kk, [None] * s)[k[r]] = a.data[k]
        naxes = a.axes[:j] + a.axes[j + 1 :]
        return Arr(naxes, {k: tm.mk("tuple", *v) for k, v in out.items()})
    tmp = tm.idx("lamtmp%d" % j)
    b = take(a, j, tmp)
    return Arr(b.axes, {k: tm.lam(s, tmp, v) for k, v in b.data.items()})


def reduce(a, op, axis=None):
    """op in sum mean max min prod any all"""
    if a.axes is None:
        return opq(tm.atom("reduce." + op, a.t, to_term(axis)))
    if axis is None:
        r = a
        while r.axes:
            if op == "mean":
                n = size_term(1)
                for s in a.axes:
                    n = tm.mul(n, size_term(s))
                return emap(lambda x: tm.div(x, n), reduce(a, "sum"))
            r = reduce(r, op, len(r.axes) - 1)
        return r
    if isinstance(axis, tuple):
        r = a
        for j in sorted([x % len(a.axes) for x in axis], reverse=True):
            r = reduce(r, op, j)
        return r
    if not -len(a.axes) <= axis < len(a.axes):
        raise ProgError("axis %d out of range" % axis)
    axis %= len(a.axes)
    s = a.axes[axis]
    if isinstance(s, int):
        parts = [take(a, axis, i) for i in range(s)]
        f = {
            "sum": lambda *x: tm.add(*x),
            "mean": lambda *x: tm.scale(Fr(1, s), tm.add(*x)),
            "max": lambda *x: _fold(tm.maximum, x),
            "min": lambda *x: _fold(tm.minimum, x),
            "prod": lambda *x: tm.mul(*x),
            "any": lambda *x: tm.or_(*x),
            "all": lambda *x: tm.and_(*x),
        }[op]
        if not parts:
            if op in ("sum", "any"):
                return scalar(tm.ZERO if op == "sum" else tm.FALSE)
            raise ProgError("reduction over empty axis")
        return emap(f, *parts)
    tmp = tm.idx("redtmp")
    b = take(a, axis, tmp)
    if op in ("any", "all"):
        return Arr(b.axes, {k: tm.batom(op, tm.lam(s, tmp, v)) for k, v in b.data.items()})
    if op == "sum":
        f = lambda v: tm.red("sum", s, tmp, tm.where(v, tm.ONE, tm.ZERO) if tm.is_bool(v) else v)
    else:
        f = lambda v: tm.red(op, s, tmp, v)
    return Arr(b.axes, {k: f(v) for k, v in b.data.items()})


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def to_term(v):
    if isinstance(v, T):
        return v
    if v is None:
        return tm.mk("none")
    if isinstance(v, bool):
        return tm.TRUE if v else tm.FALSE
    if isinstance(v, (int, Fr, float)):
        return C(v)
    if isinstance(v, str):
        return tm.mk("str", v)
    if isinstance(v, bytes):
        return tm.mk("bytes", v)
    if isinstance(v, Arr):
        if v.axes is None or v.axes == ():
            return v.data[()]
        a = v
        while a.axes:
            a = lam_axis(a, len(a.axes) - 1)
        return a.data[()]
    if isinstance(v, NT):
        return tm.mk("nt", ",".join(v.cls.fields), *[to_term(x) for x in v.vals])
    if isinstance(v, (tuple, list)):
        return tm.mk("tuple", *[to_term(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return tm.mk("set", *sorted((to_term(x) for x in v), key=lambda t: t.id))
    if isinstance(v, dict):
        return tm.mk("dict", *[x for k in v for x in (to_term(k), to_term(v[k]))])
    if isinstance(v, Phi):
        return tm.where(v.c, to_term(v.a), to_term(v.b))
    if isinstance(v, SymList):
        return tm.lam(v.size, v.ix, to_term(v.value))
    if isinstance(v, SliceV):
        return tm.atom("slice", to_term(v.lo), to_term(v.hi), to_term(v.st))
    if isinstance(v, Ext):
        return tm.mk("ext", v.path)
    if isinstance(v, PyObj):
        return v.term
    if isinstance(v, Fn):
        return tm.mk("func", v.module.name + "." + v.name)
    if isinstance(v, Xf):
        return tm.mk("xf", v.kind, to_term(v.fn))
    if isinstance(v, Bound):
        return tm.atom("method", to_term(v.obj), v.name)
    if isinstance(v, NTCls):
        return tm.mk("ntcls", v.name, ",".join(v.fields))
    if v is Ellipsis:
        return tm.mk("ellipsis")
    return tm.mk("pyobj", type(v).__name__, id(v))


def tree_map(f, v):
    """map over numeric leaves"""
    if isinstance(v, NT):
        return NT(v.cls, [tree_map(f, x) for x in v.vals])
    if isinstance(v, tuple):
        return tuple(tree_map(f, x) for x in v)
    if isinstance(v, list):
        return [tree_map(f, x) for x in v]
    if isinstance(v, dict):
        return {k: tree_map(f, x) for k, x in v.items()}
    if isinstance(v, Phi):
        return Phi(v.c, tree_map(f, v.a), tree_map(f, v.b))
    if is_numlike(v):
        return f(as_arr(v))
    if isinstance(v, SymList):
        return f(as_arr(v))
    return v


def subst_val(v, m):
    if isinstance(v, SymList):
        return SymList(tm.subst(v.size, m), v.ix, subst_val(v.value, m))
    if isinstance(v, Arr):
        r = Arr(v.axes, {k: tm.subst(t, m) for k, t in v.data.items()}, v.tag)
        for j in range(len(v.axes or ())):
            s = r.axes[j]
            if isinstance(s, int):
                continue
            n = norm_size(tm.subst(s, m))
            if n is not s:
                r = reslice(r, j, n, lambda q: q)
                r.tag = v.tag
        return r
    if isinstance(v, NT):
        return NT(v.cls, [subst_val(x, m) for x in v.vals])
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, dict):
        return {k: subst_val(x, m) for k, x in v.items()}
    if isinstance(v, Phi):
        return Phi(tm.subst(v.c, m), subst_val(v.a, m), subst_val(v.b, m))
    return v


def leaves_of(v):
    out = []

    def f(a):
        out.extend(a.data.values())
        return a

    tree_map(f, v)
    return out


def join(c, a, b):
    """value under guard c ? a : b"""
    if a is b:
        return a
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if isinstance(a, NT) and isinstance(b, NT) and a.cls.fields == b.cls.fields:
        return NT(a.cls, [join(c, x, y) for x, y in zip(a.vals, b.vals)])
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(join(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [join(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: join(c, a[k], b[k]) for k in a}
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if is_numlike(a) and is_numlike(b):
        x, y = as_arr(a), as_arr(b)
        if x.axes == y.axes:
            return Arr(x.axes, {k: tm.where(c, x.data[k], y.data[k]) for k in x.data})
    if isinstance(a, (Fn, Ext, NTCls)) and a is b:
        return a
    return Phi(c, a, b)
