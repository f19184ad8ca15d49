"""Models of the library functions used by the analysed code (numpy, jax,
functools, collections, h5py, mpi4py ...).  A function without a model becomes
an uninterpreted operator of its arguments."""
import inspect
import collections
from fractions import Fraction as Fr

from . import terms as tm
from .terms import C, T
from .values import *  # noqa
from .values import ProgError, Unsupported, is_num, is_numlike, _int_rank
from . import values as V

CONST = {
    "numpy.inf": tm.INF,
    "jax.numpy.inf": tm.INF,
    "math.inf": tm.INF,
    "numpy.nan": tm.mk("nan"),
    "jax.numpy.nan": tm.mk("nan"),
}
M = {}
METH = {}


def norm(path):
    if path.startswith("jax.numpy."):
        return "np." + path[10:]
    if path.startswith("numpy."):
        return "np." + path[6:]
    if path.startswith("math."):
        return "np." + path[5:]
    return path


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f

    return d


def sig(f, it, args, kw, names, defaults=()):
    """bind args against a library signature"""
    out = {}
    if len(args) > len(names):
        raise Unsupported("%s() with %d positional arguments" % (f, len(args)), it.loc)
    for k, v in zip(names, args):
        out[k] = v
    for k, v in kw.items():
        if k not in names:
            raise Unsupported("%s() with keyword argument %s" % (f, k), it.loc)
        if k in out:
            raise ProgError("%s() got multiple values for %s" % (f, k), it.loc)
        out[k] = v
    return out


IMPURE = ("numpy.random.", "random.")


def call_ext(it, path, args, kw):
    if path in CONST:
        raise ProgError("%s is not callable" % path, it.loc)
    p = norm(path)
    if path in it.ext:
        return it.ext[path](it, args, kw)
    if it.jit and path.startswith("numpy.") and not path.startswith("numpy.random"):
        _check_np_on_traced(it, path, args)
    f = M.get(p)
    if f is not None:
        return f(it, args, kw)
    if path.startswith("numpy.random.") or path.startswith("random."):
        it.fresh += 1
        it.event("global_rng", path, tuple(args), kw)
        return opq(tm.atom("impure", path, it.fresh, *[to_term(a) for a in args]))
    if path.startswith("builtins.") and path[9:] in _EXC:
        return opq(tm.atom("exception", path[9:]))
    if path.split(".")[0] == "builtins":
        return builtin(it, path[9:], args, kw)
    return opaque_call(it, path, args, kw)


_EXC = {n for n in dir(__import__("builtins")) if n.endswith(("Error", "Exception", "Warning", "Exit", "Interrupt", "Iteration"))}


def opaque_call(it, path, args, kw):
    t = tm.atom("call", path, *[to_term(a) for a in args], *[x for k in sorted(kw) for x in (tm.mk("str", k), to_term(kw[k]))])
    r = opq(t)
    it.event("call", path, tuple(args), kw, r)
    return r


def _check_np_on_traced(it, path, args):
    for a in args:
        try:
            ts = leaves_of(a) if not isinstance(a, (str, dict)) else []
        except Exception:
            continue
        for t in ts:
            bad = [l for l in tm.leaves(t) if not str(l.args[0]).startswith(("size:", "static:"))]
            if bad:
                it.event("np_on_traced", path, (t,))
                return


# ----------------------------------------------------------------- helpers
def A(v):
    if isinstance(v, Ext):
        if v.path in CONST:
            return scalar(CONST[v.path])
        return opq(tm.mk("ext", v.path))
    if isinstance(v, (list, tuple)) and any(isinstance(x, (Ext,)) for x in v):
        return as_arr([A(x) for x in v])
    if isinstance(v, list) and len(v) == 1 and type(v[0]).__name__ == "SymSplice":
        return as_arr(v[0].sl)
    if isinstance(v, (str, dict)) or v is None:
        return opq(to_term(v))
    if isinstance(v, (list, tuple)):
        try:
            return as_arr([A(x) for x in v])
        except Unsupported:
            return opq(to_term(v))
    return as_arr(v)


def unary(name, f):
    def g(it, args, kw):
        kw = dict(kw)
        dt = kw.pop("dtype", None)
        if not args and len(kw) == 1 and set(kw) <= {"x", "a"}:
            args, kw = list(kw.values()), {}
        if len(args) != 1 or kw:
            raise Unsupported("%s() with %d arguments %s" % (name, len(args), sorted(kw)), it.loc)
        return cast(it, emap(f, A(args[0])), dt)

    M["np." + name] = g


def _log10(x):
    return tm.log10(x)


for _n, _f in dict(
    exp=tm.exp, log=tm.ln, log10=tm.log10, sqrt=tm.sqrt, abs=tm.absv, absolute=tm.absv, fabs=tm.absv,
    square=lambda x: tm.ipow(x, 2), negative=tm.neg, logical_not=tm.not_,
    log2=lambda x: tm.div(tm.ln(x), tm.ln(C(2))), exp2=lambda x: tm.exp(tm.mul(x, tm.ln(C(2)))),
    expm1=lambda x: tm.sub(tm.exp(x), tm.ONE), log1p=lambda x: tm.ln(tm.add(tm.ONE, x)),
    reciprocal=tm.inv,
    isfinite=lambda x: tm.TRUE if tm.is_c(x) else tm.FALSE if x in (tm.INF, tm.NINF) else tm.batom("isfinite", x),
    isnan=lambda x: tm.FALSE if tm.is_c(x) else tm.batom("isnan", x),
    isinf=lambda x: tm.FALSE if tm.is_c(x) else tm.batom("isinf", x),
    floor=tm.floor,
    ceil=lambda x: tm.neg(tm.floor(tm.neg(x))),
    sign=lambda x: tm.where(tm.lt(x, tm.ZERO), C(-1), tm.where(tm.lt(tm.ZERO, x), tm.ONE, tm.ZERO)),
    tanh=lambda x: tm.sub(tm.scale(2, tm.sig(tm.scale(2, x))), tm.ONE),
).items():
    unary(_n, _f)
M["jax.lax.log"] = M["np.log"]
M["jax.lax.exp"] = M["np.exp"]
M["jax.lax.sqrt"] = M["np.sqrt"]
M["jax.lax.abs"] = M["np.abs"]
M["jax.lax.stop_gradient"] = lambda it, a, k: tree_map(lambda x: emap(lambda t: tm.atom("stop_gradient", t), x), a[0])
unary("nn_sigmoid", tm.sig)
M["jax.nn.sigmoid"] = M["np.nn_sigmoid"]
M["jax.scipy.special.expit"] = M["np.nn_sigmoid"]
M["scipy.special.expit"] = M["np.nn_sigmoid"]
M["jax.lax.logistic"] = M["np.nn_sigmoid"]
M["jax.scipy.special.logit"] = lambda it, a, k: emap(lambda y: tm.sub(tm.ln(y), tm.ln(tm.sub(tm.ONE, y))), A(a[0]))


def binary(name, f):
    def g(it, args, kw):
        kw = dict(kw)
        dt = kw.pop("dtype", None)
        if not args and set(kw) == {"x1", "x2"}:
            args, kw = [kw["x1"], kw["x2"]], {}
        if len(args) != 2 or kw:
            raise Unsupported("%s() with %d arguments %s" % (name, len(args), sorted(kw)), it.loc)
        return cast(it, emap(f, A(args[0]), A(args[1])), dt)

    M["np." + name] = g


for _n, _f in dict(
    minimum=tm.minimum, maximum=tm.maximum, fmin=tm.minimum, fmax=tm.maximum, power=tm.power, add=tm.add, subtract=tm.sub, multiply=tm.mul,
    divide=lambda x, y: tm.div(x, y), true_divide=lambda x, y: tm.div(x, y), logical_and=lambda x, y: tm.and_(x, y),
    logical_or=lambda x, y: tm.or_(x, y), greater=lambda x, y: tm.lt(y, x), less=tm.lt, greater_equal=lambda x, y: tm.le(y, x),
    less_equal=tm.le, floor_divide=tm.floordiv, mod=tm.mod, remainder=tm.mod, equal=tm.eq, not_equal=lambda x, y: tm.not_(tm.eq(x, y)), float_power=tm.power, pow=tm.power,
).items():
    binary(_n, _f)


def reducer(name, op):
    def g(it, args, kw):
        d = sig("np." + name, it, args, kw, ["a", "axis", "dtype", "out", "keepdims", "initial", "where"])
        ini = d.get("initial")
        if any(d.get(k) is not None for k in ("out", "where")) or ini is not None and op not in ("max", "min", "sum", "prod"):
            return opaque_call(it, "np." + name, args, kw)
        a = A(d["a"])
        ax = it.pynum(d.get("axis"))
        f = None
        if ini is not None:
            f = {"max": tm.maximum, "min": tm.minimum, "sum": tm.add, "prod": tm.mul}[op]
            ini = A(ini)
            if a.axes is None:
                return opaque_call(it, "np." + name, args, kw)
        if a.axes is not None and op in ("max", "min"):
            red = range(len(a.axes)) if ax is None else [x % len(a.axes) for x in (ax if isinstance(ax, tuple) else (ax,)) if isinstance(x, int) and -len(a.axes) <= x < len(a.axes)]
            if any(isinstance(a.axes[x], int) and a.axes[x] == 0 for x in red) and all(isinstance(x, int) for x in a.axes):
                if ini is None:
                    raise ProgError("%s of an empty array" % name, it.loc)
                if len(a.axes) == len(set(red)) and not d.get("keepdims"):
                    return ini
                return opaque_call(it, "np." + name, args, kw)
        r = reduce(a, op, ax)
        if f is not None:
            r = emap(f, r, ini)
        if d.get("keepdims"):
            if a.axes is None:
                return r
            if ax is None:
                for _ in a.axes:
                    r = add_axis(r, 1, None, 0)
            else:
                for j in sorted([x % len(a.axes) for x in (ax if isinstance(ax, tuple) else (ax,))]):
                    r = add_axis(r, 1, None, j)
        return r

    M["np." + name] = g


for _n in ("sum", "mean", "max", "min", "prod", "any", "all"):
    reducer(_n, _n)
M["np.amax"], M["np.amin"] = M["np.max"], M["np.min"]
def np_average(it, args, kw):
    d = sig("np.average", it, args, kw, ["a", "axis", "weights"])
    if d.get("weights") is None:
        return M["np.mean"](it, [d["a"], d.get("axis")], {})
    return _average(it, args, kw)


M["np.average"] = np_average


def _average(it, args, kw):
    d = sig("np.average", it, args, kw, ["a", "axis", "weights"])
    a, w = A(d["a"]), A(d["weights"])
    ax = it.pynum(d.get("axis"))
    if a.axes is None or w.axes is None:
        return opq(tm.atom("call", "np.average", to_term(a), to_term(w), to_term(ax)))
    if len(w.axes) != len(a.axes):
        if len(w.axes) != 1 or not isinstance(ax, int):
            raise ProgError("average: weights of %d dimensions over axis %s" % (len(w.axes), ax), it.loc)
        for j in range(len(a.axes) - 1 - ax % len(a.axes)):
            w = add_axis(w, 1, None, len(w.axes))
    return emap(lambda x, y: tm.div(x, y), reduce(emap(tm.mul, a, w), "sum", ax), reduce(emap(lambda x, y: tm.add(x, tm.scale(0, y)), w, a), "sum", ax))


@model("np.var")
def np_var(it, args, kw):
    d = sig("np.var", it, args, kw, ["a", "axis", "dtype", "out", "ddof", "keepdims"])
    a = A(d["a"])
    ax = it.pynum(d.get("axis"))
    ddof = it.pynum(d.get("ddof", 0))
    if d.get("out") is not None or not (ax is None or isinstance(ax, int)):
        raise Unsupported("var with out or several axes", it.loc)
    if a.axes is None:
        return opq(tm.atom("call", "np.var", a.t, to_term(ax), to_term(ddof)))
    if ax is None:
        mu = reduce(a, "mean")
    else:
        mu = reduce(a, "mean", ax)
        mu = add_axis(mu, 1, None, ax % len(a.axes))
    v = reduce(emap(lambda x, m: tm.ipow(tm.sub(x, m), 2), a, mu), "mean", ax)
    if ddof:
        if ax is None and len(a.axes) != 1:
            raise Unsupported("var with ddof", it.loc)
        n = size_term(a.axes[ax if ax is not None else 0])
        v = emap(lambda x: tm.mul(x, tm.div(n, tm.sub(n, to_term(ddof)))), v)
    if d.get("keepdims"):
        if ax is None:
            for _ in a.axes:
                v = add_axis(v, 1, None, 0)
        else:
            v = add_axis(v, 1, None, ax % len(a.axes))
    return v


@model("np.std")
def np_std(it, args, kw):
    return emap(tm.sqrt, np_var(it, args, kw))


@model("np.clip")
def np_clip(it, args, kw):
    names = ["a", "min", "max"]
    kw = dict(kw)
    for o, n in (("a_min", "min"), ("a_max", "max"), ("arr", "a"), ("x", "a")):
        if o in kw:
            kw[n] = kw.pop(o)
    if kw.pop("out", None) is not None:
        raise Unsupported("clip with out", it.loc)
    d = sig("np.clip", it, args, kw, names)
    r = A(d["a"])
    if d.get("min") is not None:
        r = emap(tm.maximum, r, A(d["min"]))
    if d.get("max") is not None:
        r = emap(tm.minimum, r, A(d["max"]))
    return r


@model("np.where")
def np_where(it, args, kw):
    if len(args) == 1:
        a = A(args[0])
        r = _where_true(a)
        return (opq(tm.atom("nonzero", to_term(a))) if r is None else r,)
    if kw:
        d = sig("np.where", it, args, kw, ["condition", "x", "y"])
        args = [d[k] for k in ("condition", "x", "y") if k in d]
    if len(args) != 3:
        raise Unsupported("where() with %d arguments" % len(args), it.loc)
    return emap(lambda c, x, y: tm.where(tm.as_bool(c), x, y), A(args[0]), A(args[1]), A(args[2]))


def _where_true(a):
    """the positions at which a vector is true, in order (None: not modelled)"""
    if a.axes is None or len(a.axes) != 1 or isinstance(a.axes[0], int):
        return None
    s, i = a.axes[0], tm.idx("nzix")
    c = tm.as_bool(take(a, 0, i).data[()])
    n = V.norm_size(tm.red("sum", s, i, tm.where(c, tm.ONE, tm.ZERO)))
    if isinstance(n, int):
        return None
    L = tm.lam(s, i, c)
    q = tm.idx("nzpos")
    return V.add_axis(scalar(tm.atom("nth", L, q)), n, q)


@model("np.nonzero", "np.flatnonzero")
def np_nonzero(it, args, kw):
    d = sig("np.nonzero", it, args, kw, ["a"])
    a = A(d["a"])
    r = _where_true(a)
    r = opq(tm.atom("nonzero", to_term(a))) if r is None else r
    return r


M["np.nonzero"] = lambda it, args, kw: (np_nonzero(it, args, kw),)


@model("np.array", "np.asarray", "np.ascontiguousarray", "np.asanyarray")
def np_array(it, args, kw):
    d = sig("np.array", it, args, kw, ["object", "dtype", "copy", "order", "ndmin"])
    v = d["object"]
    if it.pynum(d.get("ndmin", 0)):
        raise Unsupported("array with ndmin", it.loc)
    if isinstance(v, (list, tuple)) and any(type(x).__name__ == "SymSplice" for x in v):
        if len(v) == 1:
            a = as_arr(v[0].sl)
        else:
            return opq(tm.atom("array", to_term(v)))
    else:
        a = A(v)
    return cast(it, Arr(a.axes, dict(a.data)), d.get("dtype"))


@model("np.copy")
def np_copy(it, args, kw):
    a = A(args[0])
    return Arr(a.axes, dict(a.data))


def cast(it, a, dtype):
    if dtype is None:
        return a
    name = dtype if isinstance(dtype, str) else dtype.path.split(".")[-1] if isinstance(dtype, Ext) else None
    if name is None:
        return a
    it.event("cast", name, (a,))
    if name in ("float", "f4", "f8", "float32", "float64", "float_", "double", "f", "d", "dtype", "object"):
        return emap(lambda t: tm.add(t) if t.op == "b" else t, a) if a.axes is not None else a
    if name in ("bool", "bool_", "?"):
        return emap(tm.as_bool, a)
    if name in ("int", "i4", "i8", "int32", "int64", "i", "int_", "intp", "uint32", "u4"):
        return emap(to_int, a)
    return a if a.axes is not None else opq(tm.atom("astype", a.t, name))


is_inttrm = tm.is_inttrm


def to_int(t):
    if t.op == "b":
        return C(t.args[0])
    if tm.is_bool(t):
        return tm.where(t, tm.ONE, tm.ZERO)
    if tm.is_c(t):
        return C(int(tm.cval(t)))
    if is_inttrm(t):
        return t
    return tm.atom("int", t)


def shape_of(it, v):
    v = it.pynum(v) if isinstance(v, Arr) and v.axes == () else v
    if isinstance(v, int):
        return (norm_size(v),)
    if isinstance(v, Arr):
        if v.axes is None:
            return (norm_size(v.t),)
        if v.axes == ():
            return (norm_size(v.data[()]),)
        return tuple(norm_size(t) for t in v.data.values())
    if isinstance(v, (list, tuple)):
        return tuple(shape_of(it, x)[0] for x in v)
    raise Unsupported("shape", it.loc)


def full(shape, t):
    return Arr(shape, {p: t for p in V.positions(shape)})


def filler(name, val):
    def g(it, args, kw):
        d = sig("np." + name, it, args, kw, ["shape", "dtype", "order"])
        return cast(it, full(shape_of(it, d["shape"]), val), d.get("dtype"))

    M["np." + name] = g

    def gl(it, args, kw):
        d = sig("np.%s_like" % name, it, args, kw, ["a", "dtype", "order", "shape"])
        a = A(d["a"])
        if d.get("shape") is not None:
            return cast(it, full(shape_of(it, d["shape"]), val), d.get("dtype"))
        if a.axes is None:
            return opq(tm.atom("call", "np.%s_like" % name, a.t))
        return cast(it, full(a.axes, val), d.get("dtype"))

    M["np.%s_like" % name] = gl


filler("zeros", tm.ZERO)
filler("ones", tm.ONE)
M["np.empty"] = lambda it, a, k: full(shape_of(it, sig("np.empty", it, a, k, ["shape", "dtype", "order"])["shape"]), tm.sym("uninit"))


@model("np.empty_like")
def np_empty_like(it, args, kw):
    d = sig("np.empty_like", it, args, kw, ["a", "dtype", "order", "shape"])
    a = A(d["a"])
    if a.axes is None and d.get("shape") is None:
        return opq(tm.atom("call", "np.empty_like", a.t))
    return full(shape_of(it, d["shape"]) if d.get("shape") is not None else a.axes, tm.sym("uninit"))


@model("np.full")
def np_full(it, args, kw):
    d = sig("np.full", it, args, kw, ["shape", "fill_value", "dtype", "order"])
    return _filled(it, shape_of(it, d["shape"]), d)


def _filled(it, shape, d):
    v = A(d["fill_value"])
    if v.axes:
        r = emap(lambda x, z: x, v, full(shape, tm.ZERO))
        if len(r.axes) != len(shape) or any(tm.gv(size_term(x)) != tm.gv(size_term(y)) for x, y in zip(r.axes, shape)):
            raise ProgError("full: the fill value does not have the shape", it.loc)
    else:
        r = full(shape, to_term(v))
    return cast(it, r, d.get("dtype"))


@model("np.full_like")
def np_full_like(it, args, kw):
    d = sig("np.full_like", it, args, kw, ["a", "fill_value", "dtype", "order", "shape"])
    if d.get("shape") is not None:
        return _filled(it, shape_of(it, d["shape"]), d)
    a = A(d["a"])
    if a.axes is None:
        return opq(tm.atom("call", "np.full_like", a.t, to_term(A(d["fill_value"]))))
    return _filled(it, a.axes, d)


@model("np.arange")
def np_arange(it, args, kw):
    d = sig("np.arange", it, args, kw, ["start", "stop", "step", "dtype"])
    start, stop, step = it.pynum(d.get("start", 0)), it.pynum(d.get("stop")), it.pynum(d.get("step"))
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    if all(is_num(x) for x in (start, stop, step)):
        n = (Fr(stop) - Fr(start)) / Fr(step)
        n = max(0, -((-n).__floor__()))
        n = norm_size(int(n))
        if isinstance(n, int):
            return Arr((n,), {(i,): C(Fr(start) + i * Fr(step)) for i in range(n)})
    else:
        if step != 1:
            n = norm_size(tm.neg(tm.floor(tm.neg(tm.div(tm.sub(to_term(stop), to_term(start)), to_term(step))))))
        else:
            n = norm_size(tm.sub(to_term(A(stop)), to_term(A(start))))
    if isinstance(n, int):
        return Arr((n,), {(i,): tm.add(to_term(A(start)), tm.mul(C(i), to_term(A(step)))) for i in range(n)})
    ix = V.ixvars((n,))[0]
    return Arr((n,), {(): tm.add(to_term(A(start)), tm.mul(ix, to_term(A(step))))})


@model("np.linspace")
def np_linspace(it, args, kw):
    d = sig("np.linspace", it, args, kw, ["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"])
    n = shape_of(it, d.get("num", 50))[0]
    a, b = A(d["start"]), A(d["stop"])
    if d.get("retstep") or d.get("axis") not in (None, 0):
        raise Unsupported("linspace with retstep or axis", it.loc)
    end = d.get("endpoint", True)
    den = tm.sub(size_term(n), tm.ONE) if end is not False else size_term(n)
    if a.axes is None or b.axes is None:
        return opq(tm.atom("call", "np.linspace", to_term(a), to_term(b), size_term(n)))
    f = lambda i: emap(lambda x, y: tm.add(x, tm.mul(tm.sub(y, x), tm.div(i, den))), a, b)
    if isinstance(n, int):
        if n == 1:
            return stack([a])
        return stack([f(C(i)) for i in range(n)])
    if a.axes or b.axes:
        raise Unsupported("linspace of arrays", it.loc)
    ix = V.ixvars((n,))[0]
    return Arr((n,), f(ix).data)


@model("np.logspace")
def np_logspace(it, args, kw):
    d = sig("np.logspace", it, args, kw, ["start", "stop", "num", "endpoint", "base", "dtype", "axis"])
    base = to_term(A(d.get("base", 10)))
    r = np_linspace(it, [], {k: v for k, v in d.items() if k != "base"})
    return emap(lambda t: tm.power(base, t), r)


@model("np.eye", "np.identity")
def np_eye(it, args, kw):
    d = sig("np.eye", it, args, kw, ["N", "M", "k", "dtype"])
    if d.get("M") is not None or it.pynum(d.get("k", 0)) != 0:
        raise Unsupported("eye with M or k", it.loc)
    n = shape_of(it, d["N"] if "N" in d else args[0])[0]
    if isinstance(n, int):
        return Arr((n, n), {(i, j): tm.ONE if i == j else tm.ZERO for i in range(n) for j in range(n)})
    a, b = V.ixvars((n, n))
    return Arr((n, n), {(): tm.where(tm.eq(a, b), tm.ONE, tm.ZERO)})


@model("np.diag")
def np_diag(it, args, kw):
    if len(args) != 1 or kw:
        return opaque_call(it, "np.diag", args, kw)
    a = A(args[0])
    if a.axes is None:
        return opq(tm.atom("call", "np.diag", a.t))
    if len(a.axes) == 1:
        n = a.axes[0]
        if isinstance(n, int):
            return Arr((n, n), {(i, j): a.data[(i,)] if i == j else tm.ZERO for i in range(n) for j in range(n)})
        x, y = V.ixvars((n, n))
        return Arr((n, n), {(): tm.where(tm.eq(x, y), tm.subst(a.data[()], {V.ixvars((n,))[0]: x}), tm.ZERO)})
    if len(a.axes) == 2:
        n = a.axes[0]
        if isinstance(n, int):
            return Arr((n,), {(i,): a.data[(i, i)] for i in range(n)})
        x, y = V.ixvars(a.axes)
        return Arr((n,), {(): tm.subst(a.data[()], {y: x})})
    raise ProgError("diag of dimension %d" % len(a.axes), it.loc)


@model("np.tril")
def np_tril(it, args, kw):
    a = A(args[0])
    k = it.pynum(args[1]) if len(args) > 1 else it.pynum(kw.get("k", 0))
    if a.axes and len(a.axes) == 2 and all(isinstance(s, int) for s in a.axes):
        return Arr(a.axes, {(i, j): t if j <= i + k else tm.ZERO for (i, j), t in a.data.items()})
    raise Unsupported("tril", it.loc)


@model("np.triu")
def np_triu(it, args, kw):
    a = A(args[0])
    k = it.pynum(args[1]) if len(args) > 1 else it.pynum(kw.get("k", 0))
    if a.axes and len(a.axes) == 2 and all(isinstance(s, int) for s in a.axes):
        return Arr(a.axes, {(i, j): t if j >= i + k else tm.ZERO for (i, j), t in a.data.items()})
    raise Unsupported("triu", it.loc)


@model("np.count_nonzero")
def np_count_nonzero(it, args, kw):
    d = sig("np.count_nonzero", it, args, kw, ["a", "axis", "keepdims"])
    a = A(d["a"])
    kw = {k: v for k, v in d.items() if k != "a"}
    return M["np.sum"](it, [emap(lambda x: x if tm.is_bool(x) else tm.where(tm.eq(x, tm.ZERO), tm.FALSE, tm.TRUE), a)], kw)


@model("np.tril_indices")
def np_tril_idx(it, args, kw):
    n = it.pynum(args[0])
    k = it.pynum(args[1]) if len(args) > 1 else it.pynum(kw.get("k", 0))
    ps = [(i, j) for i in range(n) for j in range(n) if j <= i + k]
    return (Arr((len(ps),), {(q,): C(p[0]) for q, p in enumerate(ps)}), Arr((len(ps),), {(q,): C(p[1]) for q, p in enumerate(ps)}))


@model("np.dot", "np.matmul")
def np_dot(it, args, kw):
    return it.matmul(A(args[0]), A(args[1]))


@model("np.outer")
def np_outer(it, args, kw):
    a, b = A(args[0]), A(args[1])
    if a.axes is None or b.axes is None:
        return opq(tm.atom("call", "np.outer", to_term(a), to_term(b)))
    if kw or len(args) != 2:
        raise Unsupported("outer", it.loc)
    a, b = (x if len(x.axes) == 1 else reshape(it, x, (-1,)) for x in (a, b))
    if a.axes is None or b.axes is None:
        raise Unsupported("outer of a flattened array", it.loc)
    return emap(tm.mul, add_axis(a, 1, None, 1), b)


@model("np.cumsum")
def np_cumsum(it, args, kw):
    d = sig("np.cumsum", it, args, kw, ["a", "axis", "dtype"])
    a = A(d["a"])
    ax = it.pynum(d.get("axis"))
    if a.axes is None:
        return opq(tm.atom("call", "np.cumsum", a.t))
    if ax is None:
        if all(isinstance(s, int) for s in a.axes):
            tot = tm.ZERO
            n = len(a.data)
            out = {}
            for q, p in enumerate(V.positions(a.axes)):
                tot = tm.add(tot, a.data[p])
                out[(q,)] = tot
            return Arr((n,), out)
        if len(a.axes) > 1:
            raise Unsupported("cumsum", it.loc)
        ax = 0
    return accumulate(a, "sum", ax % len(a.axes))


def accumulate(a, op, j):
    s = a.axes[j]
    if isinstance(s, int):
        parts = []
        for i in range(s):
            x = take(a, j, i)
            f = {"sum": tm.add, "max": tm.maximum, "min": tm.minimum}[op]
            parts.append(x if not parts else emap(f, parts[-1], x))
        axes = a.axes
        r = stack(parts)
        n = len(r.axes)
        perm = list(range(1, n))
        perm.insert(j, 0)
        return moveaxis(r, tuple(perm))
    iv = V.ixvars(a.axes)[j]
    k = tm.idx("acc")
    return Arr(a.axes, {p: tm.red(op, tm.add(iv, tm.ONE), k, tm.subst(t, {iv: k})) for p, t in a.data.items()})


def _accum(op):
    def g(it, args, kw):
        d = sig("accumulate", it, args, kw, ["array", "axis", "dtype", "out"])
        if d.get("out") is not None:
            raise Unsupported("accumulate with out", it.loc)
        a = A(d["array"])
        if a.axes is None:
            return opq(tm.atom("accumulate", op, a.t, to_term(d.get("axis", 0))))
        if not a.axes:
            raise ProgError("cannot accumulate on a scalar", it.loc)
        return accumulate(a, op, it.pynum(d.get("axis", 0)) % len(a.axes))

    return g


M["np.maximum.accumulate"] = _accum("max")
M["np.minimum.accumulate"] = _accum("min")


def _quantile(scale, name):
    def g(it, args, kw):
        d = sig(name, it, args, kw, ["a", "q", "axis", "out", "overwrite_input", "method", "keepdims", "interpolation"])
        a, q = A(d["a"]), A(d["q"])
        if any(v for k, v in d.items() if k not in ("a", "q") and not (k == "axis" and v in (None, 0, -1))) or a.axes is None or len(a.axes) != 1 or q.axes is None:
            return opaque_call(it, name, args, kw)
        return emap(lambda p: tm.atom("percentile", to_term(a), tm.mul(C(scale), p)), q)

    M[name] = g


_quantile(1, "np.percentile")
_quantile(100, "np.quantile")


@model("np.median")
def np_median(it, args, kw):
    d = sig("np.median", it, args, kw, ["a", "axis"])
    a = A(d["a"])
    if a.axes is None or len(a.axes) != 1 or d.get("axis") not in (None, 0, -1):
        return opaque_call(it, "np.median", args, kw)
    return scalar(tm.atom("percentile", to_term(a), C(50)))


@model("np.interp")
def np_interp(it, args, kw):
    d = sig("np.interp", it, args, kw, ["x", "xp", "fp", "left", "right", "period"])
    if any(d.get(k) is not None for k in ("left", "right", "period")):
        return opaque_call(it, "np.interp", args, kw)
    x, xp, fp = A(d["x"]), A(d["xp"]), A(d["fp"])
    if x.axes is None or xp.axes is None or fp.axes is None:
        return opq(tm.atom("interp", to_term(x), to_term(xp), to_term(fp)))
    if len(xp.axes) != 1 or len(fp.axes) != 1:
        raise ProgError("interp: xp and fp must be one-dimensional", it.loc)
    if not V.same_size(xp.axes[0], fp.axes[0]):
        raise ProgError("interp: fp and xp are not of the same length", it.loc)
    return emap(lambda t: tm.atom("interp", t, to_term(xp), to_term(fp)), x)


def _xstack(name):
    def g(it, args, kw):
        d = sig("np." + name, it, args, kw, ["tup", "dtype"])
        v = d["tup"]
        if isinstance(v, Arr) and v.axes and isinstance(v.axes[0], int):
            v = [take(v, 0, i) for i in range(v.axes[0])]
        if not isinstance(v, (list, tuple)) or not v or any(type(x).__name__ == "SymSplice" for x in v):
            return opaque_call(it, "np." + name, args, kw)
        arrs = [A(x) for x in v]
        if any(a.axes is None for a in arrs):
            ts = [to_term(a) for a in arrs]
            if name == "vstack" and all(t.op == "fn" and (t.args[0] == "filetext" or t.args[0] == "reshape" and t.args[1].op == "fn" and t.args[1].args[0] == "filetext") for t in ts):
                # the tables of text files
                return opq(tm.atom("vconcat", to_term(tuple(arrs))))
            return opaque_call(it, "np." + name, args, kw)
        if name == "hstack":
            arrs = [stack([a]) if a.axes == () else a for a in arrs]
            return np_concat(it, [arrs], {"axis": 0 if len(arrs[0].axes) == 1 else 1})
        if name == "vstack":
            arrs = [stack([a]) if a.axes == () else a for a in arrs]
            arrs = [add_axis(a, 1, None, 0) if len(a.axes) == 1 else a for a in arrs]
            return np_concat(it, [arrs], {"axis": 0})
        arrs = [stack([a]) if a.axes == () else a for a in arrs]
        arrs = [add_axis(a, 1, None, 1) if len(a.axes) == 1 else a for a in arrs]
        return np_concat(it, [arrs], {"axis": 1})

    M["np." + name] = g


for _n in ("hstack", "vstack", "column_stack"):
    _xstack(_n)
M["np.row_stack"] = M["np.vstack"]


@model("np.concatenate")
def np_concat(it, args, kw):
    d = sig("np.concatenate", it, args, kw, ["arrays", "axis", "out", "dtype"])
    v = d["arrays"]
    ax = it.pynum(d.get("axis", 0))
    if ax is None or d.get("out") is not None:
        raise Unsupported("concatenate of flattened arrays", it.loc)
    if isinstance(v, (list, tuple)) and all(is_numlike(x) or isinstance(x, (list, tuple, NT)) for x in v):
        if not v:
            raise ProgError("need at least one array to concatenate", it.loc)
        arrs = [A(x) for x in v]
        if any(a.axes == () for a in arrs):
            raise ProgError("zero-dimensional arrays cannot be concatenated", it.loc)
        if all(a.axes is not None for a in arrs) and (len({len(a.axes) for a in arrs}) > 1 or not -len(arrs[0].axes) <= ax < len(arrs[0].axes)):
            raise ProgError("concatenate: arrays of different dimension, or no such axis", it.loc)
        if all(a.axes is not None for a in arrs) and all(isinstance(a.axes[ax], int) for a in arrs):
            parts = []
            for a in arrs[1:]:
                for j, (x, y) in enumerate(zip(a.axes, arrs[0].axes)):
                    if j != ax % len(a.axes) and not V.same_size(x, y):
                        raise ProgError("concatenate: dimensions %s and %s differ" % (x, y), it.loc)
            for a in arrs:
                ax2 = ax % len(a.axes)
                parts += [take(a, ax2, i) for i in range(a.axes[ax2])]
            r = stack(parts)
            n = len(r.axes)
            perm = list(range(1, n))
            perm.insert(ax2, 0)
            return moveaxis(r, tuple(perm))
        if all(a.axes is not None for a in arrs):
            n = len(arrs[0].axes)
            ax %= n
            rest = [tuple(x for j, x in enumerate(a.axes) if j != ax) for a in arrs]
            for r in rest[1:]:
                for x, y in zip(r, rest[0]):
                    if not V.same_size(x, y):
                        raise ProgError("concatenate: dimensions %s and %s differ" % (x, y), it.loc)
            front = [moveaxis(a, tuple([ax] + [j for j in range(n) if j != ax])) for a in arrs]
            r = concat1(front)
            back = list(range(1, n))
            back.insert(ax, 0)
            return moveaxis(r, tuple(back))
    if isinstance(v, (list, tuple)):
        v = tuple(v)
        if len(v) == 1 and type(v[0]).__name__ == "SymSplice":
            return opq(tm.atom("concat", to_term(v[0].sl), to_term(ax)))
    return opq(tm.atom("concat", to_term(v), to_term(ax)))


def concat1(arrs):
    """arrays laid end to end along their first axes"""
    z = tm.idx("catix")
    off = tm.ZERO
    pieces = []
    for a in arrs:
        s = a.axes[0]
        if isinstance(s, int):
            pieces += [(tm.eq(z, tm.add(off, C(i))), take(a, 0, i)) for i in range(s)]
        else:
            pieces.append((tm.lt(z, tm.add(off, s)), take(a, 0, tm.sub(z, off))))
        off = tm.add(off, size_term(s))
    r = pieces[-1][1]
    for c, v in reversed(pieces[:-1]):
        r = emap(lambda x, y, c=c: tm.where(c, x, y), v, r)
    return V.add_axis(r, norm_size(off), z, 0)


@model("np.append")
def np_append(it, args, kw):
    d = sig("np.append", it, args, kw, ["arr", "values", "axis"])
    a, b = A(d["arr"]), A(d["values"])
    if a.axes is None or b.axes is None or d.get("axis") is not None:
        return opq(tm.atom("append", to_term(a), to_term(b), to_term(d.get("axis"))))
    if b.axes == ():
        b = stack([b])
    return np_concat(it, [[a, b]], {})


@model("np.stack")
def np_stack(it, args, kw):
    d = sig("np.stack", it, args, kw, ["arrays", "axis"])
    ax = it.pynum(d.get("axis", 0))
    r = A(d["arrays"])
    if ax and r.axes is None:
        raise Unsupported("stack of opaque arrays along an axis", it.loc)
    if ax:
        n = len(r.axes)
        perm = list(range(1, n))
        perm.insert(ax % n, 0)
        r = moveaxis(r, tuple(perm))
    return r


@model("np.atleast_1d")
def np_atleast(it, args, kw):
    if len(args) != 1:
        return [np_atleast(it, [a], kw) for a in args]
    a = A(args[0])
    if a.axes == ():
        return Arr((1,), {(0,): a.data[()]})
    return a


@model("np.atleast_2d")
def np_atleast2(it, args, kw):
    if len(args) != 1:
        return [np_atleast2(it, [a], kw) for a in args]
    a = A(args[0])
    while a.axes is not None and len(a.axes) < 2:
        a = add_axis(a, 1, None, 0)
    return a


@model("np.squeeze")
def np_squeeze(it, args, kw):
    d = sig("np.squeeze", it, args, kw, ["a", "axis"])
    a = A(d["a"])
    if a.axes is None:
        return opaque_call(it, "np.squeeze", args, kw)
    ax = it.pynum(d.get("axis"))
    if ax is not None:
        for j in sorted({x % len(a.axes) for x in (ax if isinstance(ax, tuple) else (ax,))}, reverse=True):
            if isinstance(a.axes[j], int) and a.axes[j] != 1:
                raise ProgError("cannot squeeze an axis of length %d" % a.axes[j], it.loc)
            if not isinstance(a.axes[j], int):
                raise Unsupported("squeeze of an axis of unknown length", it.loc)
            a = take(a, j, 0)
        return a
    while a.axes and 1 in [s for s in a.axes if isinstance(s, int)]:
        j = [k for k, s in enumerate(a.axes) if isinstance(s, int) and s == 1][0]
        a = take(a, j, 0)
    return a


@model("np.ravel")
def np_ravel(it, args, kw):
    d = sig("np.ravel", it, args, kw, ["a", "order"])
    if d.get("order") not in (None, "C"):
        raise Unsupported("ravel with order", it.loc)
    return reshape(it, A(d["a"]), (-1,))


@model("np.reshape")
def np_reshape(it, args, kw):
    kw = dict(kw)
    if "newshape" in kw:
        kw["shape"] = kw.pop("newshape")
    d = sig("np.reshape", it, args, kw, ["a", "shape", "order"])
    if d.get("order") not in (None, "C"):
        raise Unsupported("reshape with order", it.loc)
    return reshape(it, A(d["a"]), d["shape"])


@model("np.transpose", "np.permute_dims")
def np_transpose(it, args, kw):
    d = sig("np.transpose", it, args, kw, ["a", "axes"])
    return transpose(it, A(d["a"]), d.get("axes"))


def transpose(it, a, axes):
    if a.axes is None:
        return opq(tm.atom("transpose", a.t, to_term(axes)))
    n = len(a.axes)
    if axes is None:
        return moveaxis(a, tuple(range(n))[::-1])
    perm = [it.pynum(x) for x in (axes if isinstance(axes, (list, tuple)) else [axes])]
    if not all(isinstance(x, int) for x in perm):
        raise Unsupported("transpose with computed axes", it.loc)
    perm = tuple(x % n if -n <= x < n else n for x in perm)
    if sorted(perm) != list(range(n)):
        raise ProgError("transpose: axes do not match the array", it.loc)
    return moveaxis(a, perm)


def _axnum(it, a, x):
    x = it.pynum(x)
    if not isinstance(x, int):
        raise Unsupported("computed axis", it.loc)
    if not -len(a.axes) <= x < len(a.axes):
        raise ProgError("axis %d of an array of %d dimensions" % (x, len(a.axes)), it.loc)
    return x % len(a.axes)


@model("np.swapaxes")
def np_swap(it, args, kw):
    d = sig("np.swapaxes", it, args, kw, ["a", "axis1", "axis2"])
    a = A(d["a"])
    if a.axes is None:
        return opaque_call(it, "np.swapaxes", args, kw)
    x, y = _axnum(it, a, d["axis1"]), _axnum(it, a, d["axis2"])
    perm = list(range(len(a.axes)))
    perm[x], perm[y] = y, x
    return moveaxis(a, tuple(perm))


@model("np.moveaxis")
def np_moveaxis(it, args, kw):
    d = sig("np.moveaxis", it, args, kw, ["a", "source", "destination"])
    a = A(d["a"])
    if a.axes is None:
        return opaque_call(it, "np.moveaxis", args, kw)
    ls = lambda v: [_axnum(it, a, x) for x in (v if isinstance(v, (list, tuple)) else [v])]
    src, dst = ls(d["source"]), ls(d["destination"])
    perm = [k for k in range(len(a.axes)) if k not in src]
    for t, f in sorted(zip(dst, src)):
        perm.insert(t, f)
    return moveaxis(a, tuple(perm))


@model("np.expand_dims")
def np_expand(it, args, kw):
    d = sig("np.expand_dims", it, args, kw, ["a", "axis"])
    a = A(d["a"])
    ax = it.pynum(d["axis"])
    if a.axes is None or not isinstance(ax, (int, tuple, list)):
        return opaque_call(it, "np.expand_dims", args, kw)
    axs = list(ax) if isinstance(ax, (tuple, list)) else [ax]
    n = len(a.axes) + len(axs)
    for j in sorted(x % n for x in axs):
        a = add_axis(a, 1, None, j)
    return a


@model("np.shape")
def np_shape(it, args, kw):
    return it.arr_attr(A(args[0]), "shape")


@model("np.size")
def np_size(it, args, kw):
    return it.arr_attr(A(args[0]), "size")


@model("np.ndim")
def np_ndim(it, args, kw):
    return it.arr_attr(A(args[0]), "ndim")


@model("np.broadcast_to")
def np_bto(it, args, kw):
    a = A(args[0])
    sh = shape_of(it, args[1])
    return emap(tm.add, a, full(sh, tm.ZERO))


@model("np.repeat")
def np_repeat(it, args, kw):
    d = sig("np.repeat", it, args, kw, ["a", "repeats", "axis", "total_repeat_length"])
    a, n = A(d["a"]), it.pynum(d["repeats"])
    if a.axes is not None and (isinstance(n, int) or isinstance(n, Arr) and n.axes == ()) and d.get("total_repeat_length") is None:
        ax = it.pynum(d.get("axis"))
        n = norm_size(n if isinstance(n, int) else to_term(n))
        if a.axes == () or ax is None and len(a.axes) == 1 and a.axes[0] == 1:
            return full((n,), to_term(a) if a.axes == () else take(a, 0, 0).data[()])
        if isinstance(ax, int) and a.axes[ax] == 1:
            ax %= len(a.axes)
            sh = tuple(n if k == ax else s for k, s in enumerate(a.axes))
            return emap(lambda x, z: x, a, full(sh, tm.ZERO))
        if ax is None and len(a.axes) == 1:
            ax = 0
        if isinstance(ax, int) and isinstance(n, int) and isinstance(a.axes[ax], int):
            ax %= len(a.axes)
            parts = [take(a, ax, i) for i in range(a.axes[ax]) for _ in range(n)]
            return it._restack(a, ax, parts)
    return opaque_call(it, "np.repeat", args, kw)


@model("np.tile")
def np_tile(it, args, kw):
    d = sig("np.tile", it, args, kw, ["A", "reps"])
    a, reps = A(d["A"]), d["reps"]
    reps = list(reps) if isinstance(reps, (list, tuple)) else [reps]
    reps = [it.pynum(r) for r in reps]
    if a.axes is not None and all(isinstance(r, int) or isinstance(r, Arr) and r.axes == () for r in reps):
        while len(a.axes) < len(reps):
            a = add_axis(a, 1, None, 0)
        reps = [1] * (len(a.axes) - len(reps)) + reps
        if all(r == 1 or s == 1 for r, s in zip(reps, a.axes) if not isinstance(r, Arr)) and all(s == 1 for r, s in zip(reps, a.axes) if isinstance(r, Arr)):
            sh = tuple(norm_size(r if isinstance(r, int) else to_term(r)) if not (isinstance(r, int) and r == 1) else s for r, s in zip(reps, a.axes))
            return emap(lambda x, z: x, a, full(sh, tm.ZERO))
    return opaque_call(it, "np.tile", args, kw)


def reshape(it, a, shape):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    shape = [it.pynum(s) for s in shape]
    if a.axes is None:
        return opq(tm.atom("reshape", a.t, *[to_term(s) for s in shape]))
    if len(shape) == len(a.axes) and -1 not in [s for s in shape if isinstance(s, int)]:
        new = tuple(norm_size(s if isinstance(s, int) else to_term(s)) for s in shape)
        if all(tm.gv(size_term(x)) == tm.gv(size_term(y)) for x, y in zip(new, a.axes)):
            return a
    if all(isinstance(s, int) for s in a.axes) and all(isinstance(s, int) for s in shape):
        n = 1
        for s in a.axes:
            n *= s
        if -1 in shape:
            k = 1
            for s in shape:
                if s != -1:
                    k *= s
            if k == 0 or n % k:
                raise ProgError("cannot reshape", it.loc)
            shape[shape.index(-1)] = n // k
        k = 1
        for s in shape:
            k *= s
        if k != n:
            raise ProgError("cannot reshape size %d into %s" % (n, shape), it.loc)
        vals = [a.data[p] for p in V.positions(a.axes)]
        return Arr(tuple(shape), dict(zip(V.positions(shape), vals)))
    # only insertion / removal of unit axes
    core = [s for s in a.axes if not (isinstance(s, int) and s == 1)]
    tgt = []
    want = [s for s in shape if not (isinstance(s, int) and s == 1)]
    if len(want) == len(core):
        ok = True
        for w, c in zip(want, core):
            if isinstance(w, int) and w == -1:
                continue
            if tm.gv(size_term(w) if isinstance(w, int) else to_term(w)) != tm.gv(size_term(c)):
                ok = False
        if ok:
            r = a
            j = 0
            while j < len(r.axes):
                if isinstance(r.axes[j], int) and r.axes[j] == 1:
                    r = take(r, j, 0)
                else:
                    j += 1
            for j, s in enumerate(shape):
                if isinstance(s, int) and s == 1:
                    r = add_axis(r, 1, None, j)
            return r
    if want == [-1] and len(core) == 0:
        r = a
        while r.axes:
            r = take(r, 0, 0)
        return stack([r])
    return opq(tm.atom("reshape", to_term(a), *[to_term(s) for s in shape]))


def argred(name):
    def g(it, args, kw):
        d = sig("np." + name, it, args, kw, ["a", "axis"])
        a = A(d["a"])
        ax = it.pynum(d.get("axis"))
        if a.axes is None:
            return opq(tm.atom(name, a.t, to_term(ax)))
        if ax is not None and len(a.axes) > 1:
            b = lam_axis(a, ax % len(a.axes))
            return emap(lambda t: tm.atom(name, t), b)
        if len(a.axes) == 1 and isinstance(a.axes[0], int) and 1 <= a.axes[0] <= 16:
            # the first extremal element of a fixed-length sequence of numbers
            bx, ix = take(a, 0, 0).data[()], tm.ZERO
            if not tm.is_bool(bx):
                for i in range(1, a.axes[0]):
                    x = take(a, 0, i).data[()]
                    c = tm.lt(x, bx) if name.endswith("min") else tm.lt(bx, x)
                    bx, ix = tm.where(c, x, bx), tm.where(c, C(i), ix)
                return scalar(ix)
        return scalar(tm.atom(name, to_term(a)))

    M["np." + name] = g


for _n in ("argmax", "argmin", "nanargmin", "nanargmax"):
    argred(_n)


@model("np.split")
def np_split(it, args, kw):
    d = sig("np.split", it, args, kw, ["ary", "indices_or_sections", "axis"])
    n = it.pynum(d["indices_or_sections"])
    a = A(d["ary"])
    if isinstance(n, (list, tuple)) or isinstance(n, Arr) and n.axes != ():
        return np_array_split(it, args, kw)
    ax = it.pynum(d.get("axis", 0))
    if isinstance(n, int) and a.axes is not None and isinstance(ax, int) and isinstance(a.axes[ax], int):
        if n <= 0 or a.axes[ax] % n:
            raise ProgError("np.split: an axis of length %d into %d equal parts" % (a.axes[ax], n), it.loc)
        return np_array_split(it, args, kw)
    raise Unsupported("np.split of an array of unknown length into equal parts", it.loc)


def split_edges(it, a, edges, ax):
    if isinstance(edges, Arr):
        if edges.axes is None or len(edges.axes) != 1 or not isinstance(edges.axes[0], int):
            raise Unsupported("np.split with an unknown number of edges", it.loc)
        edges = [scalar(edges.data[(i,)]) for i in range(edges.axes[0])]
    ax = _axnum(it, a, ax)
    out = []
    bounds = [None] + [it.pynum(e) for e in edges] + [None]
    for lo, hi in zip(bounds, bounds[1:]):
        key = (V.SliceV(None, None, None),) * ax + (V.SliceV(lo, hi, None),)
        out.append(it.getitem(a, key))
    return out


@model("np.array_split")
def np_array_split(it, args, kw):
    kw = {{"indices_or_sections": "n"}.get(k, k): v for k, v in kw.items()}
    d = sig("np.array_split", it, args, kw, ["ary", "n", "axis"])
    a = A(d["ary"])
    e = it.pynum(d["n"])
    if isinstance(e, (list, tuple)) or isinstance(e, Arr) and e.axes != ():
        if a.axes is None:
            raise Unsupported("np.split of an opaque array", it.loc)
        return split_edges(it, a, e, d.get("axis", 0))
    n = to_term(A(d["n"]))
    ax = it.pynum(d.get("axis", 0))
    if not isinstance(ax, int):
        raise Unsupported("np.array_split along a computed axis", it.loc)
    if a.axes is not None and not -len(a.axes) <= ax < len(a.axes):
        raise ProgError("np.array_split: axis %d of an array of %d dimensions" % (ax, len(a.axes)), it.loc)
    if a.axes is not None and isinstance(a.axes[ax], int) and tm.is_c(n) and tm.fval(n) == int(tm.fval(n)) and tm.fval(n) > 0:
        s, k = a.axes[ax], int(tm.fval(n))
        ax %= len(a.axes)
        out, p = [], 0
        for j in range(k):
            q = p + s // k + (1 if j < s % k else 0)
            out.append(it._restack(a, ax, [take(a, ax, x) for x in range(p, q)]))
            p = q
        return out
    if a.axes is None or isinstance(a.axes[ax], int):
        r = it.gensym("chunk")
        return SymList(n, r, opq(tm.atom("chunk", to_term(a), n, C(ax), r)))
    ax %= len(a.axes)
    s = a.axes[ax]
    if tm.is_c(n) and tm.fval(n) == int(tm.fval(n)) and 0 < tm.fval(n) <= 16:
        return [reslice(a, ax, tm.atom("split_size", s, n, C(j)), lambda q, j=j: tm.add(tm.atom("split_start", s, n, C(j)), q)) for j in range(int(tm.fval(n)))]
    r = it.gensym("chunk")
    size = tm.atom("split_size", s, n, r)
    start = tm.atom("split_start", s, n, r)
    v = reslice(a, ax, size, lambda q: tm.add(start, q))
    return SymListDep(n, r, v)


class SymListDep(SymList):
    """list of arrays whose length depends on the list index"""


@model("np.vectorize")
def np_vec(it, args, kw):
    raise Unsupported("np.vectorize", it.loc)


# ------------------------------------------------------------------ truncnorm
def _trunc(name):
    def g(it, args, kw):
        d = sig("truncnorm." + name, it, args, kw, ["x", "a", "b", "loc", "scale"])
        x, a, b = A(d["x"]), A(d["a"]), A(d["b"])
        loc, scale = A(d.get("loc", 0)), A(d.get("scale", 1))
        return emap(lambda *q: tm.atom("truncnorm." + name, *q), x, a, b, loc, scale)

    return g


for _n in ("cdf", "pdf"):
    M["jax.scipy.stats.truncnorm." + _n] = _trunc(_n)
    M["scipy.stats.truncnorm." + _n] = _trunc(_n)


# ------------------------------------------------------------------ jax
@model("jax.jit")
def jax_jit(it, args, kw):
    if not args:
        return Xf("makejit", None, **kw)
    return Xf("jit", args[0], **kw)


@model("jax.vmap")
def jax_vmap(it, args, kw):
    d = sig("vmap", it, args, kw, ["fun", "in_axes", "out_axes"])
    return Xf("vmap", d["fun"], in_axes=d.get("in_axes", 0), out_axes=d.get("out_axes", 0))


def _grad(kind):
    def g(it, args, kw):
        d = sig(kind, it, args, kw, ["fun", "argnums", "has_aux"])
        return Xf(kind, d["fun"], argnums=d.get("argnums", 0), has_aux=d.get("has_aux", False))

    return g


M["jax.grad"] = _grad("grad")
M["jax.value_and_grad"] = _grad("value_and_grad")


@model("functools.partial")
def ft_partial(it, args, kw):
    f = args[0]
    if isinstance(f, Ext) and f.path == "jax.jit":
        return Xf("makejit", None, **kw)
    return Xf("partial", f, args=tuple(args[1:]), kw=kw)


def key_leaf(t):
    return t


@model("jax.random.PRNGKey", "jax.random.key")
def jr_key(it, args, kw):
    r = scalar(tm.atom("rngseed", to_term(args[0])))
    it.event("rngkey", "key", tuple(args))
    return r


def _key(it, k):
    if not is_numlike(k):
        raise ProgError("random key expected", it.loc)
    a = as_arr(k)
    if a.axes is not None and a.axes != ():
        raise ProgError("a single random key is expected, got an array of keys", it.loc)
    return a.data[()]


@model("jax.random.split")
def jr_split(it, args, kw):
    d = sig("random.split", it, args, kw, ["key", "num"])
    k = _key(it, d["key"])
    n = shape_of(it, d.get("num", 2))[0]
    it.event("split", "split", (k, size_term(n)))
    if isinstance(n, int):
        return Arr((n,), {(i,): tm.atom("split", k, size_term(n), C(i)) for i in range(n)})
    return Arr((n,), {(): tm.atom("split", k, n, V.ixvars((n,))[0])})


@model("jax.random.fold_in")
def jr_fold(it, args, kw):
    k = _key(it, args[0])
    x = to_term(args[1])
    it.event("foldin", "fold_in", (k, x))
    return scalar(tm.atom("foldin", k, x))


def draw(it, kind, key, shape, extra=()):
    k = _key(it, key)
    it.event("draw", kind, (k, shape) + tuple(extra))
    data = {}
    for p in V.positions(shape):
        iv = [x for x in V.ixvars(shape) if x is not None]
        data[p] = tm.atom(kind, k, *extra, *[C(i) for i in p], *iv)
    return Arr(shape, data)


@model("jax.random.uniform")
def jr_uniform(it, args, kw):
    d = sig("random.uniform", it, args, kw, ["key", "shape", "dtype", "minval", "maxval"])
    sh = shape_of(it, d.get("shape", ()))
    u = draw(it, "uniform", d["key"], sh)
    lo, hi = A(d.get("minval", 0)), A(d.get("maxval", 1))
    return emap(lambda x, a, b: tm.add(a, tm.mul(x, tm.sub(b, a))), u, lo, hi)


@model("jax.random.normal")
def jr_normal(it, args, kw):
    d = sig("random.normal", it, args, kw, ["key", "shape", "dtype"])
    return draw(it, "normal", d["key"], shape_of(it, d.get("shape", ())))


@model("jax.random.multivariate_normal")
def jr_mvn(it, args, kw):
    d = sig("random.multivariate_normal", it, args, kw, ["key", "mean", "cov", "shape", "dtype", "method"])
    mean, cov = A(d["mean"]), A(d["cov"])
    if mean.axes is None or cov.axes is None:
        k = _key(it, d["key"])
        it.event("draw", "mvn", (k, ()))
        return opq(tm.atom("mvn", k, to_term(mean), to_term(cov)))
    if len(mean.axes) != 1 or len(cov.axes) != 2:
        raise ProgError("multivariate_normal: mean must be 1-d and cov 2-d", it.loc)
    if mean.axes[0] != cov.axes[0] or mean.axes[0] != cov.axes[1]:
        raise ProgError("multivariate_normal: mean of length %s with covariance %s" % (mean.axes[0], cov.axes), it.loc)
    k = _key(it, d["key"])
    sh = d.get("shape")
    sh = shape_of(it, sh) if sh not in (None, ()) else ()
    it.event("draw", "mvn", (k, sh, mean, cov))
    if sh:
        raise Unsupported("multivariate_normal with a shape", it.loc)
    ct = to_term(cov)
    n = mean.axes[0]
    return Arr((n,), {(i,): tm.add(mean.data[(i,)], tm.atom("mvn0", k, ct, C(i))) for i in range(n)})


for _n in ("choice", "randint", "permutation", "bernoulli", "gamma", "beta", "truncated_normal", "exponential", "poisson", "categorical", "shuffle", "bits"):

    def _other(it, args, kw, _n=_n):
        k = _key(it, args[0] if args else kw["key"])
        it.event("draw", _n, (k,) + tuple(to_term(a) for a in args[1:]))
        return opq(tm.atom("draw." + _n, k, *[to_term(a) for a in args[1:]], *[x for q in sorted(kw) if q != "key" for x in (tm.mk("str", q), to_term(kw[q]))]))

    M["jax.random." + _n] = _other


@model("jax.tree_util.tree_map", "jax.tree.map")
def jax_treemap(it, args, kw):
    f = args[0]

    def rec(vs):
        v = vs[0]
        if isinstance(v, NT):
            return NT(v.cls, [rec([x.vals[i] for x in vs]) for i in range(len(v.vals))])
        if isinstance(v, (tuple, list)):
            return type(v)(rec([x[i] for x in vs]) for i in range(len(v)))
        return it.call(f, list(vs), {})

    return rec(args[1:])


@model("jax.lax.cond")
def jax_cond(it, args, kw):
    c = it.truth(args[0])
    a = it.call(args[1], list(args[3:]), {})
    b = it.call(args[2], list(args[3:]), {})
    return join(c, a, b)


# -------------------------------------------------------------- collections
@model("collections.namedtuple")
def c_namedtuple(it, args, kw):
    d = sig("namedtuple", it, args, kw, ["typename", "field_names", "rename", "defaults", "module"])
    f = d["field_names"]
    if isinstance(f, str):
        f = f.replace(",", " ").split()
    f = it.tolist(f)
    if not all(isinstance(x, str) for x in f):
        if isinstance(d["typename"], str):
            raise Unsupported("namedtuple with computed field names", it.loc)
    dfl = it.tolist(d.get("defaults") or ())
    return NTCls(d["typename"], f, dfl)


@model("collections.OrderedDict", "builtins.dict")
def c_odict(it, args, kw):
    out = {}
    if args:
        v = args[0]
        if isinstance(v, dict):
            out.update(v)
        elif isinstance(v, Arr) and v.axes is None:
            if not kw:
                return opq(tm.atom("dict", v.t))
            raise Unsupported("dict of unknown", it.loc)
        else:
            for p in it.tolist(v):
                k, x = it.unpack(p, 2)
                out[it.key(k)] = x
    out.update(kw)
    return out


@model("copy.deepcopy", "copy.copy")
def c_copy(it, args, kw):
    return deep(args[0])


def deep(v):
    if isinstance(v, Arr):
        return Arr(v.axes, dict(v.data), v.tag)
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, list):
        return [deep(x) for x in v]
    if isinstance(v, NT):
        return NT(v.cls, [deep(x) for x in v.vals])
    if isinstance(v, tuple):
        return tuple(deep(x) for x in v)
    return v


@model("os.path.join")
def os_join(it, args, kw):
    if all(isinstance(a, str) for a in args):
        import posixpath

        return posixpath.join(*args)
    return opq(tm.atom("pathjoin", *[to_term(a) for a in args]))


def _ospath(name, atom=None):
    import posixpath

    def g(it, args, kw):
        x = args[0]
        if isinstance(x, str) and name != "abspath":
            r = getattr(posixpath, name)(x)
            return r
        if isinstance(x, str) and x.startswith("/"):
            return posixpath.normpath(x)
        return opq(tm.atom(atom or name, to_term(x)))

    M["os.path." + name] = g


for _n in ("basename", "dirname", "abspath", "splitext", "normpath"):
    _ospath(_n)


@model("warnings.warn", "warnings.simplefilter")
def w_warn(it, args, kw):
    it.event("call", "warnings", tuple(args), kw)
    return None


# ----------------------------------------------------------------- builtins
def builtin(it, name, args, kw):
    f = B.get(name)
    if f is None:
        return opaque_call(it, name, args, kw)
    return f(it, args, kw)


B = {}


def bi(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f

    return d


@bi("len")
def b_len(it, args, kw):
    v = args[0]
    if isinstance(v, list) and any(type(x).__name__ == "SymSplice" for x in v):
        n = tm.ZERO
        for x in v:
            n = tm.add(n, x.sl.size if type(x).__name__ == "SymSplice" else tm.ONE)
        return scalar(n)
    if isinstance(v, (list, tuple, dict, str, set, frozenset, bytes)):
        return len(v)
    if isinstance(v, NT):
        return len(v.vals)
    if isinstance(v, SymList):
        return scalar(v.size)
    if isinstance(v, Arr):
        if v.axes is None:
            return scalar(tm.atom("len", v.t))
        if not v.axes:
            raise ProgError("len() of unsized object", it.loc)
        s = v.axes[0]
        return s if isinstance(s, int) else scalar(s)
    if isinstance(v, Phi):
        return join(v.c, b_len(it, [v.a], {}), b_len(it, [v.b], {}))
    if isinstance(v, PyObj) and "__len__" in v.methods:
        return v.methods["__len__"](it, [], {})
    if is_num(v) or v is None:
        raise ProgError("object has no len()", it.loc)
    raise Unsupported("len of %s" % type(v).__name__, it.loc)


@bi("range")
def b_range(it, args, kw):
    vals = [it.pynum(a) for a in args]
    if all(isinstance(v, int) for v in vals):
        return list(range(*vals))
    if any(v is None or isinstance(v, (str, list, tuple, dict)) for v in vals):
        raise ProgError("range() of %s" % (vals,), it.loc)
    for v in vals:
        if isinstance(v, Fr):
            raise ProgError("range() of a float", it.loc)
    if len(vals) == 1:
        return GenIter(to_term(A(vals[0])), lambda i: scalar(i))
    if len(vals) == 2 or vals[2] == 1:
        lo = to_term(A(vals[0]))
        return GenIter(tm.sub(to_term(A(vals[1])), lo), lambda i: scalar(tm.add(lo, i)))
    raise Unsupported("range with a step", it.loc)


@bi("enumerate")
def b_enum(it, args, kw):
    x = it.iterable(args[0])
    st = it.pynum(kw.get("start", args[1] if len(args) > 1 else 0))
    if isinstance(x, GenIter):
        return GenIter(x.size, lambda i: (scalar(tm.add(i, to_term(st))), x.at(i)))
    return [(i + st, v) for i, v in enumerate(x)]


@bi("zip")
def b_zip(it, args, kw):
    xs = [it.iterable(a) for a in args]
    if any(isinstance(x, GenIter) for x in xs):
        g = [x for x in xs if isinstance(x, GenIter)]
        if len(g) != len(xs):
            raise Unsupported("zip of a symbolic and a concrete sequence", it.loc)
        size = g[0].size
        for q in g[1:]:
            if tm.gv(q.size) != tm.gv(size):
                size = tm.minimum(size, q.size)
        return GenIter(size, lambda i: tuple(x.at(i) for x in xs))
    return [tuple(v) for v in zip(*xs)]


@bi("list", "tuple")
def b_list(it, args, kw):
    return _mklist(it, args, list)


def _mklist(it, args, ty):
    if not args:
        return ty()
    v = args[0]
    if isinstance(v, GenIter):
        i = it.gensym("l")
        return SymList(v.size, i, v.at(i))
    if isinstance(v, Arr) and (v.axes is None or (v.axes and not isinstance(v.axes[0], int))):
        return v
    if isinstance(v, Ext):
        return opq(tm.atom("list", to_term(v)))
    if isinstance(v, SymList):
        return v
    return ty(it.tolist(v))


B["tuple"] = lambda it, a, k: _mklist(it, a, tuple)
B["iter"] = lambda it, a, k: a[0]


@bi("set", "frozenset")
def b_set(it, args, kw):
    if not args:
        return set()
    try:
        xs = it.tolist(args[0])
        return set(it.key(x) for x in xs)
    except Unsupported:
        return opq(tm.atom("set", to_term(args[0])))


@bi("str")
def b_str(it, args, kw):
    if not args:
        return ""
    return it.fmt(args[0], "") if not isinstance(args[0], Fr) else opq(tm.atom("fmt", tm.mk("str", ""), to_term(args[0])))


@bi("repr")
def b_repr(it, args, kw):
    return opq(tm.atom("repr", to_term(args[0])))


@bi("int")
def b_int(it, args, kw):
    v = args[0] if args else 0
    if isinstance(v, (int, Fr)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            raise ProgError(str(e), it.loc)
    a = A(v)
    if a.axes is None:
        return scalar(to_int(a.t))
    r = emap(to_int, a)
    return it.pynum(r)


@bi("float")
def b_float(it, args, kw):
    v = args[0] if args else 0
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError as e:
            raise ProgError(str(e), it.loc)
        return scalar(C(f)) if f in (float("inf"), float("-inf")) or f != f else Fr(v)
    if is_num(v):
        return Fr(v)
    a = A(v)
    if it.jit:
        bad = [l for t in a.data.values() for l in tm.leaves(t) if not str(l.args[0]).startswith(("size:", "static:"))]
        if bad:
            it.event("traced_branch", "float()", tuple(a.data.values()))
    if a.axes is None:
        return scalar(a.t)
    if a.axes:
        if all(isinstance(s, int) and s == 1 for s in a.axes):
            return scalar(next(iter(a.data.values())))
        raise ProgError("only length-1 arrays can be converted to Python scalars", it.loc)
    return a


@bi("bool")
def b_bool(it, args, kw):
    t = it.truth(args[0]) if args else tm.FALSE
    if t in (tm.TRUE, tm.FALSE):
        return t is tm.TRUE
    it.check_traced(t, "bool()")
    return scalar(t)


@bi("getattr")
def b_getattr(it, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, str):
        if isinstance(o, Arr) and o.axes is None:
            return opq(tm.atom("getattr", o.t, to_term(n)))
        if isinstance(n, (NT, list, tuple, dict)) or isinstance(n, Arr) and n.axes:
            raise ProgError("attribute name is not a string", it.loc)
        raise Unsupported("getattr with a computed name", it.loc)
    if len(args) > 2:
        try:
            return it.getattr(o, n)
        except ProgError:
            return args[2]
    return it.getattr(o, n)


@bi("hasattr")
def b_hasattr(it, args, kw):
    try:
        r = it.getattr(args[0], args[1])
        if isinstance(args[0], Arr) and args[0].axes is None:
            return scalar(tm.batom("hasattr", args[0].t, to_term(args[1])))
        return True
    except ProgError:
        return False


@bi("isinstance")
def b_isinstance(it, args, kw):
    v, c = args
    names = [x.path.split(".")[-1] for x in (c if isinstance(c, tuple) else (c,)) if isinstance(x, Ext)]
    if isinstance(v, bool):
        return "bool" in names or "int" in names
    if isinstance(v, int):
        return "int" in names or "Number" in names
    if isinstance(v, Fr):
        return "float" in names or "Number" in names
    if isinstance(v, str):
        return "str" in names
    if isinstance(v, bytes):
        return "bytes" in names
    if isinstance(v, dict):
        return "dict" in names or "OrderedDict" in names
    if isinstance(v, list):
        return "list" in names
    if isinstance(v, (tuple, NT)):
        return "tuple" in names
    if v is None:
        return "NoneType" in names
    if isinstance(v, Arr):
        if v.axes is None:
            return scalar(tm.batom("isinstance", v.t, ",".join(sorted(names))))
        if v.tag == "bytes":
            return "bytes" in names
        if v.axes:
            return any(n in ("ndarray", "Array") for n in names)
        if any(n in ("ndarray", "Array", "float", "int") for n in names):
            return scalar(tm.batom("isinstance", to_term(v), ",".join(sorted(names))))
        return False
    return False


@bi("print")
def b_print(it, args, kw):
    it.event("call", "print", tuple(args), kw)
    return None


@bi("vars")
def b_vars(it, args, kw):
    if len(args) == 1 and isinstance(args[0], PyObj) and args[0].closed and isinstance(args[0].attrs, dict):
        return args[0].attrs
    return opaque_call(it, "vars", args, kw)


@bi("divmod")
def b_divmod(it, args, kw):
    if len(args) != 2:
        raise Unsupported("divmod", it.loc)
    return (it.binop("FloorDiv", args[0], args[1]), it.binop("Mod", args[0], args[1]))


def _minmax(op):
    def g(it, args, kw):
        if kw:
            return opaque_call(it, op, args, kw)
        xs = args
        if len(args) == 1:
            v = args[0]
            if isinstance(v, set):
                xs = list(v)
            else:
                v = it.iterable(v)
                if isinstance(v, GenIter):
                    i = it.gensym("m")
                    b = to_term(as_arr(v.at(i)))
                    return scalar(tm.red(op, v.size, i, b))
                xs = list(v)
        if not xs:
            raise ProgError("%s() of an empty sequence" % op, it.loc)
        if all(is_num(x) for x in xs):
            return max(xs) if op == "max" else min(xs)
        if all(isinstance(x, str) for x in xs):
            return max(xs) if op == "max" else min(xs)
        f = tm.maximum if op == "max" else tm.minimum
        r = A(xs[0])
        for x in xs[1:]:
            r = emap(f, r, A(x))
        return r

    return g


B["max"], B["min"] = _minmax("max"), _minmax("min")


@bi("sum")
def b_sum(it, args, kw):
    v = it.iterable(args[0])
    st = args[1] if len(args) > 1 else 0
    if isinstance(v, GenIter):
        i = it.gensym("s")
        return scalar(tm.add(to_term(st), tm.red("sum", v.size, i, to_term(as_arr(v.at(i))))))
    r = st
    for x in v:
        r = it.binop("Add", r, x)
    return r


@bi("abs")
def b_abs(it, args, kw):
    if is_num(args[0]):
        return abs(args[0])
    return emap(tm.absv, A(args[0]))


@bi("sorted")
def b_sorted(it, args, kw):
    try:
        xs = it.tolist(args[0])
        if not kw and it._plain(xs):
            return sorted(xs)
    except Unsupported:
        pass
    return opq(tm.atom("sorted", to_term(args[0]), *[x for k in sorted(kw) for x in (tm.mk("str", k), to_term(kw[k]))]))


@bi("reversed")
def b_reversed(it, args, kw):
    return list(reversed(it.tolist(args[0])))


@bi("any", "all")
def b_any(it, args, kw):
    raise Unsupported("any", it.loc)


def _anyall(op):
    def g(it, args, kw):
        v = it.iterable(args[0])
        if isinstance(v, GenIter):
            i = it.gensym("q")
            return scalar(tm.batom(op, tm.lam(v.size, i, it.truth(v.at(i)))))
        ts = [it.truth(x) for x in v]
        t = tm.or_(*ts) if op == "any" else tm.and_(*ts)
        return it._b(t)

    return g


B["any"], B["all"] = _anyall("any"), _anyall("all")


@bi("map")
def b_map(it, args, kw):
    xs = [it.iterable(a) for a in args[1:]]
    if any(isinstance(x, GenIter) for x in xs):
        raise Unsupported("map over a symbolic sequence", it.loc)
    return [it.call(args[0], list(v), {}) for v in zip(*xs)]


@bi("filter")
def b_filter(it, args, kw):
    out = []
    for x in it.iterable(args[0 + 1]):
        t = it.truth(it.call(args[0], [x], {}))
        if t is tm.TRUE:
            out.append(x)
        elif t is not tm.FALSE:
            raise Unsupported("filter", it.loc)
    return out


@bi("round")
def b_round(it, args, kw):
    if all(is_num(a) for a in args):
        return Fr(round(*args)) if len(args) > 1 else round(args[0])
    return emap(lambda t: tm.atom("round", t), A(args[0]))


@bi("open")
def b_open(it, args, kw):
    if "open" in it.ext:
        return it.ext["open"](it, args, kw)
    r = opq(tm.atom("open", *[to_term(a) for a in args], *[to_term(kw[k]) for k in sorted(kw)]))
    it.event("call", "open", tuple(args), kw, r)
    return r


@bi("type")
def b_type(it, args, kw):
    v = args[0]
    if isinstance(v, NT):
        return v.cls
    return Ext("type." + type(v).__name__)


@bi("slice")
def b_slice(it, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(a + [None] * (3 - len(a))))


@bi("setattr")
def b_setattr(it, args, kw):
    it.event("setattr", args[1], (args[0], args[2]))
    return None


# ------------------------------------------------------------------ methods
def call_method(it, o, name, args, kw):
    if isinstance(o, NT):
        if name == "_asdict":
            return dict(zip(o.cls.fields, o.vals))
        if name == "_replace":
            d = dict(zip(o.cls.fields, o.vals))
            for k, v in kw.items():
                if k not in d:
                    raise ProgError("_replace: %s has no field %s" % (o.cls.name, k), it.loc)
                d[k] = v
            return NT(o.cls, [d[k] for k in o.cls.fields])
        if name == "_make":
            return _make(it, o.cls, args)
        raise Unsupported("namedtuple method " + name, it.loc)
    if isinstance(o, NTCls):
        if name == "_make":
            return _make(it, o, args)
    if isinstance(o, str):
        return str_method(it, o, name, args, kw)
    if isinstance(o, bytes):
        if name == "decode":
            return o.decode()
        raise Unsupported("bytes method " + name, it.loc)
    if isinstance(o, list):
        return list_method(it, o, name, args, kw)
    if isinstance(o, dict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, set):
        if name == "add":
            o.add(it.key(args[0]))
            return None
        if name in ("union", "intersection", "difference", "issubset", "issuperset", "update"):
            return getattr(o, name)(*[set(it.tolist(a)) for a in args])
    if isinstance(o, Arr):
        return arr_method(it, o, name, args, kw)
    if isinstance(o, tuple) and name in ("index", "count"):
        return getattr(o, name)(*args)
    if is_num(o):
        return arr_method(it, as_arr(o), name, args, kw)
    if isinstance(o, SymList):
        if name == "append":
            raise Unsupported("append to symbolic list", it.loc)
        return arr_method(it, as_arr(o), name, args, kw)
    if type(o).__name__ == "AtIndexed":
        arr, k = o.arr, o.k
        if name in ("set", "add", "multiply", "min", "max"):
            v = args[0]
            if name != "set":
                old = it.arr_getitem(arr, k)
                f = {"add": tm.add, "multiply": tm.mul, "min": tm.minimum, "max": tm.maximum}[name]
                v = emap(f, old, A(v))
            return it.arr_set(arr, k, v)
    if type(o).__name__ == "Bound":
        return opaque_call(it, "method:" + name, [opq(to_term(o))] + list(args), kw)
    raise Unsupported("method %s of %s" % (name, type(o).__name__), it.loc)


def _make(it, cls, args):
    vals = it.tolist(args[0])
    if len(vals) != len(cls.fields):
        raise ProgError("%s._make: expected %d values, got %d" % (cls.name, len(cls.fields), len(vals)), it.loc)
    return NT(cls, vals)


def str_method(it, o, name, args, kw):
    args = [it.pynum(a) for a in args]
    if name == "join":
        xs = args[0]
        if isinstance(xs, (list, tuple)) and all(isinstance(x, str) for x in xs):
            return o.join(xs)
        if isinstance(xs, (list, tuple)) and not any(type(x).__name__ == "SymSplice" for x in xs):
            parts = []
            for i, x in enumerate(xs):
                if i and o:
                    parts.append(o)
                parts.append(x)
            return it.strcat(parts)
        return opq(tm.atom("strjoin", tm.mk("str", o), to_term(xs)))
    if name == "format":
        if all(isinstance(a, (str, int)) for a in args) and all(isinstance(v, (str, int)) for v in kw.values()):
            try:
                return o.format(*args, **kw)
            except (IndexError, KeyError, ValueError) as e:
                raise ProgError("str.format: %r" % (e,), it.loc)
        import string

        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            if lit:
                parts.append(lit)
            if field is not None:
                if field == "":
                    k = auto
                    auto += 1
                elif field.isdigit():
                    k = int(field)
                elif field in kw:
                    parts.append(it.fmt(kw[field], spec))
                    continue
                else:
                    return opq(tm.atom("strformat", tm.mk("str", o), *[to_term(a) for a in args]))
                if k >= len(args):
                    raise ProgError("str.format: not enough arguments", it.loc)
                parts.append(it.fmt(args[k], spec))
        return it.strcat(parts)
    if all(isinstance(a, (str, int, tuple)) or a is None for a in args) and not kw:
        try:
            return getattr(o, name)(*args)
        except (ValueError, TypeError, AttributeError) as e:
            raise ProgError("str.%s: %s" % (name, e), it.loc)
    return opq(tm.atom("strmethod", name, tm.mk("str", o), *[to_term(a) for a in args]))


def list_method(it, o, name, args, kw):
    if name == "append":
        o.append(args[0])
        it.event("append", "append", (o, args[0]))
        return None
    if name == "extend":
        v = args[0]
        if isinstance(v, SymList):
            from .interp import SymSplice

            o.append(SymSplice(v))
        else:
            o.extend(it.tolist(v))
        return None
    if name == "index":
        if it._plain(o) and it._plain(args[0]):
            if args[0] not in o:
                raise ProgError("%r is not in list" % (args[0],), it.loc)
            return o.index(args[0])
        raise Unsupported("list.index", it.loc)
    if name == "pop":
        k = it.pynum(args[0]) if args else -1
        if not o:
            raise ProgError("pop from empty list", it.loc)
        return o.pop(k)
    if name == "insert":
        o.insert(it.pynum(args[0]), args[1])
        return None
    if name == "reverse":
        o.reverse()
        return None
    if name == "copy":
        return list(o)
    if name == "count":
        return o.count(args[0])
    if name == "remove":
        if it._plain(o) and args[0] in o:
            o.remove(args[0])
            return None
    if name == "sort" and it._plain(o) and not kw:
        o.sort()
        return None
    raise Unsupported("list.%s" % name, it.loc)


def dict_method(it, o, name, args, kw):
    if name == "keys":
        return list(o)
    if name == "values":
        return list(o.values())
    if name == "items":
        return [(k, v) for k, v in o.items()]
    if name == "update":
        if args:
            v = args[0]
            if isinstance(v, NT):
                raise ProgError("dict.update of a namedtuple", it.loc)
            if not isinstance(v, dict):
                v = c_odict(it, [v], {})
            o.update(v)
        o.update(kw)
        return None
    if name == "get":
        k = it.key(args[0])
        if k in o:
            return o[k]
        if isinstance(k, (str, int)):
            return args[1] if len(args) > 1 else None
        return opq(tm.atom("dictget", to_term(o), to_term(args[0])))
    if name == "pop":
        k = it.key(args[0])
        if k in o:
            return o.pop(k)
        if len(args) > 1:
            return args[1]
        raise ProgError("KeyError %r" % (k,), it.loc)
    if name == "setdefault":
        return o.setdefault(it.key(args[0]), args[1] if len(args) > 1 else None)
    if name == "copy":
        return dict(o)
    if name == "move_to_end":
        k = it.key(args[0])
        v = o.pop(k)
        o[k] = v
        return None
    raise Unsupported("dict.%s" % name, it.loc)


NPM = dict(sum="sum", mean="mean", max="max", min="min", std="std", var="var", any="any", all="all", prod="prod", argmax="argmax", argmin="argmin", dot="dot", cumsum="cumsum", clip="clip", argsort="argsort", searchsorted="searchsorted")


def arr_method(it, o, name, args, kw):
    if o.axes is None and name in ("strip", "lstrip", "rstrip", "split"):
        r = text_method(it, o.t, name, args, kw)
        if r is not None:
            return r
    if o.axes is None and name not in ("astype", "reshape", "format"):
        t = tm.atom("call", tm.atom("method", o.t, name), *[to_term(a) for a in args], *[x for k in sorted(kw) for x in (tm.mk("str", k), to_term(kw[k]))])
        if name in NPM:
            return M["np." + NPM[name]](it, [o] + list(args), kw)
        r = opq(t)
        it.event("call", "." + name, (o,) + tuple(args), kw, r)
        return r
    if name in NPM:
        return M["np." + NPM[name]](it, [o] + list(args), kw)
    if name == "astype":
        return cast(it, Arr(o.axes, dict(o.data)), args[0] if args else kw.get("dtype"))
    if name == "reshape":
        sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args)
        r = reshape(it, o, sh)
        return Arr(r.axes, dict(r.data))
    if name in ("flatten", "ravel"):
        r = reshape(it, o, (-1,))
        return Arr(r.axes, dict(r.data))
    if name == "copy":
        return Arr(o.axes, dict(o.data))
    if name == "tolist":
        return it.tolist(o)
    if name == "item":
        return scalar(next(iter(o.data.values())))
    if name == "transpose":
        return transpose(it, o, None if not args else args[0] if len(args) == 1 else tuple(args))
    if name == "squeeze":
        return np_squeeze(it, [o] + list(args), kw)
    if name == "swapaxes":
        return np_swap(it, [o] + list(args), kw)
    if name == "repeat":
        return np_repeat(it, [o] + list(args), kw)
    if name == "block_until_ready":
        return o
    if o.axes == () and name in ("format", "split", "strip"):
        return opaque_call(it, "." + name, [o] + list(args), kw)
    return opaque_call(it, "." + name, [o] + list(args), kw)


def text_method(it, t, name, args, kw):
    """strip/split of a concatenation of literals and formatted values; a
    formatted number holds neither white space nor the separators , _ ; |"""
    from .interp import is_text

    if not is_text(t) or kw:
        return None
    parts = [(a.args[0] if isinstance(a, T) and a.op == "str" else a) for a in (t.args[1:] if t.op == "fn" and t.args[0] == "strcat" else [t])]
    for p in parts:
        if isinstance(p, T) and not (p.op == "fn" and p.args[0] == "fmt"):
            return None
    back = lambda ps: it.strcat([opq(p) if isinstance(p, T) else p for p in ps])
    if name in ("strip", "lstrip", "rstrip"):
        if args and not (isinstance(args[0], str) and not args[0].strip(" \t\n,;|_#")):
            return None
        if name != "rstrip" and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(*args)
        if name != "lstrip" and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(*args)
        return back([p for p in parts if p != ""])
    if name == "split":
        sep = args[0] if args else None
        if sep is not None and not (isinstance(sep, str) and sep and not sep.strip(" \t\n,;|_")) or len(args) > 1:
            return None
        toks, cur, has = [], [], False
        for p in parts:
            if isinstance(p, T):
                cur.append(p)
                continue
            if sep is None:
                bits = ("\0" + p + "\0").split()
                bits = [b.replace("\0", "") for b in bits]
            else:
                bits = p.split(sep)
            for j, b in enumerate(bits):
                if j:
                    toks.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        toks.append(cur)
        out = [back(c) if c else "" for c in toks]
        return [x for x in out if not (sep is None and isinstance(x, str) and x == "")]
    return None


# ------------------------------------------------------------- optimisers
@model("jax.example_libraries.optimizers.adam")
def jax_adam(it, args, kw):
    """(init, update, get_params) of one optimiser; the state is opaque, its parameters have the shape of the initial ones"""
    from .interp import Model

    d = sig("adam", it, args, kw, ["step_size", "b1", "b2", "eps"])
    it.event("call", "jax.example_libraries.optimizers.adam", tuple(args), kw)
    opt = tm.atom("adam", *[x for k in sorted(d) for x in (tm.mk("str", k), to_term(d[k]))])
    cell = {}

    def init(it, a, k):
        cell["shape"] = a[0]
        it.event("call", "adam.init", tuple(a), k)
        return opq(tm.atom("adam.init", opt, to_term(a[0])))

    def update(it, a, k):
        it.event("call", "adam.update", tuple(a), k)
        return opq(tm.atom("adam.update", opt, *[to_term(x) for x in a]))

    def get(it, a, k):
        s = a[0]
        t = to_term(s)
        if t.op == "fn" and t.args[0] == "adam.init":
            return cell["shape"]
        b = A(cell["shape"]) if cell.get("shape") is not None else opq(tm.sym("p"))
        if b.axes is None:
            return opq(tm.atom("adam.params", t))
        iv = [x for x in V.ixvars(b.axes) if x is not None]
        r = Arr(b.axes, {p: tm.atom("adam.params", t, *[C(i) for i in p], *iv) for p in b.data})
        if isinstance(cell["shape"], NT):
            return NT(cell["shape"].cls, [take(r, 0, i) for i in range(len(cell["shape"].vals))])
        return r

    return (Model(init), Model(update), Model(get))


_OPTRES = NTCls("OptimizeResult", ("x", "fun", "success", "status", "message", "nfev", "nit", "jac"))


@model("scipy.optimize.minimize")
def sp_minimize(it, args, kw):
    d = sig("minimize", it, args, kw, ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"])
    x0 = A(d["x0"])
    key = [x for k in sorted(d) for x in (tm.mk("str", k), to_term(d[k]))]
    it.fresh += 1
    m = tm.atom("minimize", *key)
    if x0.axes is None:
        x = opq(tm.atom("minimize.x", m))
    else:
        iv = [q for q in V.ixvars(x0.axes) if q is not None]
        x = Arr(x0.axes, {p: tm.atom("minimize.x", m, *[C(i) for i in p], *iv) for p in x0.data})
    vals = [x, scalar(tm.atom("minimize.fun", m)), scalar(tm.batom("minimize.success", m))]
    vals += [scalar(tm.atom("minimize." + k, m)) for k in _OPTRES.fields[3:]]
    r = NT(_OPTRES, vals)
    it.event("call", "scipy.optimize.minimize", tuple(args), d, r)
    return r


from . import lib2  # noqa: E402,F401  (registers more models)
