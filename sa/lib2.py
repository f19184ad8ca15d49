"""More library models: array manipulation, einsum, lax and the functional
tools of the standard library."""
from fractions import Fraction as Fr
import itertools

from . import terms as tm
from .terms import C, T
from . import values as V
from .values import *  # noqa
from .values import ProgError, Unsupported, _int_rank
from .lib import M, A, B, model, bi, sig, binary, unary, opaque_call, cast, full, norm_size, shape_of, np_concat
from . import lib as L

ALL = SliceV(None, None, None)


def known(it, a, what):
    if a.axes is None:
        raise Unsupported("%s of an opaque array" % what, it.loc)
    return a


def intarg(it, v, what):
    v = it.pynum(v)
    if isinstance(v, Fr) and v.denominator == 1:
        v = int(v)
    if isinstance(v, bool) or not isinstance(v, int):
        raise Unsupported(what, it.loc)
    return v


def along(it, a, ax, k):
    return it.getitem(a, tuple(k if j == ax else ALL for j in range(len(a.axes))))


@model("np.diff")
def np_diff(it, args, kw):
    d = sig("np.diff", it, args, kw, ["a", "n", "axis", "prepend", "append"])
    a = known(it, A(d["a"]), "diff")
    ax = intarg(it, d.get("axis", -1), "diff axis")
    if not a.axes or not -len(a.axes) <= ax < len(a.axes):
        raise ProgError("diff: no axis %d" % ax, it.loc)
    ax %= len(a.axes)
    for nm in ("prepend", "append"):
        if nm in d:
            x = A(d[nm])
            if len(a.axes) != 1:
                raise Unsupported("diff with %s" % nm, it.loc)
            x = stack([x]) if x.axes == () else x
            a = np_concat(it, [[x, a] if nm == "prepend" else [a, x]], {})
    for _ in range(intarg(it, d.get("n", 1), "diff order")):
        a = emap(tm.sub, along(it, a, ax, SliceV(1, None, None)), along(it, a, ax, SliceV(None, -1, None)))
    return a


def flip(it, a, ax):
    s = a.axes[ax]
    if isinstance(s, int):
        return it._restack(a, ax, [take(a, ax, i) for i in reversed(range(s))])
    return V.reslice(a, ax, s, lambda q: tm.sub(tm.sub(s, tm.ONE), q))


@model("np.flip")
def np_flip(it, args, kw):
    d = sig("np.flip", it, args, kw, ["m", "axis"])
    a = known(it, A(d["m"]), "flip")
    ax = it.pynum(d.get("axis"))
    for j in range(len(a.axes)) if ax is None else [x % len(a.axes) for x in (ax if isinstance(ax, tuple) else (ax,))]:
        a = flip(it, a, j)
    return a


M["np.flipud"] = lambda it, a, k: np_flip(it, [a[0], 0], {})
M["np.fliplr"] = lambda it, a, k: np_flip(it, [a[0], 1], {})


def acc(name, red):
    def g(it, args, kw):
        d = sig(name, it, args, kw, ["array", "axis", "dtype", "out", "keepdims"])
        if d.get("out") is not None:
            raise Unsupported(name + " with out", it.loc)
        kk = {k: v for k, v in d.items() if k == "keepdims"}
        return M["np." + red](it, [d["array"], d.get("axis", 0)], kk)

    M[name] = g


for _a, _b in (("add", "sum"), ("maximum", "max"), ("minimum", "min"), ("multiply", "prod"), ("logical_and", "all"), ("logical_or", "any")):
    acc("np.%s.reduce" % _a, _b)
M["np.add.accumulate"] = lambda it, a, k: M["np.cumsum"](it, list(a) + ([] if len(a) > 1 or k else [0]), k)


def einsum(it, spec, ops):
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum with an ellipsis", it.loc)
    lhs, arrow, out = spec.partition("->")
    ins = lhs.split(",")
    if not arrow:
        cnt = {}
        for c in "".join(ins):
            cnt[c] = cnt.get(c, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    if len(ins) != len(ops):
        raise ProgError("einsum: %d operands for %r" % (len(ops), spec), it.loc)
    labels = list(out) + sorted(set("".join(ins)) - set(out))
    if len(set(out)) != len(out) or set(out) - set("".join(ins)):
        raise ProgError("einsum: output %r" % out, it.loc)
    prod = None
    for lab, a in zip(ins, ops):
        a = known(it, A(a), "einsum")
        if len(lab) != len(a.axes):
            raise ProgError("einsum: operand of %d dimensions labelled %r" % (len(a.axes), lab), it.loc)
        if len(set(lab)) != len(lab):
            raise Unsupported("einsum with a repeated label", it.loc)
        order = [lab.index(c) for c in labels if c in lab]
        a = V.moveaxis(a, tuple(order))
        for j, c in enumerate(labels):
            if c not in lab:
                a = V.add_axis(a, 1, None, j)
        prod = a if prod is None else emap(tm.mul, prod, a)
    for j in reversed(range(len(out), len(labels))):
        prod = V.reduce(prod, "sum", j)
    return prod


@model("np.einsum")
def np_einsum(it, args, kw):
    kw = {k: v for k, v in kw.items() if k not in ("optimize", "precision")}
    if kw or not args or not isinstance(args[0], str):
        raise Unsupported("einsum in this form", it.loc)
    return einsum(it, args[0], args[1:])


@model("np.inner", "np.vdot")
def np_inner(it, args, kw):
    a, b = known(it, A(args[0]), "inner"), known(it, A(args[1]), "inner")
    if len(a.axes) == 1 and len(b.axes) == 1:
        return it.matmul(a, b)
    raise Unsupported("inner of arrays of several dimensions", it.loc)


@model("np.tensordot")
def np_tensordot(it, args, kw):
    d = sig("np.tensordot", it, args, kw, ["a", "b", "axes"])
    a, b = known(it, A(d["a"]), "tensordot"), known(it, A(d["b"]), "tensordot")
    ax = it.pynum(d.get("axes", 2))
    if isinstance(ax, int):
        ax = (tuple(range(len(a.axes) - ax, len(a.axes))), tuple(range(ax)))
    x, y = [tuple(it.pynum(q) for q in (p if isinstance(p, (tuple, list)) else (p,))) for p in ax]
    la = list("abcdefgh"[: len(a.axes)])
    lb = list("ijklmnop"[: len(b.axes)])
    for p, q in zip(x, y):
        lb[q] = la[p]
    out = [c for j, c in enumerate(la) if j not in [p % len(la) for p in x]] + [c for j, c in enumerate(lb) if j not in [q % len(lb) for q in y]]
    return einsum(it, "".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b])


@model("np.trace")
def np_trace(it, args, kw):
    d = sig("np.trace", it, args, kw, ["a"])
    return V.reduce(M["np.diag"](it, [d["a"]], {}), "sum")


for _n, _f in dict(
    hypot=lambda x, y: tm.sqrt(tm.add(tm.ipow(x, 2), tm.ipow(y, 2))),
    logical_xor=lambda x, y: tm.or_(tm.and_(tm.as_bool(x), tm.not_(tm.as_bool(y))), tm.and_(tm.not_(tm.as_bool(x)), tm.as_bool(y))),
    logaddexp=lambda x, y: tm.ln(tm.add(tm.exp(x), tm.exp(y))),
).items():
    binary(_n, _f)


def alias(new, old):
    M[new] = M[old]


for _a, _b in (("pow", "power"), ("max", "maximum"), ("min", "minimum"), ("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("div", "divide"), ("square", "square"),
               ("neg", "negative"), ("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal"),
               ("log1p", "log1p"), ("expm1", "expm1"), ("tanh", "tanh"), ("floor", "floor"), ("sign", "sign"), ("integer_pow", "power")):
    if "np." + _b in M:
        alias("jax.lax." + _a, "np." + _b)
M["jax.lax.rsqrt"] = lambda it, a, k: emap(lambda x: tm.ipow(tm.sqrt(x), -1), A(a[0]))
M["jax.lax.select"] = lambda it, a, k: M["np.where"](it, a, {})
M["jax.lax.clamp"] = lambda it, a, k: emap(lambda lo, x, hi: tm.minimum(tm.maximum(x, lo), hi), *[A(x) for x in a])
M["jax.nn.relu"] = lambda it, a, k: emap(lambda x: tm.maximum(x, tm.ZERO), A(a[0]))
M["jax.nn.softplus"] = lambda it, a, k: emap(lambda x: tm.ln(tm.add(tm.ONE, tm.exp(x))), A(a[0]))
M["scipy.special.logit"] = M["jax.scipy.special.logit"]
M["jax.device_get"] = lambda it, a, k: a[0]
M["jax.device_put"] = lambda it, a, k: a[0]
M["jax.lax.cummax"] = lambda it, a, k: M["np.maximum.accumulate"](it, [a[0]], {"axis": k.get("axis", a[1] if len(a) > 1 else 0)})
M["jax.lax.cumsum"] = lambda it, a, k: M["np.cumsum"](it, [a[0]], {"axis": k.get("axis", a[1] if len(a) > 1 else 0)})


@model("jax.lax.fori_loop")
def fori(it, args, kw):
    d = sig("fori_loop", it, args, kw, ["lower", "upper", "body_fun", "init_val", "unroll"])
    lo, hi = intarg(it, d["lower"], "fori_loop bound"), intarg(it, d["upper"], "fori_loop bound")
    if hi - lo > 64:
        raise Unsupported("fori_loop of %d steps" % (hi - lo), it.loc)
    v = d["init_val"]
    for i in range(lo, hi):
        v = it.call(d["body_fun"], [i, v], {})
    return v


@model("jax.lax.scan")
def scan(it, args, kw):
    d = sig("scan", it, args, kw, ["f", "init", "xs", "length", "reverse", "unroll"])
    xs = d.get("xs")
    if it.pynum(d.get("reverse", False)):
        raise Unsupported("scan in reverse", it.loc)
    ts = [] if xs is None else list(tree_leaves(xs))
    ns = {A(x).axes[0] for x in ts} if ts else {intarg(it, d["length"], "scan length")}
    if len(ns) != 1 or not isinstance(min(ns, key=str), int) or max(ns) > 64:
        raise Unsupported("scan over a symbolic number of steps", it.loc)
    n = ns.pop()
    c, ys = d["init"], []
    for i in range(n):
        x = None if xs is None else V.tree_map(lambda a: take(A(a), 0, i), xs)
        r = it.call(d["f"], [c, x], {})
        if not isinstance(r, tuple) or len(r) != 2:
            raise ProgError("scan: the body does not return a pair", it.loc)
        c = r[0]
        ys.append(r[1])
    if not ys or ys[0] is None:
        return (c, None)
    if isinstance(ys[0], (tuple, NT)):
        cols = [stack([as_arr(y.vals[j] if isinstance(y, NT) else y[j]) for y in ys]) for j in range(len(ys[0].vals if isinstance(ys[0], NT) else ys[0]))]
        return (c, NT(ys[0].cls, cols) if isinstance(ys[0], NT) else tuple(cols))
    return (c, stack([as_arr(y) for y in ys]))


def tree_leaves(v):
    if isinstance(v, NT):
        v = v.vals
    if isinstance(v, (tuple, list)):
        for x in v:
            yield from tree_leaves(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from tree_leaves(x)
    elif v is not None:
        yield v


@model("jax.lax.map")
def lax_map(it, args, kw):
    d = sig("lax.map", it, args, kw, ["f", "xs", "batch_size"])
    return it.call(M["jax.vmap"](it, [d["f"]], {}), [d["xs"]], {})


@model("np.take")
def np_take(it, args, kw):
    d = sig("np.take", it, args, kw, ["a", "indices", "axis", "out", "mode"])
    a = known(it, A(d["a"]), "take")
    ax = it.pynum(d.get("axis"))
    if d.get("out") is not None or d.get("mode") not in (None, "raise"):
        raise Unsupported("take with options", it.loc)
    if ax is None:
        if len(a.axes) != 1:
            raise Unsupported("take from a flattened array", it.loc)
        ax = 0
    ax = intarg(it, ax, "take axis") % len(a.axes)
    ix = d["indices"]
    ix = A(ix) if isinstance(ix, (list, tuple)) else ix
    return along(it, a, ax, ix)


@model("np.select")
def np_select(it, args, kw):
    d = sig("np.select", it, args, kw, ["condlist", "choicelist", "default"])
    cs, xs = d["condlist"], d["choicelist"]
    if not isinstance(cs, (list, tuple)) or not isinstance(xs, (list, tuple)):
        raise Unsupported("select with computed lists", it.loc)
    if len(cs) != len(xs):
        raise ProgError("select: %d conditions for %d choices" % (len(cs), len(xs)), it.loc)
    r = A(d.get("default", 0))
    for c, x in zip(reversed(cs), reversed(xs)):
        r = emap(lambda c, x, y: tm.where(tm.as_bool(c), x, y), A(c), A(x), r)
    return r


@model("np.meshgrid")
def np_meshgrid(it, args, kw):
    ij = kw.get("indexing", "xy")
    if set(kw) - {"indexing"} or len(args) != 2:
        raise Unsupported("meshgrid in this form", it.loc)
    x, y = [known(it, A(a), "meshgrid") for a in args]
    if len(x.axes) != 1 or len(y.axes) != 1:
        raise Unsupported("meshgrid of this shape", it.loc)
    if ij == "xy":
        x, y = V.add_axis(x, 1, None, 0), V.add_axis(y, 1, None, 1)
    else:
        x, y = V.add_axis(x, 1, None, 1), V.add_axis(y, 1, None, 0)
    return [emap(lambda a, b: a, x, y), emap(lambda a, b: b, x, y)]


@model("np.triu_indices")
def np_triu_idx(it, args, kw):
    n = intarg(it, args[0], "triu_indices of a symbolic size")
    k = it.pynum(args[1]) if len(args) > 1 else it.pynum(kw.get("k", 0))
    ps = [(i, j) for i in range(n) for j in range(n) if j >= i + k]
    return tuple(Arr((len(ps),), {(q,): C(p[r]) for q, p in enumerate(ps)}) for r in (0, 1))


@model("np.diag_indices")
def np_diag_idx(it, args, kw):
    n = intarg(it, args[0], "diag_indices of a symbolic size")
    m = it.pynum(args[1]) if len(args) > 1 else it.pynum(kw.get("ndim", 2))
    return tuple(Arr((n,), {(q,): C(q) for q in range(n)}) for _ in range(m))


@model("np.ptp")
def np_ptp(it, args, kw):
    return emap(tm.sub, M["np.max"](it, args, kw), M["np.min"](it, args, kw))


def scalar_type(name):
    def g(it, args, kw):
        if kw or len(args) > 1:
            raise Unsupported("%s() in this form" % name, it.loc)
        if not args:
            return 0
        v = args[0]
        if isinstance(v, str):
            v = B["int" if name.startswith(("int", "uint")) else "float"](it, [v], {})
        if v is None or isinstance(v, dict):
            raise Unsupported("%s of %s" % (name, type(v).__name__), it.loc)
        return cast(it, A(v), name)

    M["np." + name] = g


for _n in ("float32", "float64", "float_", "double", "int32", "int64", "bool_"):
    scalar_type(_n)


# -------------------------------------------------------------- standard library
def plain(it, v):
    x = it.iterable(v)
    if isinstance(x, GenIter):
        raise Unsupported("a symbolic sequence", it.loc)
    return list(x)


@model("functools.reduce")
def ft_reduce(it, args, kw):
    xs = plain(it, args[1])
    if len(args) > 2:
        r = args[2]
    elif xs:
        r = xs.pop(0)
    else:
        raise ProgError("reduce() of empty iterable with no initial value", it.loc)
    for x in xs:
        r = it.call(args[0], [r, x], {})
    return r


M["itertools.chain"] = lambda it, a, k: [x for s in a for x in plain(it, s)]
M["itertools.chain.from_iterable"] = lambda it, a, k: [x for s in plain(it, a[0]) for x in plain(it, s)]


@model("itertools.product")
def it_product(it, args, kw):
    rep = it.pynum(kw.get("repeat", 1))
    return [tuple(x) for x in itertools.product(*[plain(it, a) for a in args], repeat=rep)]


@model("itertools.repeat")
def it_repeat(it, args, kw):
    if len(args) != 2:
        raise Unsupported("itertools.repeat without a count", it.loc)
    return [args[0]] * intarg(it, args[1], "repeat count")


@model("itertools.starmap")
def it_starmap(it, args, kw):
    return [it.call(args[0], list(x), {}) for x in (plain(it, y) for y in plain(it, args[1]))]


@model("itertools.accumulate")
def it_accumulate(it, args, kw):
    if kw or len(args) > 2:
        raise Unsupported("itertools.accumulate in this form", it.loc)
    out = []
    for x in plain(it, args[0]):
        out.append(x if not out else it.binop("Add", out[-1], x) if len(args) < 2 else it.call(args[1], [out[-1], x], {}))
    return out


@model("itertools.combinations")
def it_comb(it, args, kw):
    return [tuple(x) for x in itertools.combinations(plain(it, args[0]), intarg(it, args[1], "combinations length"))]


for _n, _op in dict(add="Add", sub="Sub", mul="Mult", truediv="Div", floordiv="FloorDiv", mod="Mod", pow="Pow", and_="BitAnd", or_="BitOr", xor="BitXor", matmul="MatMult",
                    iadd="Add", imul="Mult").items():
    M["operator." + _n] = lambda it, a, k, _op=_op: it.binop(_op, a[0], a[1])
M["operator.neg"] = lambda it, a, k: emap(tm.neg, A(a[0]))
M["operator.getitem"] = lambda it, a, k: it.getitem(a[0], a[1])


@model("operator.itemgetter")
def op_itemgetter(it, args, kw):
    from .interp import Model

    ks = list(args)
    return Model(lambda it, a, k: it.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(it.getitem(a[0], x) for x in ks))


@model("operator.attrgetter")
def op_attrgetter(it, args, kw):
    from .interp import Model

    ks = list(args)
    if not all(isinstance(x, str) and "." not in x for x in ks):
        raise Unsupported("attrgetter in this form", it.loc)
    return Model(lambda it, a, k: it.getattr(a[0], ks[0]) if len(ks) == 1 else tuple(it.getattr(a[0], x) for x in ks))


# ------------------------------------------------- order, elementwise functions
def ordering(name):
    """sort / argsort: element i of the result is a function of the whole axis"""

    def f(it, args, kw):
        d = sig("np." + name, it, args, kw, ["a", "axis", "kind", "order", "stable", "descending"])
        a = known(it, A(d["a"]), name)
        if any(k in d for k in ("order", "descending")):
            raise Unsupported("%s in this form" % name, it.loc)
        ax = it.pynum(d.get("axis", -1))
        if ax is None and len(a.axes) != 1:
            raise Unsupported("%s of a flattened array" % name, it.loc)
        ax = 0 if ax is None else ax % len(a.axes)
        s = a.axes[ax]
        cs = list(a.data.values())
        if isinstance(s, int) and len(a.axes) == 1 and all(tm.is_c(t) for t in cs):
            ks = sorted(range(s), key=lambda i: (tm.cval(a.data[(i,)]), i))
            return Arr((s,), {(q,): a.data[(k,)] if name == "sort" else C(k) for q, k in enumerate(ks)})
        b = V.lam_axis(a, ax)
        if isinstance(s, int):
            return it._restack(a, ax, [Arr(b.axes, {k: tm.atom(name + "nth", t, C(i)) for k, t in b.data.items()}) for i in range(s)])
        q = tm.idx("sortpos")
        r = Arr(b.axes, {k: tm.atom(name + "nth", t, q) for k, t in b.data.items()})
        r = V.add_axis(r, s, q)
        return r if ax == 0 else V.moveaxis(r, 0, ax) if hasattr(V, "moveaxis") else M["np.moveaxis"](it, [r, 0, ax], {})

    M["np." + name] = f


ordering("sort")
ordering("argsort")


@model("np.searchsorted")
def np_searchsorted(it, args, kw):
    d = sig("np.searchsorted", it, args, kw, ["a", "v", "side", "sorter"])
    if "sorter" in d:
        raise Unsupported("searchsorted with a sorter", it.loc)
    a = known(it, A(d["a"]), "searchsorted")
    v = known(it, A(d["v"]), "searchsorted")
    if len(a.axes) != 1:
        raise Unsupported("searchsorted in this form", it.loc)
    t = V.lam_axis(a, 0).data[()]
    side = d.get("side", "left")
    return emap(lambda x: tm.atom("searchsorted", t, x, tm.mk("str", side)), v)


@model("np.isclose")
def np_isclose(it, args, kw):
    d = sig("np.isclose", it, args, kw, ["a", "b", "rtol", "atol", "equal_nan"])
    r, t = A(d.get("rtol", scalar(C(Fr(1, 10**5))))), A(d.get("atol", scalar(C(Fr(1, 10**8)))))
    return emap(lambda a, b, r, t: tm.le(tm.absv(tm.sub(a, b)), tm.add(t, tm.mul(r, tm.absv(b)))), A(d["a"]), A(d["b"]), r, t)


def pointwise(name, val):
    def f(it, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("%s in this form" % name, it.loc)
        a = A(args[0])
        return opaque_call(it, "np." + name, args, kw) if a.axes is None else emap(val, a)

    M.setdefault("np." + name, f)


for _n in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "rint"):
    pointwise(_n, lambda t, _n=_n: tm.ZERO if t is tm.ZERO and _n not in ("cos", "cosh", "arccos") else tm.atom(_n, t))
pointwise("reciprocal", lambda t: tm.div(tm.ONE, t))
pointwise("cbrt", lambda t: tm.atom("cbrt", t))


@model("jax.scipy.special.logsumexp")
def logsumexp(it, args, kw):
    d = sig("logsumexp", it, args, kw, ["a", "axis", "b", "keepdims"])
    if "b" in d or "keepdims" in d:
        raise Unsupported("logsumexp in this form", it.loc)
    return M["np.log"](it, [M["np.sum"](it, [M["np.exp"](it, [d["a"]], {})], {"axis": d.get("axis")})], {})


M["scipy.special.logsumexp"] = logsumexp
M["jax.nn.logsumexp"] = logsumexp


def trapezoid(it, args, kw):
    d = sig("np.trapz", it, args, kw, ["y", "x", "dx", "axis"])
    y = known(it, A(d["y"]), "trapz")
    if len(y.axes) != 1:
        raise Unsupported("trapz of a table", it.loc)
    mid = emap(tm.add, along(it, y, 0, SliceV(1, None, None)), along(it, y, 0, SliceV(None, -1, None)))
    dx = np_diff(it, [d["x"]], {}) if d.get("x") is not None else A(d.get("dx", 1))
    return M["np.sum"](it, [emap(lambda m, h: tm.scale(Fr(1, 2), tm.mul(m, h)), mid, dx)], {})


for _n in ("np.trapz", "np.trapezoid", "jax.scipy.integrate.trapezoid", "scipy.integrate.trapezoid"):
    M[_n] = trapezoid
