"""Value-numbering domain.

A term denotes the value of a program expression at a generic array element, as
a function of the inputs of the analysed entry point.  Terms are hash-consed.
Equality of terms is decided by *global value numbering by random
interpretation* (Gulwani & Necula, POPL 2004): every term is mapped to an
element of a tower of prime fields, ring identities hold by construction,
uninterpreted operators are hashed on the value numbers of their operands
(congruence closure), and conditionals are joined affinely, or case-split on
the sign of their guards.  Nothing of the analysed program is ever executed.
"""
import hashlib
import math
import time
import sys
from fractions import Fraction as Fr

sys.setrecursionlimit(200000)

P = [
    162259276829213363391578010288127,
    26935039953649418323001949707829083,
    1131271678053275569566081887728821487,
    128964971298073414930533335201085649519,
]
G = [
    None,
    22067261648773017994242706568250788,
    4398046511104,
    20769187434139310514121985316880384,
]
NL = len(P)
SALT = b"diffmah-sa-1"


class T:
    __slots__ = ("op", "args", "id", "fbv", "hgt", "_gv")

    def __repr__(self):
        return show(self)


_TAB = {}
_CNT = [0]


def mk(op, *args):
    k = (op, args)
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.id = _CNT[0]
        _CNT[0] += 1
        fb = frozenset()
        h = 0
        for a in kids(t):
            fb |= a.fbv
            h = max(h, a.hgt)
        if op == "bv":
            fb = frozenset([args[0]])
            h = args[0]
        elif op in ("red", "lam"):
            fb = fb - {args[-2]}
            h = max(h, args[-2])
        t.fbv, t.hgt = fb, h
        t._gv = None
        _TAB[k] = t
    return t


def kids(t):
    op = t.op
    if op == "lin":
        return [x for x, _ in t.args[1]]
    if op == "mon":
        return [x for x, _ in t.args[0]]
    return [a for a in t.args if isinstance(a, T)]


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isinf(v):
            return INF if v > 0 else neg(INF)
        if math.isnan(v):
            return mk("nan")
        v = Fr(repr(v))
    return mk("c", Fr(v))


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


ZERO = C(0)
ONE = C(1)
INF = mk("inf")
TRUE = mk("b", 1)
FALSE = mk("b", 0)


def sym(name, *args):
    return mk("sym", name, *args)


def idx(name):
    return mk("idx", name)


# ---------------------------------------------------------------- linear form
def _lin(const, d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda p: p[0].id))
    if not items:
        return C(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", Fr(const), items)


def as_lin(t):
    if t.op == "c":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return Fr(0), {t: Fr(1)}


def add(*ts):
    const = Fr(0)
    d = {}
    inf = 0
    for t in ts:
        if t.op == "b":
            t = C(t.args[0])
        if t is INF:
            inf += 1
            continue
        if t is NINF:
            inf -= 1
            continue
        if t.op == "nan":
            return t
        c0, dd = as_lin(t)
        const += c0
        for k, v in dd.items():
            d[k] = d.get(k, 0) + v
    if inf:
        return INF if inf > 0 else NINF
    return _lin(const, d)


def scale(c, t):
    c = Fr(c)
    if t is INF or t is NINF:
        if c == 0:
            return mk("nan")
        return t if c > 0 else (NINF if t is INF else INF)
    if t.op == "b":
        t = C(t.args[0])
    c0, d = as_lin(t)
    return _lin(c * c0, {k: c * v for k, v in d.items()})


NINF = mk("lin", Fr(0), ((INF, Fr(-1)),))


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _as_mon(t):
    """t = coef * prod base^exp"""
    if t.op == "c":
        return t.args[0], {}
    if t.op == "b":
        return Fr(t.args[0]), {}
    if t.op == "mon":
        return Fr(1), dict(t.args[0])
    if t.op == "lin":
        const, items = t.args
        if const == 0 and len(items) == 1:
            b, c = items[0]
            c2, m = _as_mon(b)
            return c * c2, m
        # normalise leading coefficient
        lead = items[0][1]
        if lead != 1:
            return lead, {scale(1 / lead, t): 1}
        return Fr(1), {t: 1}
    return Fr(1), {t: 1}


def mul(*ts):
    coef = Fr(1)
    m = {}
    for t in ts:
        if t is INF or t is NINF:
            others = [x for x in ts if x is not t]
            if len(others) == 1 and is_c(others[0]):
                return scale(cval(others[0]), t)
        c, mm = _as_mon(t)
        coef *= c
        for k, e in mm.items():
            m[k] = m.get(k, 0) + e
    if coef == 0:
        return ZERO
    # merge exponentials, square roots
    exps = [k for k in m if k.op == "exp"]
    if len(exps) > 1 or any(m[k] != 1 for k in exps):
        arg = add(*[scale(m.pop(k), k.args[0]) for k in exps])
        e = exp(arg)
        return mul(C(coef), e, *[ipow(k, v) for k, v in m.items() if v])
    extra = []
    for k in list(m):
        if k.op == "sqrt" and abs(m[k]) >= 2:
            q, r = divmod(abs(m[k]), 2)
            s = 1 if m[k] > 0 else -1
            m[k] = s * r
            extra.append(ipow(k.args[0], s * q))
    if extra:
        return mul(C(coef), *extra, *[ipow(k, v) for k, v in m.items() if v])
    items = tuple(sorted(((k, e) for k, e in m.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        return C(coef)
    if len(items) == 1 and items[0][1] == 1:
        base = items[0][0]
        return base if coef == 1 else scale(coef, base)
    mon = mk("mon", items)
    return mon if coef == 1 else _lin(Fr(0), {mon: coef})


def ipow(t, n):
    if n == 0:
        return ONE
    if n == 1:
        return t
    if is_c(t):
        if cval(t) == 0:
            return ZERO if n > 0 else mk("nan")
        return C(cval(t) ** n)
    if t is INF:
        return INF if n > 0 else ZERO
    if n < 0 and t.op == "lin":
        q = _fraction(t)
        if q is not None:
            return mul(ipow(q[0], n), ipow(q[1], -n))
    c, m = _as_mon(t)
    return mul(C(c**n), *[_monpow(k, e * n) for k, e in m.items()])


def _fraction(t):
    """(numerator, denominator) of a sum over a common denominator, when the numerator collapses"""
    den = {}
    for k, _ in t.args[1]:
        if k.op == "mon":
            for b, e in k.args[0]:
                if e < 0 and b.op == "lin":
                    den[b] = max(den.get(b, 0), -e)
    if not den:
        return None
    d = ONE
    for b, e in den.items():
        d = mul(d, mk("mon", ((b, e),)) if e != 1 else b)
    num = add(scale(t.args[0], d), *[scale(c, mul(k, d)) for k, c in t.args[1]])
    if not is_c(num):
        if num.op != "lin" or len(den) != 1:
            return None
        try:
            p = expand(num, 60)
        except TooBig:
            return None
        if len(p) != 1:
            return None
        (m, c), = p.items()
        num = mul(C(c), *[ipow(k, e) for k, e in m])
    if is_c(num) and cval(num) == 0:
        return None
    return num, d


def _monpow(k, e):
    if e == 1:
        return k
    if k.op == "exp":
        return exp(scale(e, k.args[0]))
    if k.op == "sqrt" and abs(e) >= 2:
        q, r = divmod(abs(e), 2)
        s = 1 if e > 0 else -1
        return mul(ipow(k.args[0], s * q), _monpow(k, s * r)) if r else ipow(k.args[0], s * q)
    return mk("mon", ((k, e),))


def inv(t):
    return ipow(t, -1)


def div(a, b):
    return mul(a, inv(b))


# ------------------------------------------------------- exp / ln / friends
_EXP = {}
_LN = {}


def exp(t):
    if t.op == "nan":
        return t
    if t is ZERO:
        return ONE
    if t is INF:
        return INF
    if t is NINF:
        return ZERO
    if t.op == "mon":
        m = dict(t.args[0])
    hit = _LN.get(gv(t))
    if hit is not None:
        return hit
    if _has_ln(t):
        try:
            p = expand(t, 200)
            t = add(*[mul(C(v), *[ipow(k, e) for k, e in m]) for m, v in p.items()]) if p else ZERO
            if t is ZERO:
                return ONE
        except TooBig:
            pass
    const, d = as_lin(t)
    if INF in d or NINF in d:
        return INF if d.get(INF, 0) > 0 else ZERO
    pulled = []
    for k, c in list(d.items()):
        if k.op == "mon" and len(k.args[0]) == 2:
            # c * inf * positive constant
            bases = [b for b, e in k.args[0]]
            if INF in bases:
                return INF if c > 0 else ZERO
        if k.op == "ln":
            if c.denominator == 1:
                pulled.append(ipow(k.args[0], int(c)))
                del d[k]
            elif c.denominator == 2:
                pulled.append(ipow(sqrt(k.args[0]), int(c * 2)))
                del d[k]
    if pulled:
        rest = _lin(const, d)
        return mul(exp(rest), *pulled)
    r = mk("exp", t)
    _EXP.setdefault(gv(r), t)
    return r


def ln(t):
    if t.op == "nan":
        return t
    if is_c(t):
        v = cval(t)
        if v == 1:
            return ZERO
        if v == 0:
            return NINF
        if v > 0:
            k = 0
            w = v
            while w >= 10 and w.denominator == 1 and w % 10 == 0:
                w /= 10
                k += 1
            while w < 1 and w.numerator == 1 and w.denominator % 10 == 0:
                w *= 10
                k -= 1
            if k and not (w == 1 and k == 1):
                return add(scale(k, ln(C(10))), ln(C(w)))
    if t is INF:
        return INF
    if t.op == "exp":
        return t.args[0]
    if t.op == "where" and not (t.fbv):
        return where(t.args[0], ln(t.args[1]), ln(t.args[2]))
    g = gv(t)
    hit = _EXP.get(g)
    if hit is not None:
        return hit
    gi = gv(inv(t)) if not is_c(t) else None
    hit = _EXP.get(gi)
    if hit is not None:
        return neg(hit)
    c, m = _as_mon(t)
    if c > 0 and (c != 1 or len(m) > 1 or any(e != 1 for e in m.values())) and m:
        return add(ln(C(c)), *[scale(e, ln(k)) for k, e in m.items()])
    if t.op == "sqrt":
        return scale(Fr(1, 2), ln(t.args[0]))
    r = mk("ln", t)
    _LN.setdefault(gv(r), t)
    return r


LN10 = None


def log10(t):
    global LN10
    if LN10 is None:
        LN10 = ln(C(10))
    return div(ln(t), LN10)


def sqrt(t):
    if is_c(t) and cval(t) >= 0:
        v = cval(t)
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return C(Fr(n, d))
    return mk("sqrt", t)


def power(a, b):
    if is_c(b):
        v = cval(b)
        if v.denominator == 1 and abs(v) <= 64:
            return ipow(a, int(v))
        if v.denominator == 2 and abs(v) <= 32:
            return ipow(sqrt(a), int(v * 2))
    if a is ONE:
        return ONE
    return exp(mul(b, ln(a)))


def sig(t):
    if t is ZERO:
        return C(Fr(1, 2))
    if t is INF:
        return ONE
    if t is NINF:
        return ZERO
    if any(k.op == "ln" for k in as_lin(t)[1]) or _has_ln(t):
        return inv(add(ONE, exp(neg(t))))
    exp(t), exp(neg(t))  # register for the ln lookup
    return mk("sig", t)


def _has_ln(t):
    if t.op not in ("lin", "mon"):
        return t.op == "ln"
    return any(_has_ln(k) for k in kids(t))


_INT = {}


def is_inttrm(t):
    """is the value of t an integer for every input"""
    r = _INT.get(t)
    if r is None:
        r = _INT[t] = _is_inttrm(t)
    return r


def _is_inttrm(t):
    if is_c(t):
        return cval(t).denominator == 1
    if t.op == "lin":
        return t.args[0].denominator == 1 and all(c.denominator == 1 and is_inttrm(k) for k, c in t.args[1])
    if t.op == "mon":
        return all(e > 0 and is_inttrm(k) for k, e in t.args[0])
    if t.op in ("idx", "bv"):
        return True
    if t.op == "sym":
        return str(t.args[0]).startswith(("size:", "int:"))
    if t.op == "fn":
        return t.args[0] in ("int", "floor", "count", "nth", "len", "argmax", "argmin", "split_start", "split_size")
    if t.op == "where":
        return is_inttrm(t.args[1]) and is_inttrm(t.args[2])
    if t.op in ("min", "max"):
        return is_inttrm(t.args[0]) and is_inttrm(t.args[1])
    if t.op == "red" and t.args[0] == "sum":
        return is_inttrm(t.args[3])
    return False


def floor(x):
    """the largest integer not above x, with the integer part taken out"""
    if is_c(x):
        return C(math.floor(cval(x)))
    if x.op in ("inf", "ninf") or x in (INF, NINF):
        return x
    c0, dd = as_lin(x)
    out, rest = [C(math.floor(c0))], []
    for k, c in dd.items():
        (out if c.denominator == 1 and is_inttrm(k) else rest).append(scale(c, k))
    if not rest:
        return add(*out)
    return add(*out, mk("fn", "floor", add(*rest, C(c0 - math.floor(c0)))))


def floordiv(x, y):
    if is_c(x) and is_c(y) and cval(y):
        return C(cval(x) // cval(y))
    return floor(div(x, y))


def mod(x, y):
    return sub(x, mul(y, floordiv(x, y)))


# ---------------------------------------------------------------- conditions
def lt(a, b):
    """a < b"""
    if b is INF:
        return FALSE if a is INF else TRUE
    if a is NINF:
        return FALSE if b is NINF else TRUE
    if a is INF or b is NINF:
        return FALSE
    return _lt0(sub(a, b))


def _posfactor(dd):
    """a factor of every monomial known to be positive, or None"""
    fs = None
    for k in dd:
        m = dict(k.args[0]) if k.op == "mon" else {k: 1}
        if fs is None:
            fs = {b: e for b, e in m.items() if (b.op != "sym" or e < 0 or len(dd) == 1) and known_sign(b) == 1}
        else:
            fs = {b: (min if e > 0 else max)(e, m[b]) for b, e in fs.items() if b in m and (m[b] > 0) == (e > 0)}
        if not fs:
            return None
    b = min(fs, key=lambda b: b.id)
    return ipow(b, fs[b])


def _lt0(d):
    if is_c(d):
        return TRUE if cval(d) < 0 else FALSE
    c0, dd = as_lin(d)
    if len(dd) <= 2 and all(k.op == "exp" for k in dd):
        # a positive exponential against a constant or another exponential
        (k1, c1), *rest = dd.items()
        if not rest:
            if c0 == 0 or (c0 > 0) == (c1 > 0):
                return TRUE if c1 < 0 else FALSE
            e = sub(k1.args[0], ln(C(-c0 / c1)))
            return _lt0(e if c1 > 0 else neg(e))
        (k2, c2), = rest
        if c0 == 0 and (c1 > 0) == (c2 > 0):
            return TRUE if c1 < 0 else FALSE
        if c0 == 0:
            e = add(sub(k1.args[0], k2.args[0]), ln(C(-c1 / c2)))
            return _lt0(e if c1 > 0 else neg(e))
    if c0 == 0:
        # a common factor known to be positive
        f = _posfactor(dd)
        if f is not None:
            return _lt0(add(*[scale(c, mul(k, inv(f))) for k, c in dd.items()]))
    # |x| < w and the like: conditions on the arguments of the extremum
    ext = [(k, c, *e) for k, c in dd.items() for e in [_extremum(k)] if e is not None]
    if len(ext) == 1:
        (k, c, f, x), = ext
        rest = sub(d, scale(c, k))
        p, q = (_lt0(add(rest, scale(c, mul(f, y)))) for y in x.args)
        return and_(p, q) if (x.op == "max") == (c > 0) else or_(p, q)
    n = _counted(d)
    if n is not None:
        # whether a mask selects anything, everything
        c, rest, size, some, every = n
        r = scale(1 / abs(c), rest)
        if c > 0:
            if is_c(r) and cval(r) > -2:
                # count < -r
                return FALSE if cval(r) >= 0 else not_(some) if cval(r) >= -1 else mk("lt", scale(1 / c, d))
            if add(r, size) is ZERO:
                return not_(every)
        else:
            if is_c(r):
                # r < count
                if cval(r) < 0:
                    return TRUE
                if cval(r) < 1:
                    return some
            if sub(sub(size, r), ONE) is ZERO:
                return every
    lead = min(dd.items(), key=lambda p: p[0].id)[1]
    if all(is_inttrm(k) for k in dd) and all((c / lead).denominator == 1 for c in dd.values()):
        # integers: n < x is n < ceil(x), and -n < x is not(n < 1 + floor(-x))
        d = scale(1 / abs(lead), d)
        c0 = as_lin(d)[0]
        d = sub(d, C(c0 - math.floor(c0)))
        if lead < 0:
            return not_(mk("lt", sub(neg(d), ONE)))
        return mk("lt", d)
    if abs(lead) != 1:
        d = scale(1 / abs(lead), d)
    return mk("lt", d)


def _extremum(k):
    """(positive factor, extremum) of a term that is their product"""
    if k.op in ("min", "max"):
        f, x = ONE, k
    elif k.op == "mon":
        xs = [b for b, e in k.args[0] if b.op in ("min", "max")]
        if len(xs) != 1:
            return None
        x = xs[0]
        f = mul(k, inv(x))
        if x in _as_mon(f)[1] or known_sign(f) != 1:
            return None
    else:
        return None
    return None if INF in x.args or NINF in x.args else (f, x)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if (a is INF) != (b is INF) or (a is NINF) != (b is NINF):
        if is_c(a) or is_c(b):
            return FALSE
    d = sub(a, b)
    if is_c(d):
        return TRUE if cval(d) == 0 else FALSE
    c0, dd = as_lin(d)
    n = _counted(d)
    if n is not None:
        c, rest, size, some, every = n
        r = scale(1 / c, rest)
        if r is ZERO:
            return not_(some)
        if is_c(r) and cval(r) > 0:
            return FALSE
        if add(r, size) is ZERO:
            return every
    lead = min(dd.items(), key=lambda p: p[0].id)[1]
    if lead != 1:
        d = scale(1 / lead, d)
    return mk("eq", d)


def is_bool(t):
    return t.op in ("b", "lt", "eq", "and", "or", "not", "batom")


def as_bool(t):
    if is_bool(t):
        return t
    if is_c(t):
        return TRUE if cval(t) != 0 else FALSE
    return not_(eq(t, ZERO))


def not_(c):
    c = as_bool(c)
    if c.op == "b":
        return FALSE if c.args[0] else TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        c = as_bool(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in c.args if c.op == "and" else (c,):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.id))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def minimum(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    if a is NINF or b is NINF:
        return NINF
    if is_c(a) and is_c(b):
        return a if cval(a) <= cval(b) else b
    for c, t in ((a, b), (b, a)):
        if is_c(c) and t.op in ("min", "max"):
            k = next((x for x in t.args if is_c(x)), None)
            o = next((x for x in t.args if not is_c(x)), None)
            if k is not None and o is not None:
                if t.op == "min":
                    return minimum(c if cval(c) <= cval(k) else k, o)
                if cval(k) >= cval(c):
                    return c
                return maximum(k, minimum(c, o))
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk("min", a, b)


def maximum(a, b):
    if a is b:
        return a
    if a is NINF:
        return b
    if b is NINF:
        return a
    if a is INF or b is INF:
        return INF
    if is_c(a) and is_c(b):
        return a if cval(a) >= cval(b) else b
    for c, t in ((a, b), (b, a)):
        if is_c(c) and t.op in ("min", "max"):
            k = next((x for x in t.args if is_c(x)), None)
            o = next((x for x in t.args if not is_c(x)), None)
            if k is not None and o is not None:
                if t.op == "max":
                    return maximum(c if cval(c) >= cval(k) else k, o)
                if cval(k) <= cval(c):
                    return c
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk("max", a, b)


def where(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return where(c.args[0], b, a)
    if c.op == "lt" and not is_bool(a) and not is_bool(b):
        d = c.args[0]
        if INF not in (a, b) and NINF not in (a, b):
            ab = sub(a, b)
            if _lt0(ab) is c:
                return minimum(a, b)
            if _lt0(neg(ab)) is c:
                return maximum(a, b)
    if is_bool(a) and is_bool(b):
        return or_(and_(c, a), and_(not_(c), b))
    # empty sums: where(n == 0, 0, sum over k<n) is the sum
    n = _count_of(c)
    if n is not None and _no_terms(a, n, False) is b:
        return a
    if c.op == "eq" and _no_terms(b, c.args[0]) is a:
        return b
    if c.op == "lt":
        if _no_terms(a, neg(c.args[0]), False) is b:
            return a
        if _no_terms(b, add(c.args[0], ONE), False) is a:
            return b
    return mk("where", c, a, b)


def _no_terms(t, d, both=True):
    """t with the sums of d (or -d) terms taken as empty (None without such a sum)"""
    m = {}
    nd = neg(d) if both else d
    for u in subterms(t):
        if u.op == "red" and u.args[0] == "sum" and not u.fbv and (u.args[1] is d or u.args[1] is nd):
            m[u] = ZERO
    return subst(t, m) if m else None


def absv(t):
    if is_c(t):
        return C(abs(cval(t)))
    return maximum(t, neg(t))


def atom(op, *args):
    """uninterpreted operator"""
    if op == "floor" and len(args) == 1:
        return floor(args[0])
    return mk("fn", op, *args)


def batom(op, *args):
    if op == "all" and len(args) == 1 and args[0].op == "lam":
        size, h, body = args[0].args
        return not_(batom("any", mk("lam", size, h, not_(body))))
    if op == "any" and len(args) == 1 and args[0].op == "lam":
        if args[0].args[2] is FALSE:
            return FALSE
    return mk("batom", op, *args)


def _count_of(c):
    """the number of true elements, for the condition that some element is true"""
    if c.op == "batom" and c.args[0] == "any" and c.args[1].op == "lam":
        size, h, body = c.args[1].args
        return mk("red", "sum", size, h, where(body, ONE, ZERO))
    return None


def _counted(d):
    """(c, rest, any, all): d = c * (the number of true elements of a mask) + rest"""
    c0, dd = as_lin(d)
    ks = [k for k in dd if k.op == "red" and k.args[0] == "sum" and k.args[3].op == "where" and {k.args[3].args[1], k.args[3].args[2]} == {ZERO, ONE}]
    if len(ks) != 1 or len(dd) > 3:
        return None
    k = ks[0]
    _, size, h, b = k.args
    cond = b.args[0] if b.args[1] is ONE else not_(b.args[0])
    some = batom("any", mk("lam", size, h, cond))
    every = batom("all", mk("lam", size, h, cond))
    return dd[k], sub(d, scale(dd[k], k)), size, some, every


# ------------------------------------------------------------------ binders
def bind(body, i):
    """returns (height, body with idx i replaced by a bound variable)"""
    h = body.hgt + 1
    return h, subst(body, {i: mk("bv", h)})


def _sizelike(t):
    """a sum of array sizes, hence not negative"""
    c, d = as_lin(t)
    return c >= 0 and (c > 0 or bool(d)) and all(e > 0 and k.op == "sym" and str(k.args[0]).startswith("size:") for k, e in d.items())


def _knot(size, i, body):
    """(condition, s) where body distinguishes the indices below s of range(size) from the others: the elements of
    arrays laid end to end"""
    c, d = as_lin(size)
    if (len(d) < 2 and not c and sum(d.values()) < 2) or (not d and c < 2):
        return None
    for t in subterms(body):
        if t.op == "lt" and depends_struct(t, i):
            s = sub(i, t.args[0])
            if not depends_struct(s, i) and _sizelike(s) and _sizelike(sub(size, s)):
                return t, s
    return None


def red(op, size, i, body):
    """reduction of body over index i in [0,size)"""
    if op in ("sum", "mean") and not depends_struct(body, i):
        return mul(size, body) if op == "sum" else body
    if op == "mean":
        return div(red("sum", size, i, body), size)
    k = _knot(size, i, body)
    if k is not None:
        cond, s = k
        lo = red(op, s, i, subst(body, {cond: TRUE}))
        hi = red(op, sub(size, s), i, subst(subst(body, {cond: FALSE}), {i: add(i, s)}))
        return {"sum": add, "prod": mul, "max": maximum, "min": minimum}[op](lo, hi)
    if op in ("max", "min"):
        if not depends_struct(body, i):
            return body
        # increasing functions commute with the extremum
        if body.op == "exp":
            return exp(red(op, size, i, body.args[0]))
        if body.op == "ln":
            return ln(red(op, size, i, body.args[0]))
        if body.op == "lin":
            out = [C(body.args[0])]
            rest = []
            for k, c in body.args[1]:
                if depends_struct(k, i):
                    rest.append((k, c))
                else:
                    out.append(scale(c, k))
            if len(rest) == 1:
                k, c = rest[0]
                return add(*out, scale(c, red(op if c > 0 else {"max": "min", "min": "max"}[op], size, i, k)))
            if len(out) > 1 or body.args[0] != 0:
                return add(*out, red(op, size, i, add(*[scale(c, k) for k, c in rest])))
        if body.op == "mon":
            free = [(k, e) for k, e in body.args[0] if not depends_struct(k, i) and known_sign(k) in (1, -1)]
            if free:
                f = mul(*[ipow(k, e) for k, e in free])
                g = mul(*[ipow(k, e) for k, e in body.args[0] if (k, e) not in free])
                return mul(f, red(op if known_sign(f) == 1 else {"max": "min", "min": "max"}[op], size, i, g))
    u = _unfiltered(op, size, i, body)
    if u is not None:
        return u
    h, b = bind(body, i)
    return mk("red", op, size, h, b)


def _unfiltered(op, size, i, body):
    """a reduction over all elements that pass a filter, as one over the whole input that skips the others"""
    if op not in ("sum", "max", "min", "prod") or size.op != "red" or size.args[0] != "sum":
        return None
    m = size.args[3]
    if m.op != "where" or m.args[1:] != (ONE, ZERO):
        return None
    n = None
    for t in subterms(body):
        if t.op == "fn" and t.args[0] == "nth" and t.args[2] is i and t.args[1].op == "lam":
            l = t.args[1]
            if l.args[0] is size.args[1] and (l.args[2] is m.args[0] if l.args[1] == size.args[2] else
                                              subst(l.args[2], {mk("bv", l.args[1]): mk("bv", size.args[2])}) is m.args[0]):
                n = t
                break
    if n is None:
        return None
    j = idx("unf%d" % body.hgt)
    if depends_struct(body, j):
        return None
    e = subst(body, {n: j})
    if depends_struct(e, i):
        return None
    keep = subst(m.args[0], {mk("bv", size.args[2]): j})
    return red(op, size.args[1], j, where(keep, e, {"sum": ZERO, "prod": ONE, "max": NINF, "min": INF}[op]))


def lam(size, i, body):
    h, b = bind(body, i)
    return mk("lam", size, h, b)


def depends_struct(t, leaf, _memo=None):
    if _memo is None:
        _memo = {}
    if t is leaf:
        return True
    r = _memo.get(t)
    if r is None:
        r = any(depends_struct(k, leaf, _memo) for k in kids(t))
        _memo[t] = r
    return r


def rebuild(t, f):
    """rebuild t with kids mapped through f, re-running smart constructors"""
    op = t.op
    if op in ("c", "inf", "nan", "b", "idx", "bv"):
        return t
    if op == "lin":
        return add(C(t.args[0]), *[scale(c, f(k)) for k, c in t.args[1]])
    if op == "mon":
        return mul(*[ipow(f(k), e) for k, e in t.args[0]])
    a = tuple(f(x) if isinstance(x, T) else x for x in t.args)
    if a == t.args:
        return t
    if op == "exp":
        return exp(*a)
    if op == "ln":
        return ln(*a)
    if op == "sig":
        return sig(*a)
    if op == "sqrt":
        return sqrt(*a)
    if op == "lt":
        return lt(a[0], ZERO)
    if op == "eq":
        return eq(a[0], ZERO)
    if op == "not":
        return not_(*a)
    if op == "and":
        return and_(*a)
    if op == "where":
        return where(*a)
    if op == "min":
        return minimum(*a)
    if op == "max":
        return maximum(*a)
    if op == "fn" and a[0] == "floor" and len(a) == 2:
        return floor(a[1])
    if op == "red" and a[2] not in a[3].fbv:
        if a[0] == "sum":
            return mul(a[1], a[3])
        if a[0] in ("max", "min"):
            return a[3]
    if op == "red" and a[1].op == "red":
        i = idx("unr%d" % a[2])
        u = _unfiltered(a[0], a[1], i, subst(a[3], {mk("bv", a[2]): i}))
        if u is not None:
            return u
    return mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda k: subst(k, m, memo))
        memo[t] = r
    return r


def leaves(t, out=None, seen=None, ops=("sym",)):
    """leaf symbols (outermost, includes their index args inside)"""
    if out is None:
        out, seen = set(), set()
    if t in seen:
        return out
    seen.add(t)
    if t.op in ops:
        out.add(t)
    for k in kids(t):
        leaves(k, out, seen, ops)
    return out


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for k in kids(t):
        subterms(k, seen)
    return seen


# ------------------------------------------------------------ value numbering
def _h(*parts):
    m = hashlib.blake2b(SALT, digest_size=64)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"|")
    d = m.digest()
    return tuple(int.from_bytes(d[16 * i : 16 * i + 16], "big") % P[i] for i in range(NL))


def _frv(fr):
    return tuple(fr.numerator * pow(fr.denominator, -1, p) % p for p in P)


V0 = tuple(0 for _ in P)
V1 = tuple(1 for _ in P)


def _inv(v):
    return tuple(pow(x, -1, p) if x % p else 0 for x, p in zip(v, P))


def _mulv(a, b):
    return tuple(x * y % p for x, y, p in zip(a, b, P))


def _addv(a, b):
    return tuple((x + y) % p for x, y, p in zip(a, b, P))


def _subv(a, b):
    return tuple((x - y) % p for x, y, p in zip(a, b, P))


def _powv(a, e):
    if e < 0:
        a = _inv(a)
        e = -e
    return tuple(pow(x, e, p) for x, p in zip(a, P))


def _expv(v):
    """homomorphism (F_{P_i},+) -> (F_{P_{i+1}},*)"""
    out = [_h("exp0", v[-1])[0]]
    for i in range(1, NL):
        out.append(pow(G[i], v[i - 1], P[i]))
    return tuple(out)


class NeedSplit(Exception):
    def __init__(self, kind, key, term):
        self.kind, self.key, self.term = kind, key, term


class Env:
    def __init__(self, split=False, leaf=None):
        self.split = split
        self.leaf = dict(leaf or {})
        self.signs = {}  # value of d -> sign
        self.batoms = {}
        self.cache = {}
        self.lane = None


_DEF = Env()
NSAMP = 3


def ev(t, env, bv=()):
    fb = t.fbv
    bvk = tuple(p for p in bv if p[0] in fb) if fb else ()
    key = (t.id, bvk)
    c = env.cache
    r = c.get(key)
    if r is None:
        r = _ev(t, env, bvk)
        c[key] = r
    return r


def _cond(t, env, bv):
    """value of a boolean term, as a field element (0/1 when decided)"""
    op = t.op
    if op == "b":
        return V1 if t.args[0] else V0
    if op == "not":
        return _subv(V1, ev(t.args[0], env, bv))
    if op == "and":
        r = V1
        for a in t.args:
            v = ev(a, env, bv)
            if v == V0:
                return V0
            r = _mulv(r, v)
        return r
    if op in ("lt", "eq"):
        d = t.args[0]
        v = ev(d, env, bv)
        if v == V0:
            return V0 if op == "lt" else V1
        nv = _subv(V0, v)
        s = env.signs.get(v[-1])
        if s is None:
            s = env.signs.get(nv[-1])
            if s is not None:
                s = -s
        if s is not None:
            if op == "lt":
                return V1 if s < 0 else V0
            return V1 if s == 0 else V0
        if t.fbv and env.lane is not None:
            s = env.lane.sign(d, env, bv)
            if op == "lt":
                return V1 if s < 0 else V0
            return V1 if s == 0 else V0
        if env.split and not t.fbv:
            raise NeedSplit("sign", v[-1], d)
        if v[-1] <= P[-1] // 2:
            hl, hg = _h("lt", v[-1]), _h("gt", v[-1])
        else:
            hg, hl = _h("lt", nv[-1]), _h("gt", nv[-1])
        if op == "lt":
            return hl
        return _subv(_subv(V1, hl), hg)
    if op == "batom":
        v = _hargs(t, env, bv)
        s = env.batoms.get(v[-1])
        if s is not None:
            return V1 if s else V0
        if t.fbv and env.lane is not None:
            return V1 if env.lane.truth(v[-1]) else V0
        if env.split and not t.fbv:
            raise NeedSplit("batom", v[-1], t)
        return v
    raise AssertionError(op)


def _hargs(t, env, bv):
    parts = [t.op]
    for a in t.args:
        parts.append(ev(a, env, bv)[-1] if isinstance(a, T) else a)
    return _h(*parts)


def _ev(t, env, bv):
    op = t.op
    if t in env.leaf:
        return env.leaf[t]
    if op == "c":
        return _frv(t.args[0])
    if op == "lin":
        r = _frv(t.args[0])
        for k, c in t.args[1]:
            r = _addv(r, _mulv(_frv(c), ev(k, env, bv)))
        return r
    if op == "mon":
        r = V1
        for k, e in t.args[0]:
            r = _mulv(r, _powv(ev(k, env, bv), e))
        return r
    if op in ("exp", "ln", "sqrt", "sig") and hascond(t.args[0]):
        # the branch taken may simplify under the function
        u = resolve(t.args[0], env, bv)
        if u is not t.args[0]:
            u = {"exp": exp, "ln": ln, "sqrt": sqrt, "sig": sig}[op](u)
            if u is not t:
                return ev(u, env, bv)
    if op == "exp":
        return _expv(ev(t.args[0], env, bv))
    if op == "sig":
        x = ev(t.args[0], env, bv)
        return _inv(_addv(V1, _expv(_subv(V0, x))))
    if op in ("b", "lt", "eq", "and", "not", "batom"):
        return _cond(t, env, bv)
    if op == "where":
        c = ev(t.args[0], env, bv)
        if c == V1:
            return ev(t.args[1], env, bv)
        if c == V0:
            return ev(t.args[2], env, bv)
        a, b = ev(t.args[1], env, bv), ev(t.args[2], env, bv)
        return _addv(b, _mulv(c, _subv(a, b)))
    if op in ("min", "max"):
        a, b = t.args
        c = _lt0(sub(a, b))
        w = ev(c, env, bv)
        if op == "max":
            a, b = b, a
        if w == V1:
            return ev(a, env, bv)
        if w == V0:
            return ev(b, env, bv)
        # affine join, symmetric weight for the equality case
        x, y = ev(a, env, bv), ev(b, env, bv)
        if x == y:
            return x
        lo, hi = sorted((t.args[0], t.args[1]), key=lambda q: ev(q, env, bv)[-1])
        vl, vh = ev(lo, env, bv), ev(hi, env, bv)
        w = _h(op, vl[-1], vh[-1])
        return _addv(vh, _mulv(w, _subv(vl, vh)))
    if op == "red":
        rop, size, h, body = t.args
        vals = [ev(body, env, bv + ((h, k),)) for k in range(NSAMP)]
        sz = ev(size, env, bv)
        if rop == "sum":
            ws = _weights(sz)
            r = V0
            for w, v in zip(ws, vals):
                r = _addv(r, _mulv(w, v))
            return r
        return _h("red", rop, sz[-1], tuple(v[-1] for v in vals))
    if op == "lam":
        size, h, body = t.args
        vals = [ev(body, env, bv + ((h, k),)) for k in range(NSAMP)]
        return _h("lam", ev(size, env, bv)[-1], tuple(v[-1] for v in vals))
    if op == "bv":
        k = dict(bv)[t.args[0]]
        return _h("sample", k)
    return _hargs(t, env, bv)


_HC = {}


def hascond(t):
    r = _HC.get(t)
    if r is None:
        if t.op in ("where", "min", "max"):
            r = True
        elif t.op in ("lin", "mon", "exp", "ln", "sqrt", "sig"):
            r = any(hascond(k) for k in kids(t))
        else:
            r = False
        _HC[t] = r
    return r


def resolve(t, env, bv):
    """t with the conditionals decided at this point replaced by the branch taken"""
    if not hascond(t):
        return t
    fb = t.fbv
    key = ("resolve", t.id, tuple(p for p in bv if p[0] in fb) if fb else ())
    r = env.cache.get(key)
    if r is None:
        r = env.cache[key] = _resolve(t, env, bv)
    return r


def _resolve(t, env, bv):
    if t.op in ("where", "min", "max"):
        if t.op == "where":
            c, x, y = t.args
        else:
            x, y = t.args
            c = _lt0(sub(x, y))
            if t.op == "max":
                x, y = y, x
        v = ev(c, env, bv)
        if v == V1:
            return resolve(x, env, bv)
        if v == V0:
            return resolve(y, env, bv)
        return t
    return rebuild(t, lambda k: resolve(k, env, bv))


def _weights(sz):
    """random weights summing to the size, so that sum_i c = n*c"""
    w = [_h("w", k) for k in range(NSAMP - 1)]
    last = sz
    for x in w:
        last = _subv(last, x)
    return w + [last]


def gv(t):
    if t._gv is None:
        t._gv = ev(t, _DEF)[-1] if not t.fbv else ("bv", t.id)
    return t._gv


# ------------------------------------------------------------------ equality
def _solve_zero(d, env):
    """a leaf L with d = +-L + rest, rest free of L"""
    c0, dd = as_lin(d)
    for k, c in sorted(dd.items(), key=lambda p: p[0].id):
        if k.op in ("sym", "fn", "elem") and not k.fbv:
            rest = add(d, scale(-c, k))
            if not depends_struct(rest, k):
                return k, scale(Fr(-1) / c, rest)
    for k, c in sorted(dd.items(), key=lambda p: p[0].id):
        if k.op == "red" and k.args[0] in ("max", "min") and not k.fbv:
            rest = add(d, scale(-c, k))
            if not any(u.op == "red" and gv(u) == gv(k) for u in subterms(rest)):
                return k, scale(Fr(-1) / c, rest)
    return None


MAXCASES = 6000
MAXTIME = 40.0  # seconds of case analysis per query


class Case:
    """one consistent sign assignment"""

    def __init__(self, conds, unsolved):
        self.conds, self.unsolved = conds, unsolved

    def describe(self):
        out = []
        for kind, d, s in self.conds:
            if kind == "sign":
                out.append("%s %s 0" % (show(d), {-1: "<", 0: "==", 1: ">"}[s]))
            elif kind == "batom":
                out.append("%s is %s" % (show(d), bool(s)))
            elif d.op != "unsolved":
                out.append("%s == %s" % (show(d), show(s)))
        return "; ".join(out) or "always"


def _setmap(steps):
    m = {}
    for kind, d, s in steps:
        if kind == "set" and d.op != "unsolved":
            s = subst(s, m) if m else s
            if depends_struct(s, d):
                continue
            m = {k: subst(v, {d: s}) for k, v in m.items()}
            m[d] = s
    return m


def _mkenv(steps):
    env = Env(split=False)
    m = _setmap(steps)
    for kind, d, s in steps:
        if kind == "set":
            continue
        d = subst(d, m) if m else d
        if kind == "sign" and is_c(d):
            v = cval(d)
            if (v > 0) - (v < 0) != s:
                return None
            continue
        if kind == "batom" and d.op != "batom":
            if d.op == "b" and d.args[0] != s:
                return None
            continue
        if not _put(env, kind, d, s):
            return None
    env.submap = m
    env.cache = {}
    env.split = True
    # transitivity: three oriented differences summing to zero
    pos = [(v if s > 0 else (P[-1] - v) % P[-1], abs(s)) for v, s in env.signs.items()]
    zer = [(P[-1] - v, 0) for v, s in env.signs.items() if s == 0]
    allv = pos + zer
    vals = {}
    for v, s in allv:
        vals[v] = max(vals.get(v, 0), s)
    for i, (a, sa) in enumerate(allv):
        for b, sb in allv[i:]:
            if (a + b) % P[-1] == 0 and (sa or sb):
                return None
            c = (P[-1] - (a + b) % P[-1]) % P[-1]
            if c in vals and (sa or sb or vals[c]):
                return None
    return env


def _put(env, kind, d, s):
    env.cache = {}
    if kind == "sign":
        v = ev(d, env)
        if v == V0:
            return s == 0
        nv = _subv(V0, v)[-1]
        o = env.signs.get(v[-1])
        if o is None and nv in env.signs:
            o = -env.signs[nv]
        if o is not None:
            return o == s
        env.signs[v[-1]] = s
    else:
        v = _hargs(d, env, ())
        if env.batoms.get(v[-1], s) != s:
            return False
        env.batoms[v[-1]] = s
    return True


# measures of spread: positive, except for degenerate samples (where a quotient by them is undefined in every form)
SPREAD = ("scipy.stats.mstats.trimmed_std", "scipy.stats.mstats.trimmed_var", "scipy.stats.tstd", "scipy.stats.iqr")


def known_sign(t):
    """sign facts valid for every input: +1, -1 or None"""
    if is_c(t):
        v = cval(t)
        return (v > 0) - (v < 0)
    if t.op in ("exp", "sig"):
        return 1
    if t.op == "fn" and t.args[0] == "call" and len(t.args) > 1 and t.args[1] in SPREAD:
        return 1
    if t.op == "sym" and t.args and isinstance(t.args[0], str) and t.args[0].startswith(("size:", "pos:")):
        return 1
    if t.op == "mon":
        s = 1
        for k, e in t.args[0]:
            if e % 2 == 0:
                continue
            ks = known_sign(k)
            if ks is None:
                return None
            s *= ks
        return s
    if t.op == "lin":
        c0, items = t.args
        sg = {known_sign(k) and known_sign(k) * (1 if c > 0 else -1) for k, c in items}
        if None in sg or len(sg) != 1:
            return None
        s = sg.pop()
        if c0 == 0 or (c0 > 0) == (s > 0):
            return s
        return None
    if t.op == "ln" and is_c(t.args[0]):
        return 1 if cval(t.args[0]) > 1 else -1
    return None


def _closed(t):
    """numeric value of a term without inputs, or None"""
    r = _CLOSED.get(t)
    if r is None:
        r = (None,)
        if not t.fbv and t.op in ("c", "ln", "exp", "sqrt", "sig", "lin", "mon"):
            if t.op == "c" or all(_closed(k) is not None for k in kids(t)):
                lo, hi = Ranges({})(t)
                if abs(lo) != PI and abs(hi) != PI and hi - lo <= 1e-9 * max(1.0, abs(lo)):
                    r = (0.5 * (lo + hi),)
        _CLOSED[t] = r
    return r[0]


_CLOSED = {}


def linform(t):
    """(constant, {monomial: coefficient}) with closed factors evaluated; a monomial is a tuple of (atom, exponent)"""
    p = expand(t, 400)
    c0, d, top, mag = 0.0, {}, 0.0, {}
    for m, v in p.items():
        c = float(v)
        rest = []
        for k, e in m:
            x = _closed(k)
            if x is not None and x != 0:
                c *= x**e
            else:
                rest.append((k, e))
        if rest:
            rest = tuple(rest)
            d[rest] = d.get(rest, 0.0) + c
            mag[rest] = max(mag.get(rest, 0.0), abs(c))
        else:
            c0 += c
            top = max(top, abs(c))
    # what remains of terms that cancel is rounding
    return (c0 if abs(c0) > 1e-12 * top else 0.0), {m: c for m, c in d.items() if abs(c) > 1e-12 * mag[m]}


def fold_sign(t):
    """sign of a term that is constant once closed factors are evaluated"""
    try:
        c0, d = linform(t)
    except TooBig:
        return None
    if d:
        return None
    return 0 if abs(c0) < 1e-11 else (1 if c0 > 0 else -1)


def settle(t, env):
    """t with the conditionals decided in env replaced by the branch taken"""
    memo = {}

    def r(u):
        o = memo.get(u)
        if o is not None:
            return o
        if u.op in ("where", "min", "max") and not u.fbv:
            if u.op == "where":
                c, x, y = u.args
            else:
                x, y = u.args
                c = _lt0(sub(x, y))
                if u.op == "max":
                    x, y = y, x
            try:
                v = ev(c, env)
            except NeedSplit:
                v = None
            o = r(x) if v == V1 else (r(y) if v == V0 else rebuild(u, r))
        else:
            o = rebuild(u, r)
        memo[u] = o
        return o

    return r(t)


def feasible(steps, env=None):
    """emptiness test of the polyhedron of a case: its sign conditions as linear constraints over monomials (False only when empty)"""
    cons, cols = [], {}
    try:
        m = _setmap(steps)
        todo = []
        for kind, d, s in steps:
            if kind == "sign":
                d = subst(d, m) if m else d
                if s and is_inttrm(d):
                    d, s = sub(d if s > 0 else neg(d), ONE), 2
                todo.append((d, s))
            elif kind == "set" and d.op != "unsolved":
                todo.append((subst(sub(d, s), {k: v for k, v in m.items() if k is not d}), 0))
        for d, s in todo:
            if any(x.op in ("inf", "nan") for x in subterms(d)):
                continue
            cons.append((*linform(settle(d, env) if env is not None else d), s))
    except (TooBig, RecursionError):
        return True
    mons = set()
    for _, d, _ in cons:
        mons |= set(d)
    for mo in mons:
        cols[mo] = len(cols)
    n = len(cols)
    for mo in mons:
        if all(known_sign(k) == 1 for k, e in mo):
            cons.append((0.0, {mo: 1.0}, 1))
        if len(mo) == 1 and mo[0][1] == 1:
            k = mo[0][0]
            if k.op == "sig":
                cons.append((1.0, {mo: -1.0}, 1))
            if k.op == "sym" and isinstance(k.args[0], str) and k.args[0].startswith("size:"):
                cons.append((-1.0, {mo: 1.0}, 2))
            if k.op in ("min", "max"):
                for a in k.args:
                    try:
                        c0, d = linform(sub(a, k) if k.op == "min" else sub(k, a))
                    except TooBig:
                        continue
                    if set(d) <= mons:
                        cons.append((c0, d, 2))
    if not cons or n > 200:
        return True
    from scipy.optimize import linprog

    A, b, E, f = [], [], [], []
    # columns in units that keep the coefficients of a row comparable
    unit = {}
    for _ in range(4):
        for c0, d, s in cons:
            sc = max([abs(c0)] + [abs(v) * unit.get(mo, 1.0) for mo, v in d.items()])
            for mo, v in d.items():
                if v:
                    unit.setdefault(("n", mo), []).append(sc / abs(v))
        new = {mo: min(max(math.exp(sum(map(math.log, unit[("n", mo)])) / len(unit[("n", mo)])), 1e-30), 1e30) for mo in cols if ("n", mo) in unit}
        if all(0.5 < new[mo] / unit.get(mo, 1.0) < 2 for mo in new):
            unit = new
            break
        unit = new
    cons = [(c0, {mo: v * unit.get(mo, 1.0) for mo, v in d.items()}, s) for c0, d, s in cons]
    for c0, d, s in cons:
        sc = max([abs(c0)] + [abs(v) for v in d.values()])
        if sc == 0:
            if s in (1, -1):
                return False
            continue
        row = [0.0] * (n + 1)
        for mo, v in d.items():
            row[cols[mo]] = v / sc
        if s == 0:
            E.append(row)
            f.append(-c0 / sc)
        else:
            q = -1.0 if s > 0 else 1.0  # s*(row.x + c0) >= eps
            row = [q * x for x in row]
            row[n] = 1.0 if s != 2 else 0.0
            A.append(row)
            b.append(-q * c0 / sc)
    obj = [0.0] * n + [-1.0]
    try:
        r = linprog(obj, A_ub=A or None, b_ub=b or None, A_eq=E or None, b_eq=f or None, bounds=[(None, None)] * n + [(None, 1.0)], method="highs")
    except Exception:
        return True
    if r.status == 2:
        return False
    if r.status == 0:
        return -r.fun > 1e-9
    return True


def cases(ts, facts=(), fn=None, limit=MAXCASES):
    """Enumerate the consistent sign assignments of the guards of terms ts.
    Calls fn(env, case) on each; stops when fn returns False.
    facts: list of ("sign", d, s) assumed."""
    stack = [list(facts)]
    n = 0
    t0 = time.time()
    while stack:
        steps = stack.pop()
        n += 1
        if n > limit or time.time() - t0 > MAXTIME:
            raise TooManyCases()
        env = _mkenv(steps)
        if env is None:
            continue
        m = env.submap
        tv = [subst(t, m) for t in ts] if m else ts
        try:
            for t in tv:
                ev(t, env)
        except NeedSplit as e:
            if e.kind == "batom":
                stack.append(steps + [("batom", e.term, 1)])
                none = [("batom", e.term, 0)]
                k = _count_of(e.term)
                if k is not None:
                    # nothing is selected
                    g = gv(k)
                    none += [("set", u, ZERO) for u in {u for t in tv for u in subterms(t) if u.op == "red"} if not u.fbv and gv(u) == g]
                stack.append(steps + none)
                continue
            ks = known_sign(e.term)
            if ks is None and len(e.term.args) and e.term.op in ("lin", "mon"):
                ks = fold_sign(e.term)
            if ks is not None:
                stack.append(steps + [("sign", e.term, ks)])
                continue
            if _boundguards([e.term]):
                # the same quantity, its conditionals under a binder written another way
                rep = None
                for kind, d, s in steps:
                    if kind == "sign" and _boundguards([d]):
                        d = subst(d, m) if m else d
                        for q in (1, -1):
                            if lanes_equal([e.term, scale(q, d)], env, Case(steps, False), quick=True):
                                rep = s * q
                                break
                    if rep is not None:
                        break
                if rep is not None:
                    stack.append(steps + [("sign", e.term, rep)])
                    continue
            sol = _solve_zero(e.term, env)
            if sol is not None and not any(k == "set" and d is sol[0] for k, d, _ in steps):
                same = [sol[0]]
                if sol[0].op == "red":
                    g = gv(sol[0])
                    same += [u for u in {u for t in tv for u in subterms(t) if u.op == "red"} if u is not sol[0] and not u.fbv and gv(u) == g]
                stack.append(steps + [("set", u, sol[1]) for u in same])
            else:
                stack.append(steps + [("sign", e.term, 0), ("set", mk("unsolved", e.term), ZERO)])
            for s in (1, -1):
                stack.append(steps + [("sign", e.term, s)])
            continue
        unsolved = any(k == "set" and d.op == "unsolved" for k, d, _ in steps)
        if fn(env, Case(steps, unsolved), tv) is False:
            return
    return


class TooManyCases(Exception):
    pass


class Lane:
    """a numeric point: decides the guards that depend on a bound index, so that conditionals under a binder are compared branch by branch"""

    def __init__(self, seed, force=None, keyenvs=()):
        self.seed, self.force = seed, force or {}
        self.keyenvs = keyenvs
        self.keys = {}
        self.memo = {}
        self.seen = {}

    def bits(self, *parts):
        return _h("lane", self.seed, *parts)[0]

    def truth(self, v):
        return self.bits("b", v) % 100 < 60

    def key(self, d):
        v = self.keys.get(d)
        if v is None:
            bv = tuple((h, 0) for h in sorted(d.fbv))
            v = self.keys[d] = tuple(ev(d, e, bv)[-1] for e in self.keyenvs)
        return v

    def sign(self, d, env, bv):
        k = self.key(d) if self.keyenvs else None
        if self.force:
            f = self.force.get(k)
            if f is None:
                f = self.force.get(tuple((P[-1] - x) % P[-1] for x in k))
                if f is not None:
                    f = -f
            if f is not None:
                return f
        x = self.num(d, env, bv)
        s = 0 if abs(x) < 1e-9 else (1 if x > 0 else -1)
        if k is not None:
            self.seen.setdefault(k, set()).add(s)
        return s

    def atom(self, v):
        b = self.bits("a", v)
        u = (b >> 8) % 1000003 / 1000003.0
        return ((0.0, 1.0), (-1.0, 1.0), (0.0, 15.0), (-5.0, 15.0), (10.0, 16.0), (-40.0, 40.0))[b % 6][0] + u * (1.0, 2.0, 15.0, 20.0, 6.0, 80.0)[b % 6]

    def num(self, t, env, bv):
        fb = t.fbv
        key = (t.id, tuple(p for p in bv if p[0] in fb) if fb else ())
        r = self.memo.get(key)
        if r is None:
            try:
                r = self._num(t, env, bv)
            except (OverflowError, ValueError, ZeroDivisionError):
                r = 1e30
            if r != r or abs(r) > 1e30:
                r = 1e30 if r != r or r > 0 else -1e30
            self.memo[key] = r
        return r

    def _num(self, t, env, bv):
        n = lambda u: self.num(u, env, bv)
        op = t.op
        if op == "c":
            return float(t.args[0])
        if op == "b":
            return float(t.args[0])
        if op == "lin":
            return float(t.args[0]) + sum(float(c) * n(k) for k, c in t.args[1])
        if op == "mon":
            r = 1.0
            for k, e in t.args[0]:
                r *= n(k) ** e
            return r
        if op == "exp":
            return math.exp(min(n(t.args[0]), 700.0))
        if op == "sig":
            return 1.0 / (1.0 + math.exp(min(-n(t.args[0]), 700.0)))
        if op == "ln":
            return math.log(abs(n(t.args[0])) + 1e-300)
        if op == "sqrt":
            return math.sqrt(abs(n(t.args[0])))
        if op == "inf":
            return 1e30
        if op in ("min", "max"):
            return (min if op == "min" else max)(n(t.args[0]), n(t.args[1]))
        if op == "where":
            c = t.args[0]
            v = ev(c, env, bv)
            return n(t.args[1]) if v == V1 else n(t.args[2])
        if op in ("lt", "eq", "and", "not", "batom"):
            return 1.0 if ev(t, env, bv) == V1 else 0.0
        if op == "red":
            rop, size, h, body = t.args
            vals = [self.num(body, env, bv + ((h, k),)) for k in range(NSAMP)]
            if rop == "sum":
                return sum(vals) / NSAMP * n(size)
            if rop in ("max", "min"):
                return max(vals) if rop == "max" else min(vals)
        if op == "bv":
            return float(self.bits("bv", dict(bv)[t.args[0]]) % 24)
        if op == "fn" and t.args[0] == "floor":
            return float(math.floor(n(t.args[1])))
        if op == "fn" and t.args[0] == "int":
            return float(int(n(t.args[1])))
        v = ev(t, env, bv)[-1]
        if op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("size:"):
            return float(24 + self.bits("n", v) % 40)
        if op == "fn" and t.args[0] in ("uniform", "truncnorm.cdf"):
            return self.bits("u", v) % 1000003 / 1000003.0
        return self.atom(v)


NLANES = 10


def _boundguards(ts):
    seen = set()
    for t in ts:
        for u in subterms(t, seen):
            if u.fbv and u.op in ("lt", "eq", "min", "max", "batom"):
                return True
    return False


def lanes_equal(tv, env, case, quick=False):
    """tv[0] and tv[1] agree at every sampled point of the case, each guard under a binder seen on both sides"""
    if not _boundguards(tv):
        return False
    if quick:
        e = Env(split=False)
        e.signs, e.batoms, e.lane = env.signs, env.batoms, Lane(("q", 0))
        if ev(tv[0], e)[-1] != ev(tv[1], e)[-1]:
            return False
    conds = []
    for kind, d, s in case.conds:
        if kind == "sign":
            conds.append((subst(d, env.submap) if env.submap else d, s))

    def mk_env(seed, force=None, keyenvs=()):
        e = Env(split=False)
        e.signs, e.batoms = env.signs, env.batoms
        e.lane = Lane(seed, force, keyenvs)
        return e

    keyenvs = tuple(mk_env(("k", j)) for j in range(2))

    def holds(e):
        n = 0
        for d, s in conds:
            x = e.lane.num(d, e, ())
            if (x > 0) - (x < 0) == s:
                n += 1
        return n

    seen = {}
    t0 = time.time()
    for i in range(NLANES):
        best = None
        for j in range(12 if conds else 1):
            e = mk_env((i, j), None, keyenvs)
            try:
                h = holds(e)
            except NeedSplit:
                return False
            if best is None or h > best[0]:
                best = (h, e)
            if h == len(conds):
                break
        e = best[1]
        e.cache = {}
        if ev(tv[0], e)[-1] != ev(tv[1], e)[-1]:
            return False
        for k, v in e.lane.seen.items():
            seen.setdefault(k, set()).update(v)
        if time.time() - t0 > 10:
            return False
    force = []
    for k, v in seen.items():
        n = seen.get(tuple((P[-1] - x) % P[-1] for x in k), ())
        v = v | {-x for x in n}
        force += [(k, s) for s in (-1, 1) if s not in v]
    if len(force) > 60:
        return False
    for k, s in force:
        for j in range(2):
            e = mk_env(("f", j), {k: s}, keyenvs)
            if ev(tv[0], e)[-1] != ev(tv[1], e)[-1]:
                return False
    return True


def _thresholds(a, b):
    """for guards under a binder found in one of two terms only: rewritings that put their first input on the threshold"""
    ga, gb = [{u for u in subterms(t) if u.fbv and u.op in ("lt", "eq")} for t in (a, b)]
    n = 0
    for u in sorted(ga ^ gb, key=lambda u: u.id):
        _, dd = as_lin(u.args[0])
        for k, c in sorted(dd.items(), key=lambda p: p[0].id):
            if k.op != "sym" or is_inttrm(k) or not any(isinstance(x, T) and x.op == "bv" for x in k.args[1:]):
                continue
            bvs = {x for x in k.args[1:] if isinstance(x, T) and x.op == "bv"}
            e = scale(-1 / c, sub(u.args[0], scale(c, k)))
            es = subterms(e)
            if any(x.op in ("red", "lam", "where", "min", "max", "lt", "eq") or x.op == "sym" and x.args[0] == k.args[0] or x.op == "bv" and x not in bvs for x in es):
                continue
            if known_sign(k) is not None and known_sign(e) != known_sign(k):
                continue
            n += 1
            if n > 4:
                return
            yield k, e


def _onto(t, k, e, memo):
    """t with the input k = x(bv..) given the value e(bv..) at every position"""
    r = memo.get(t)
    if r is None:
        if t.op == "sym" and t.args[0] == k.args[0] and len(t.args) == len(k.args):
            m, ok = {}, True
            for p, q in zip(k.args[1:], t.args[1:]):
                if isinstance(p, T) and p.op == "bv":
                    m[p] = _onto(q, k, e, memo)
                elif p is not q:
                    ok = False
            r = subst(e, m) if ok else t
        else:
            r = rebuild(t, lambda x: _onto(x, k, e, memo))
        memo[t] = r
    return r


def equal(a, b, facts=()):
    """(True, None) or (False, Case): are a and b the same value for every input?"""
    r = _equal(a, b, facts)
    if r[0] and a is not b and _boundguards((a, b)) and gv(a) != gv(b):
        for k, e in _thresholds(a, b):
            memo = {}
            f2 = [tuple(_onto(x, k, e, memo) if isinstance(x, T) else x for x in f) for f in facts]
            q = _equal(_onto(a, k, e, memo), _onto(b, k, e, memo), f2)
            if not q[0]:
                return False, Case([("sign", sub(k, e), 0)] + list(q[1].conds), q[1].unsolved)
    return r


def _equal(a, b, facts=()):
    if a is b:
        return True, None
    if gv(a) == gv(b):
        return True, None
    if a.op == "nan" or b.op == "nan":
        return a.op == b.op, Case([], False)
    bad = []

    def chk(env, case, tv):
        if ev(tv[0], env)[-1] != ev(tv[1], env)[-1]:
            if lanes_equal(tv, env, case):
                return True
            definite = const_at(tv[0], env) and const_at(tv[1], env)
            if case.unsolved and not (is_bool(a) or is_bool(b)) and not definite:
                return True
            if not feasible(case.conds, env):
                return True
            case.unsolved = case.unsolved and not definite
            bad.append(case)
            return False
        return True

    def const_at(t, env):
        return ev(t, env)[-1] in consts

    consts = {gv(c) for x in (a, b) for c in subterms(x) if is_c(c)} | {gv(ZERO), gv(ONE)}

    try:
        cases([a, b], facts, chk)
    except TooManyCases:
        return gv(a) == gv(b), Case([], True)
    return (not bad), (bad[0] if bad else None)


def implied(c, facts=()):
    """is boolean c true in every case consistent with facts"""
    bad = []

    def chk(env, case, tv):
        if ev(tv[0], env) != V1 and feasible(case.conds, env):
            bad.append(case)
            return False

    cases([c], facts, chk)
    return (not bad), (bad[0] if bad else None)


def depends(t, leaf):
    """semantic dependence: does the value number of t change with leaf"""
    if not depends_struct(t, leaf):
        return False
    e = Env(leaf={leaf: _h("alt", leaf.id)})
    return ev(t, e)[-1] != gv(t)


# ---------------------------------------------------------------- derivative
def deriv(t, x, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = _deriv(t, x, memo)
        memo[t] = r
    return r


class NoDeriv(Exception):
    pass


def _deriv(t, x, memo):
    if t is x:
        return ONE
    if not depends_struct(t, x):
        return ZERO
    D = lambda u: deriv(u, x, memo)
    op = t.op
    if op == "lin":
        return add(*[scale(c, D(k)) for k, c in t.args[1]])
    if op == "mon":
        out = []
        for i, (k, e) in enumerate(t.args[0]):
            dk = D(k)
            if dk is ZERO:
                continue
            rest = [ipow(b, f) for j, (b, f) in enumerate(t.args[0]) if j != i]
            out.append(mul(C(e), ipow(k, e - 1), dk, *rest))
        return add(*out) if out else ZERO
    a = t.args
    if op == "exp":
        return mul(t, D(a[0]))
    if op == "ln":
        return div(D(a[0]), a[0])
    if op == "sqrt":
        return div(D(a[0]), scale(2, t))
    if op == "sig":
        return mul(t, sub(ONE, t), D(a[0]))
    if op == "where":
        return where(a[0], D(a[1]), D(a[2]))
    if op == "min":
        return where(lt(a[0], a[1]), D(a[0]), D(a[1]))
    if op == "max":
        return where(lt(a[0], a[1]), D(a[1]), D(a[0]))
    if op in ("lt", "eq", "not", "and", "b", "batom"):
        return ZERO
    if op == "red" and a[0] == "sum":
        return mk("red", "sum", a[1], a[2], D(a[3]))
    if op == "fn":
        if a[0] == "truncnorm.cdf" and len(a) == 6:
            if not any(depends_struct(q, x) for q in a[2:]):
                return mul(atom("truncnorm.pdf", *a[1:]), D(a[1]))
        if a[0] == "stop_gradient":
            return ZERO
    raise NoDeriv("no derivative rule for " + show(t, 3))


# ------------------------------------------------------------------ expansion
class TooBig(Exception):
    pass


def expand(t, limit=4000):
    """polynomial over atoms: {((atom,exp),...): coef}"""
    op = t.op
    if op == "c":
        return {(): t.args[0]} if t.args[0] else {}
    if op == "lin":
        r = {}
        if t.args[0]:
            r[()] = t.args[0]
        for k, c in t.args[1]:
            for m, v in expand(k, limit).items():
                r[m] = r.get(m, 0) + c * v
        return {m: v for m, v in r.items() if v}
    if op == "mon":
        r = {(): Fr(1)}
        for k, e in t.args[0]:
            if e < 0:
                f = {((k, e),): Fr(1)}
                r = _pmul(r, f, limit)
            else:
                f = expand(k, limit)
                for _ in range(e):
                    r = _pmul(r, f, limit)
        return r
    return {((t, 1),): Fr(1)}


def _mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda p: p[0].id))


def _pmul(a, b, limit):
    if len(a) * len(b) > limit * 20:
        raise TooBig()
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = _mmul(m, n)
            r[k] = r.get(k, 0) + v * w
    r = {m: v for m, v in r.items() if v}
    if len(r) > limit:
        raise TooBig()
    return r


# ------------------------------------------------------------------ intervals
NI, PI = -math.inf, math.inf


def _imul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return (min(ps), max(ps))


def _iadd(a, b):
    lo = a[0] + b[0] if not (a[0] == NI or b[0] == NI) else NI
    hi = a[1] + b[1] if not (a[1] == PI or b[1] == PI) else PI
    return (lo, hi)


def _ipow(a, e):
    if e < 0:
        lo, hi = a
        if lo > 0 or hi < 0:
            r = (1 / hi if abs(hi) != PI else 0.0, 1 / lo if abs(lo) != PI else 0.0)
        elif lo == 0 and hi > 0:
            r = (1 / hi if hi != PI else 0.0, PI)
        elif hi == 0 and lo < 0:
            r = (NI, 1 / lo if lo != NI else 0.0)
        else:
            return (NI, PI)
        return _ipow(r, -e)
    if e == 0:
        return (1.0, 1.0)
    lo, hi = a
    if e % 2 == 1:
        return (lo**e, hi**e)
    if lo >= 0:
        return (lo**e, hi**e)
    if hi <= 0:
        return (hi**e, lo**e)
    return (0.0, max(lo**e, hi**e))


class Ranges:
    """interval domain; env: leaf -> (lo, hi)"""

    def __init__(self, env, tol=1e-12):
        self.env = env
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.env.get(t)
            if r is None:
                r = self._r(t)
            self.memo[t] = r
        return r

    def _r(self, t):
        op = t.op
        if op == "c":
            v = float(t.args[0])
            return (v, v)
        if op == "b":
            return (float(t.args[0]),) * 2
        if op == "inf":
            return (PI, PI)
        if op == "exp":
            lo, hi = self(t.args[0])
            f = lambda v: 0.0 if v == NI else (PI if v > 700 else math.exp(v))
            return (f(lo), f(hi))
        if op == "ln":
            lo, hi = self(t.args[0])
            f = lambda v: NI if v <= 0 else (PI if v == PI else math.log(v))
            return (f(lo), f(hi))
        if op == "sqrt":
            lo, hi = self(t.args[0])
            return (math.sqrt(max(lo, 0)), math.sqrt(max(hi, 0)) if hi != PI else PI)
        if op == "sig":
            lo, hi = self(t.args[0])
            f = lambda v: 0.0 if v < -700 else (1.0 if v > 700 else 1 / (1 + math.exp(-v)))
            return (f(lo), f(hi))
        if op == "min":
            a, b = self(t.args[0]), self(t.args[1])
            return (min(a[0], b[0]), min(a[1], b[1]))
        if op == "max":
            a, b = self(t.args[0]), self(t.args[1])
            return (max(a[0], b[0]), max(a[1], b[1]))
        if op == "where":
            a, b = self(t.args[1]), self(t.args[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if op in ("lt", "eq", "and", "not", "batom"):
            return (0.0, 1.0)
        if op in ("lin", "mon"):
            return self._poly(t)
        if op == "fn":
            n = t.args[0]
            if n == "uniform":
                return (0.0, 1.0)
            if n == "truncnorm.cdf":
                return (0.0, 1.0)
            if n == "truncnorm.pdf":
                return (0.0, PI)
            if n == "interp" and t.args[3].op == "lam":
                lo, hi = self(t.args[3].args[2])
                return (lo, hi)
            if n == "linspace":
                a, b = self(t.args[1]), self(t.args[2])
                return (min(a[0], b[0]), max(a[1], b[1]))
        if op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("size:"):
            return (1.0, PI)
        if op == "red" and t.args[0] in ("max", "min", "mean"):
            return self(t.args[3])
        return (NI, PI)

    def _naive(self, t):
        if t.op == "lin":
            v = float(t.args[0])
            r = (v, v)
            for k, c in t.args[1]:
                c = float(c)
                r = _iadd(r, _imul(self(k), (c, c)))
            return r
        r = (1.0, 1.0)
        for k, e in t.args[0]:
            r = _imul(r, _ipow(self(k), e))
        return r

    def _poly(self, t):
        naive = self._naive(t)
        try:
            p = expand(t, 600)
        except TooBig:
            return naive
        atoms = {}
        for m in p:
            for k, e in m:
                if e != 1:
                    return naive
                atoms[k] = 1
        if len(atoms) > 12:
            return naive
        al = sorted(atoms, key=lambda k: k.id)
        rs = [self(k) for k in al]
        if any(abs(x) == PI for r in rs for x in r):
            return naive
        ix = {k: i for i, k in enumerate(al)}
        mons = [(float(v), [ix[k] for k, _ in m]) for m, v in p.items()]
        lo, hi = PI, NI
        for bits in range(1 << len(al)):
            val = 0.0
            for v, ks in mons:
                for i in ks:
                    v *= rs[i][(bits >> i) & 1]
                val += v
            lo, hi = min(lo, val), max(hi, val)
        return (max(lo, naive[0]), min(hi, naive[1]))


def fval(t):
    """float value of a closed constant term (or None)"""
    r = Ranges({})(t)
    if leaves(t):
        return None
    if abs(r[1] - r[0]) <= 1e-9 * max(1.0, abs(r[0])):
        return 0.5 * (r[0] + r[1])
    return None


# -------------------------------------------------------------------- display
def show(t, depth=7):
    if depth <= 0:
        return "…"
    op = t.op
    s = lambda u: show(u, depth - 1)
    if op == "c":
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return "%.12g" % f
    if op == "b":
        return str(bool(t.args[0]))
    if op == "inf":
        return "inf"
    if op == "sym":
        if len(t.args) > 1:
            return "%s[%s]" % (t.args[0], ",".join(s(a) if isinstance(a, T) else str(a) for a in t.args[1:]))
        return str(t.args[0])
    if op == "idx":
        return t.args[0]
    if op == "bv":
        return "k%d" % t.args[0]
    if op == "lin":
        out = []
        if t.args[0]:
            out.append(show(C(t.args[0])))
        for k, c in t.args[1]:
            out.append(s(k) if c == 1 else ("-" + s(k) if c == -1 else show(C(c)) + "*" + s(k)))
        return "(" + " + ".join(out) + ")"
    if op == "mon":
        return "*".join(s(k) if e == 1 else s(k) + "^" + str(e) for k, e in t.args[0])
    if op == "lt":
        return "(" + s(t.args[0]) + " < 0)"
    if op == "eq":
        return "(" + s(t.args[0]) + " == 0)"
    if op in ("fn", "batom"):
        return "%s(%s)" % (t.args[0], ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args[1:]))
    if op == "red":
        return "%s_{k%d<%s}(%s)" % (t.args[0], t.args[2], s(t.args[1]), s(t.args[3]))
    if op == "lam":
        return "[%s for k%d<%s]" % (s(t.args[2]), t.args[1], s(t.args[0]))
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, T) else str(a) for a in t.args))
