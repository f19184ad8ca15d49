"""Sign domain on the rational normal form.

A term built from + * / exp sigmoid is rewritten as N/D with N, D polynomials
over atoms; sigmoid(y) becomes 1/(1+exp(-y)).  When every coefficient of N and
D has one sign over atoms known to be positive / non-negative, so has the term.
"""
from fractions import Fraction as Fr

from . import terms as tm
from .terms import T, expand, TooBig

POS, NONNEG, NEG, NONPOS, ZERO, UNK = "pos", "nonneg", "neg", "nonpos", "zero", None


def _lead(y):
    c0, d = tm.as_lin(y)
    return min(d.items(), key=lambda p: p[0].id)[1]


def _expatom(y):
    """atom E > 0 with exp(y) = E or 1/E"""
    e = tm.exp(y)
    if e.op == "exp":
        c0, d = tm.as_lin(e.args[0])
        if _lead(e.args[0]) < 0:
            return tm.exp(tm.neg(e.args[0])), -1
        return e, 1
    return e, 1


def pmul(a, b, lim=6000):
    return tm._pmul(a, b, lim)


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


P1 = {(): Fr(1)}


def atomp(t, e=1):
    return {((t, e),): Fr(1)}


def rat(t, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = _rat(t, memo)
        memo[t] = r
    return r


def _rat(t, memo):
    op = t.op
    if op == "c":
        return ({(): t.args[0]} if t.args[0] else {}), P1
    if op == "lin":
        N, D = ({(): t.args[0]} if t.args[0] else {}), P1
        for k, c in t.args[1]:
            n, d = rat(k, memo)
            n = {m: v * c for m, v in n.items()}
            if d == D:
                N = padd(N, n)
            elif d == P1:
                N = padd(N, pmul(n, D))
            elif D == P1:
                N, D = padd(pmul(N, d), n), d
            else:
                N, D = padd(pmul(N, d), pmul(n, D)), pmul(D, d)
        return N, D
    if op == "mon":
        N, D = P1, P1
        for k, e in t.args[0]:
            n, d = rat(k, memo)
            if e < 0:
                n, d = d, n
            for _ in range(abs(e)):
                N, D = pmul(N, n), pmul(D, d)
        return N, D
    if op == "sig":
        a, s = _expatom(tm.neg(t.args[0]))
        if a.op != "exp":
            n, d = rat(a, memo)
            return d, padd(d, n)
        if s == 1:
            return P1, padd(P1, atomp(a))
        return atomp(a), padd(P1, atomp(a))
    if op == "exp":
        a, s = _expatom(t.args[0])
        if a.op != "exp":
            return atomp(t), P1
        return (atomp(a), P1) if s == 1 else (P1, atomp(a))
    return atomp(t), P1


def _asign(a, assume):
    if a in assume:
        return assume[a]
    s = tm.known_sign(a)
    if s == 1:
        return POS
    if a.op == "exp":
        return POS
    if a.op in ("min", "max", "where"):
        q = [sign(x, assume) if x.op not in ("inf", "ninf") else UNK for x in a.args[-2:]]
        if a.op == "max" and POS in q:
            return POS
        if a.op == "min" and NEG in q:
            return NEG
        if q[0] == q[1]:
            return q[0]
        if a.op == "max" and (NONNEG in q or ZERO in q):
            return NONNEG
        if a.op == "min" and (NONPOS in q or ZERO in q):
            return NONPOS
        if set(q) <= {POS, NONNEG, ZERO}:
            return NONNEG
        if set(q) <= {NEG, NONPOS, ZERO}:
            return NONPOS
    return UNK


def psign(p, assume):
    if not p:
        return ZERO
    signs = set()
    strict = False
    for m, v in p.items():
        s = 1 if v > 0 else -1
        st = True
        for a, e in m:
            q = _asign(a, assume)
            if e % 2 == 0:
                if q not in (POS, NEG):
                    st = False
                continue
            if q == POS:
                pass
            elif q == NONNEG:
                st = False
            elif q == NEG:
                s = -s
            elif q == NONPOS:
                s = -s
                st = False
            else:
                return UNK
        signs.add(s)
        strict = strict or st
    if len(signs) != 1:
        return UNK
    s = signs.pop()
    if s > 0:
        return POS if strict else NONNEG
    return NEG if strict else NONPOS


def sign(t, assume=None):
    """sign of t under the assumptions {atom: sign}"""
    try:
        N, D = rat(t)
    except TooBig:
        return UNK
    n, d = psign(N, assume or {}), psign(D, assume or {})
    if d not in (POS, NEG) or n is UNK:
        return UNK
    if n == ZERO:
        return ZERO
    if d == POS:
        return n
    return {POS: NEG, NEG: POS, NONNEG: NONPOS, NONPOS: NONNEG}[n]


def nonneg(t, assume=None):
    return sign(t, assume) in (POS, NONNEG, ZERO)


def pos(t, assume=None):
    return sign(t, assume) == POS
