"""Monte Carlo population model: relations, randomness, mixture, moments, losses."""
import itertools

from ..core import *
from .. import posy
from .popparams import CSP, POP, pop_bounds, pop_params

FIELDS = ("logm0", "logtc", "early_index", "late_index")
ALL = FIELDS + ("t_peak",)


class Kind:
    def __init__(self, name, mod, single, pop, mcpop, suffix):
        self.name, self.mod, self.single, self.pop, self.mcpop, self.suffix = name, POP + "." + mod, single, pop, mcpop, suffix


CEN = Kind("centrals", "mc_bimod_cens", "mc_diffmah_params_singlecen", "mc_cenpop", "mc_diffmah_cenpop", "")
SAT = Kind("satellites", "mc_bimod_sats", "mc_diffmah_params_singlesat", "mc_satpop", "mc_diffmah_satpop", "_sats")
KINDS = (CEN, SAT)
BRANCHES = (("early", "_early", "_alpha"), ("late", "_late", "_beta"))
DRAWS = ("uniform", "normal", "mvn0", "mvn", "randint", "choice", "bernoulli", "draw")


def draws_in(t):
    return [s for s in tm.subterms(t) if s.op in ("fn", "batom") and (s.args[0] in DRAWS or s.args[0].startswith("draw."))]


def no_scatter(v):
    """the value with the Gaussian scatter switched off"""
    a = V.as_arr(v)
    out = {}
    for k, t in a.data.items():
        z = {s: tm.ZERO for s in tm.subterms(t) if s.op == "fn" and s.args[0] == "mvn0"}
        out[k] = tm.subst(t, z) if z else t
    return Arr(a.axes, out)


def single(ctx, K, t_peak=True):
    """mc_diffmah_params_single* for one halo: (early, late, frac)"""
    pp = pop_params(ctx)
    args = [pp, sca("lgm"), sca("tobs"), sca("key"), sca("lgt0")] + ([sca("tpk")] if t_peak else [])
    name = "%s.%s(%s)" % (K.mod.split(".")[-1], K.single, "t_peak given" if t_peak else "t_peak drawn")

    def f():
        it = ctx.interp()
        r = ctx.run(it, ctx.get(K.mod, K.single), *args)
        if not isinstance(r, (tuple, list)) or len(r) != 3:
            raise Undecided("result is not an (early, late, fraction) triple")
        return as_nt(r[0]), as_nt(r[1]), r[2], it

    return pp, ctx.ob(name + " is analysable", f)


def means_of(ctx, K, pp, tp, i, axes=()):
    _, tag, itag = BRANCHES[i]
    v = (lambda n: vec(n, *axes)) if axes else sca
    return ctx.spec("pop.means", pp, v("lgm"), v("tobs"), tp, tag, itag, K.suffix)


def deps(t, names):
    return {n for n in names if tm.depends(t, n)}


# ------------------------------------------------------------------------ P11
@prop("P11", 30)
def p11(ctx):
    ctx.rule("value number of each mean growth parameter (scatter switched off) equals its relation: asymptotes, pivots and midpoints named by its own "
             "branch's parameters; semantic dependence set per branch and population")
    for K in KINDS:
        pp, r = single(ctx, K)
        if r is None:
            continue
        syms = {tm.sym("p." + f): f for f in pp.cls.fields}
        inputs = [tm.sym(n) for n in ("lgm", "tobs", "tpk", "lgt0", "key")]
        used = set()
        for i, (bn, tag, itag) in enumerate(BRANCHES):
            want = means_of(ctx, K, pp, sca("tpk"), i)
            for f in FIELDS:
                got = no_scatter(field(r[i], f))
                ctx.same("%s %s: mean %s follows its relation" % (K.name, bn, f), got, want[f])

                def dep(got=got, f=f, want=want):
                    g, w = T0(got), T0(want[f])
                    used.update(syms[s] for s in deps(g, syms))
                    bad = [syms.get(s) or s.args[0] for s in list(syms) + inputs if tm.depends(g, s) and not tm.depends(w, s)]
                    if bad:
                        if imprecise(g):
                            raise Undecided("imprecise")
                        raise Fail("mean %s depends on %s, which it must not" % (f, ", ".join(bad)))
                    miss = [syms.get(s) or s.args[0] for s in list(syms) + inputs if tm.depends(w, s) and not tm.depends(g, s)]
                    if miss:
                        raise Fail("mean %s ignores %s" % (f, ", ".join(miss)))

                ctx.ob("%s %s: mean %s depends on its own parameters and inputs only" % (K.name, bn, f), dep)
            ctx.same("%s %s: a given t_peak is returned unchanged" % (K.name, bn), field(r[i], "t_peak"), sca("tpk"))

    def dead():
        allv = set()
        syms = {}
        for K in KINDS:
            pp, r = single(ctx, K, t_peak=False)
            if r is None:
                raise Undecided("not analysable")
            syms = {tm.sym("p." + f): f for f in pp.cls.fields}
            for x in list(r[0].vals) + list(r[1].vals) + [r[2]]:
                t = T0(x)
                for s in draws_in(t):
                    for a in s.args[1:]:
                        if isinstance(a, T):
                            allv |= {syms[y] for y in tm.leaves(a) if y in syms}
                allv |= {syms[y] for y in deps(t, syms)}
        d = [f for f in syms.values() if f not in allv]
        if d:
            raise Fail("population parameters with no effect on any halo: %s" % ", ".join(d))

    ctx.ob("every population parameter influences the generated population", dead)


# ------------------------------------------------------------------ P12, P13
def key_path(k):
    """(root, [(kind, n, index)...])"""
    path = []
    while k.op == "fn" and k.args[0] in ("split", "foldin"):
        if k.args[0] == "split":
            path.append(("split", k.args[2], k.args[3] if len(k.args) > 3 else None))
        else:
            path.append(("foldin", None, k.args[2]))
        k = k.args[1]
    return k, path[::-1]


def linix(t, batch):
    """t = c + b for a batch variable b (or a constant): (const term, b, size)"""
    bs = {b: s for b, s in batch}
    if t in bs:
        return tm.ZERO, t, bs[t]
    c0, d = tm.as_lin(t)
    for b in bs:
        if b in d:
            if d[b] != 1 or tm.depends_struct(tm.sub(t, b), b):
                return None
            return tm.sub(t, b), b, bs[b]
    if any(tm.depends_struct(t, b) for b in bs):
        return None
    return t, None, None


def may_meet(i, bi, j, bj):
    """can the key indices coincide?  None when unknown"""
    a, b = linix(i, bi), linix(j, bj)
    if a is None or b is None:
        return None
    (ca, va, sa), (cb, vb, sb) = a, b
    d = tm.sub(cb, ca)  # a + x == b + y  <=>  x - y == d ; x in [0,sa), y in [0,sb)
    lo = tm.neg(V.size_term(sb) if vb is not None else tm.ONE)  # exclusive bounds of x - y
    hi = V.size_term(sa) if va is not None else tm.ONE
    above, below = tm.sub(d, hi), tm.sub(lo, d)  # outside when d >= hi or d <= lo
    for q in (above, below):
        if (tm.is_c(q) and tm.cval(q) >= 0) or (not tm.is_c(q) and tm.known_sign(q) == 1):
            return False
    if tm.is_c(d) and tm.cval(d).denominator != 1:
        return False
    # definite when both offsets are equal or the ranges visibly overlap
    for q in (above, below):
        if not tm.is_c(q) and tm.known_sign(q) is None:
            return None
    return True


class Draw:
    def __init__(self, e):
        self.e = e
        self.key = V.to_term(e.args[0])
        self.root, self.path = key_path(self.key)
        self.batch = list(e.batch)
        self.ident = (e.what, self.key, tuple(_t(a) for a in e.args[1:]), tuple(sorted((k, _t(v)) for k, v in (e.kw or {}).items())))


def _t(a):
    try:
        return V.to_term(a)
    except Exception:
        return str(a)


def relation(a, b):
    """'same' / 'prefix' / 'apart' / None for the key sets of two draws"""
    if a.root is not b.root:
        return "apart"
    unknown = False
    for (ka, na, ia), (kb, nb, ib) in zip(a.path, b.path):
        if ka != kb:
            return "apart"
        m = may_meet(ia, a.batch, ib, b.batch)
        if m is False:
            return "apart"
        if m is None:
            unknown = True
    r = "same" if len(a.path) == len(b.path) else "prefix"
    return None if unknown else r


def check_draws(ctx, name, it, roots):
    evs = [e for e in it.events if e.kind == "draw"]
    ds = {}
    for e in evs:
        try:
            d = Draw(e)
        except Unsupported:
            ctx.ob(name + ": draw analysable", lambda: (_ for _ in ()).throw(Undecided("opaque key")))
            continue
        ds.setdefault(d.ident, d)
    ds = list(ds.values())
    ctx.count("draws", len(ds))
    bad_rng = [e for e in it.events if e.kind == "global_rng"]

    def glob():
        if bad_rng:
            raise Fail("uses global random state: %s" % (bad_rng[0].what,), "%s:%s" % bad_rng[0].loc)
        for e in it.events:
            if e.kind == "rngkey":
                raise Fail("creates its own PRNG key", "%s:%s" % e.loc)

    ctx.ob(name + ": no randomness outside the caller's key", glob)
    for n, d in enumerate(ds):
        loc = "%s:%s" % d.e.loc
        label = "%s: draw %d (%s)" % (name, n, d.e.what)

        def root(d=d, loc=loc):
            if d.root.op == "sym" and d.root.args[0].split("[")[0] in roots:
                return
            if d.root.op == "sym":
                raise Fail("the draw uses key %s" % sh(d.key), loc)
            raise Undecided("key root " + sh(d.root))

        ctx.ob(label + " derives from the caller's key", root)

        def fresh(d=d, loc=loc):
            # distinct halos (batch elements) use distinct keys
            ixs = [linix(i, d.batch) for _, _, i in d.path]
            got = {x[1] for x in ixs if x is not None and x[1] is not None}
            rootdep = {b for b, _ in d.batch if tm.depends_struct(d.root, b)}
            for b, s in d.batch:
                if b in got or b in rootdep:
                    continue
                if any(i is not None and tm.depends_struct(i, b) for _, _, i in d.path):
                    raise Undecided("key index not affine in the element index")
                raise Fail("every element of the batch of size %s draws with the same key %s" % (tm.show(V.size_term(s)), sh(d.key)), loc)

        ctx.ob(label + " uses a fresh key per element", fresh)
    for i, a in enumerate(ds):
        for j in range(i + 1, len(ds)):
            b = ds[j]

            def pairwise(a=a, b=b):
                r = relation(a, b)
                locs = "%s:%s and %s:%s" % (a.e.loc + b.e.loc)
                if r == "same":
                    raise Fail("%s and %s draws share the key %s" % (a.e.what, b.e.what, sh(a.key)), locs)
                if r == "prefix":
                    raise Fail("a key used for one draw is split again for another: %s and %s" % (sh(a.key), sh(b.key)), locs)
                if r is None:
                    raise Undecided("key indices not comparable")

            ctx.ob("%s: draws %d and %d use different keys" % (name, i, j), pairwise)
    return ds


def entries(ctx):
    """(label, module, function, args) of every public randomised entry point"""
    pp = pop_params(ctx)
    B = sz("n_bins")
    out = []
    for K in KINDS:
        m = K.mod
        out.append((K.pop, m, K.pop, [pp, vec("t", TT), vec("lgm", H), vec("tobs", H), sca("key"), sca("lgt0")]))
        out.append((K.mcpop, m, K.mcpop, [pp, vec("lgm", H), vec("tobs", H), sca("key"), sca("lgt0")]))
        out.append((K.mcpop + "(t_peak)", m, K.mcpop, [pp, vec("lgm", H), vec("tobs", H), sca("key"), sca("lgt0"), vec("tpk", H)]))
        out.append((K.single, m, K.single, [pp, sca("lgm"), sca("tobs"), sca("key"), sca("lgt0")]))
        out.append((K.name + " predict_mah_moments_singlebin", m, "predict_mah_moments_singlebin",
                    [pp, vec("t", TT), sca("lgm"), sca("tobs"), sca("key"), sca("lgt0")]))
        out.append((K.name + " loss_mah_moments_multibin", POP + (".bimod_cens_fithelp" if K is CEN else ".bimod_sats_fithelp"),
                    "loss_mah_moments_multibin", [pp] + loss_args(B)))
    out.append(("censat loss", POP + ".bimod_censat_fithelp", "loss_mah_moments_multibin_censat", [pp] + censat_args(B)))
    tc = nt(ctx.get(POP + ".t_peak_kernels.tp_pdf_cens_flex", "TPCens_Params"), "p.")
    ts = nt(ctx.get(POP + ".t_peak_kernels.tp_pdf_sats", "TP_Sats_Params"), "p.")
    tk = nt(ctx.get(POP + ".t_peak_kernels.tp_pdf_cens", "TPCens_Params"), "p.")
    out.append(("mc_t_peak_cenpop", POP + ".t_peak_kernels.tp_pdf_cens_flex", "mc_t_peak_cenpop", [tc, vec("lgm", H), vec("tobs", H), sca("key"), sca("t0")]))
    out.append(("mc_tpeak_sats", POP + ".t_peak_kernels.tp_pdf_sats", "mc_tpeak_sats", [ts, sca("key"), vec("lgm", H), vec("tobs", H)]))
    out.append(("mc_tpeak_cens", POP + ".t_peak_kernels.tp_pdf_cens", "mc_tpeak_cens", [tk, sca("key"), vec("lgm", H), vec("tobs", H), sca("t0")]))
    return out


def loss_args(B, s=""):
    return [arr("t" + s, B, TT), vec("lgm" + s, B), vec("tobs" + s, B), sca("key" + s), sca("lgt0"),
            arr("mu" + s, B, TT), arr("std" + s, B, TT), arr("fp" + s, B, TT)]


def censat_args(B):
    c, s = loss_args(B, "_c"), loss_args(B, "_s")
    return c[:3] + s[:3] + [sca("key"), sca("lgt0")] + c[5:] + s[5:]


def run_entry(ctx, e, require=True):
    name, mod, fn, args = e

    def f():
        it = ctx.interp()
        r = ctx.run(it, ctx.get(mod, fn), *args)
        return r, it

    return ctx.ob("%s.%s is analysable" % (mod.split(".")[-1], name), f)


@prop("P12", 60)
def p12(ctx):
    ctx.rule("PRNG-key linearity: the key terms of any two distinct draws of an entry point are not unifiable over the batch indices, none is an ancestor "
             "of another, every key descends from the caller's key and is distinct per batch element")
    for e in entries(ctx):
        r = run_entry(ctx, e)
        if r is None:
            continue
        ds = check_draws(ctx, e[0], r[1], {"key"})

        def some(ds=ds):
            if not ds:
                raise Undecided("no draw found")

        ctx.ob(e[0] + ": draws identified", some)


POPFNS = ("mc_cenpop", "mc_satpop", "mc_diffmah_cenpop", "mc_diffmah_satpop", "mc_t_peak_cenpop", "mc_tpeak_sats", "mc_tpeak_cens")


@prop("P13", 30)
def p13(ctx):
    ctx.rule("each element i of each per-halo output mentions the per-halo inputs at index i only, carries randomness of its own element, and outputs are shaped (n_halos, ...)")
    ix = tm.idx("halo")
    for e in entries(ctx):
        if e[2] not in POPFNS:
            continue
        r = run_entry(ctx, e)
        if r is None:
            continue
        for path, v in flat(r[0]):
            nm = "%s %s" % (e[0], path)

            def one(v=v):
                a = V.as_arr(v)
                if a.axes is None:
                    raise Undecided("opaque")
                want = (H, TT) if path.endswith(("dmhdt", "log_mah")) else (H,)
                if not same_axes(a.axes, want):
                    raise Fail("shape %s, not %s" % (axs(a.axes), axs(want)))
                t = elem(a, ix)
                for s in tm.subterms(t):
                    if s.op == "sym" and s.args[0] in ("lgm", "tobs", "tpk") and len(s.args) > 1:
                        if s.args[1] is not ix:
                            raise Fail("the value of halo i depends on %s of another halo (%s)" % (s.args[0], sh(s)))
                    if s.op == "sym" and s.args[0] == "t" and s.args[1] is not tm.idx("time"):
                        raise Fail("the value at time j depends on another time")
                if imprecise(t):
                    raise Undecided("imprecise: %s" % imprecise(t))
                for s in draws_in(t):
                    if not tm.depends_struct(s, ix):
                        raise Fail("all halos share the random number %s" % sh(s))

            ctx.ob(nm + ": halo i depends on halo i only", one)


def elem(a, ix, jx=None):
    m = {}
    vs = V.ixvars(a.axes)
    if len(vs) > 0:
        m[vs[0]] = ix
    if len(vs) > 1:
        m[vs[1]] = jx or tm.idx("time")
    return tm.subst(a.data[()], m)


def flat(v, path=""):
    if isinstance(v, NT):
        for f, x in zip(v.cls.fields, v.vals):
            yield from flat(x, path + "." + f)
    elif isinstance(v, (tuple, list)):
        for i, x in enumerate(v):
            yield from flat(x, "%s[%d]" % (path, i))
    else:
        yield path, v


# ------------------------------------------------------------------------ P14
@prop("P14", 20)
def p14(ctx):
    ctx.rule("case analysis on one uniform per halo against the early fraction: all five parameters come from the early branch when it is below, from the "
             "late branch when above; histories equal mah_halopop of the returned parameters")
    for K in KINDS:
        for e in [x for x in entries(ctx) if x[2] in (K.pop, K.mcpop)]:
            r = run_entry(ctx, e)
            if r is None:
                continue
            r = r[0]
            pp = e[3][0]
            mp = ctx.ob(e[0] + ": returns mah_params", lambda: as_nt(field(as_nt(r), "mah_params")))
            if mp is None:
                continue
            frac = ctx.spec("pop.frac_early", pp, vec("lgm", H), vec("tobs", H))
            if "frac_early_cens" in r.cls.fields:
                ctx.same(e[0] + ": reported fraction is the model's early fraction", field(r, "frac_early_cens"), frac)
            ix = V.ixvars((H,))[0]
            ft = frac.data[()]

            def sel():
                keys = set()
                for f in FIELDS:
                    t = field(mp, f).data[()]
                    for g in guards(t):
                        for s in draws_in(g):
                            if s.args[0] == "uniform" and not any(s in draws_in(x) for q in [field(mp, "t_peak").data[()]] for x in [q]):
                                keys.add(s)
                if len(keys) != 1:
                    raise Undecided("%d selecting uniforms" % len(keys))
                return keys.pop()

            u = ctx.ob(e[0] + ": one uniform number selects the branch", sel)
            if u is None:
                continue
            for s, i in ((-1, 0), (1, 1)):
                facts = [("sign", tm.sub(u, ft), s)]
                tp = Arr((H,), {(): resolve(V.as_arr(field(mp, "t_peak")).data[()], facts, u)})
                want = means_of(ctx, K, pp, tp, i, (H,))
                for f in FIELDS:

                    def br(f=f, facts=facts, want=want, i=i):
                        g = resolve(field(mp, f).data[()], facts, u)
                        if tm.depends(g, u):
                            if imprecise(g):
                                raise Undecided("imprecise")
                            raise Fail("%s is not decided by comparing the uniform number with the early fraction" % f)
                        g = no_scatter(Arr((H,), {(): g}))
                        ds = [d for d in diff(g, want[f])]
                        if ds:
                            if ds[0][4]:
                                raise Undecided(str(ds[0][4]))
                            raise Fail("%s is not the %s-branch value: %s" % (f, BRANCHES[i][0], sh(ds[0][1])))

                    ctx.ob("%s: %s comes from the %s branch when u %s fraction" % (e[0], f, BRANCHES[i][0], "<" if s < 0 else ">"), br)
                if "mc_early" in r.cls.fields:

                    def flag(facts=facts, s=s):
                        c = tm.as_bool(V.as_arr(field(r, "mc_early")).data[()])
                        v = c if s < 0 else tm.not_(c)
                        if not tm.implied(v, facts)[0]:
                            if imprecise(c):
                                raise Undecided("imprecise")
                            raise Fail("mc_early does not tell which branch was selected: %s" % sh(c))

                    ctx.ob("%s: mc_early is %s when u %s fraction" % (e[0], s < 0, "<" if s < 0 else ">"), flag)
                    b = as_nt(field(r, "mah_params_early" if i == 0 else "mah_params_late"))
                    for f in ALL:

                        def brn(f=f, facts=facts, b=b):
                            ok, case = tm.equal(resolve(field(mp, f).data[()], facts, u), field(b, f).data[()], facts)
                            if not ok:
                                if imprecise(field(mp, f).data[()]):
                                    raise Undecided("imprecise")
                                raise Fail("mah_params.%s differs from the returned %s parameters" % (f, BRANCHES[i][0]))

                        ctx.ob("%s: mah_params.%s equals the returned %s parameters when selected" % (e[0], f, BRANCHES[i][0]), brn)
            if "dmhdt" in r.cls.fields:
                h = ctx.ob(e[0] + ": mah_halopop of the result is analysable",
                           lambda: ctx.call("diffmah", "mah_halopop", mp, vec("t", TT), sca("lgt0")))
                if h is not None:
                    for k, w in ((0, "dmhdt"), (1, "log_mah")):

                        def hist(k=k, w=w):
                            for s in (-1, 1):
                                facts = [("sign", tm.sub(u, ft), s)]
                                hx = tm.sub(u, ft)
                                g = V.as_arr(field(r, w))
                                if not same_axes(g.axes, (H, TT)):
                                    raise Fail("shape of %s is %s" % (w, axs(g.axes)))
                                a, b = resolve(g.data[()], facts, u), resolve(h[k].data[()], facts, u)
                                ok, case = tm.equal(a, b, facts)
                                if not ok:
                                    if imprecise(a) or (case and case.unsolved):
                                        raise Undecided("imprecise")
                                    raise Fail("%s is not the history of the returned parameters" % w)

                        ctx.ob("%s: %s is the history of the returned parameters" % (e[0], w), hist)


def guards(t):
    return [s.args[0] for s in tm.subterms(t) if s.op == "where"] + [s for s in tm.subterms(t) if s.op in ("lt",)]


# -------------------------------------------------------------- P15, P16, P18
TOL = 1e-9


def penv(ctx, **inputs):
    env = {tm.sym("p." + k): v for k, v in pop_bounds(ctx).items()}
    env.update({tm.sym(k): v for k, v in inputs.items()})
    return env


def priv(ctx, mod, name):
    """a private helper: its absence leaves the obligation undecided"""
    try:
        return ctx.get(mod, name)
    except MissingAnchor:
        raise Undecided("private helper %s.%s not found" % (mod, name))


def confined(ctx, name, get, lo, hi, env, ref=None, tol=TOL, where=None):
    def proof():
        a, b = tm.Ranges(env)(T0(get()))
        return a >= lo - tol and b <= hi + tol

    prove(ctx, name, proof, get, ref, where=where, what="range [%g, %g]" % (lo, hi))


@prop("P15", 5)
def p15(ctx):
    ctx.rule("interval analysis of the early-fraction terms over the whole box of allowed parameters and every mass and time")
    B = pop_bounds(ctx)
    env = penv(ctx)
    fec = [v for k, v in B.items() if k.startswith("fec_lgm_y")]

    def tab():
        for k, v in B.items():
            if k.startswith("fec_lgm_y") and not (0 <= v[0] < v[1] <= 1):
                raise Fail("bounds of fraction parameter %s are %s" % (k, v))

    ctx.ob("fraction parameters are bounded inside [0, 1]", tab)
    for K in KINDS:
        pp, r = single(ctx, K)
        if r is None:
            continue
        ref = ctx.spec("pop.frac_early", pp, sca("lgm"), sca("tobs"))
        confined(ctx, "%s: early fraction is a probability" % K.name, lambda: r[2], 0.0, 1.0, env, ref)
        lo, hi = min(x[0] for x in fec), max(x[1] for x in fec)
        confined(ctx, "%s: early fraction stays within its parameters' bounds" % K.name, lambda: r[2], lo, hi, env, ref)
        ctx.same("%s: early fraction follows its relation" % K.name, r[2], ref)
    m = POP + ".ftpt0_cens"
    P = ctx.get(m, "FTPT0_Params")
    fp = nt(P, "f.")
    bb = ctx.prog.module(m).frame.vars.get("FTPT0_PBOUNDS")
    e2 = {}
    if isinstance(bb, NT):
        from .popparams import pair
        e2 = {tm.sym("f." + f): tuple(tm.fval(x) for x in pair(bb.get(f))) for f in P.fields}
    f = ctx.ob("ftpt0 kernel is analysable", lambda: ctx.run(ctx.interp(), priv(ctx, m, "_ftpt0_kernel"), fp, sca("lgm"), sca("tobs")))
    if f is not None:
        ref = ctx.ob("ftpt0 reference", lambda: ctx.spec("pop.ftpt0", fp, sca("lgm"), sca("tobs")))
        confined(ctx, "fraction with t_peak = t_0 is a probability", lambda: f, 0.0, 1.0, e2, ref)
        lim = ctx.prog.module(m).frame.vars.get("FTPT0_BOUNDS")
        lim = tuple(tm.fval(T0(x)) for x in V.as_arr(lim).data.values()) if isinstance(lim, Arr) else tuple(val(x) for x in lim) if isinstance(lim, (tuple, list)) else (0.01, 0.99)

        def limits():
            if not (0 <= lim[0] < lim[1] <= 1):
                raise Fail("the limits of the fraction with t_peak = t_0 are %s" % (lim,))

        ctx.ob("the limits of the fraction with t_peak = t_0 lie in [0, 1]", limits)
        confined(ctx, "fraction with t_peak = t_0 stays within its limits", lambda: f, lim[0], lim[1], e2, ref)
        ctx.same("fraction with t_peak = t_0 follows its relation", f, ref)


def interp_range(t, env):
    """env extended by the range of every inverse-transform atom of t"""
    env = dict(env)
    for s in tm.subterms(t):
        if s.op == "fn" and s.args[0] == "interp":
            fp = s.args[3]
            R = tm.Ranges(env)
            if fp.op == "lam":
                n = fp.args[0]
                bv = [x for x in tm.subterms(fp.args[2]) if x.op == "bv"]
                e2 = dict(env)
                nn = tm.fval(n) if isinstance(n, T) else float(n)
                for b in bv:
                    e2[b] = (0.0, nn - 1)
                env[s] = tm.Ranges(e2)(fp.args[2])
            else:
                rs = [R(x) for x in fp.args[1:] if isinstance(x, T)]
                env[s] = (min(x[0] for x in rs), max(x[1] for x in rs))
    return env


@prop("P16", 6)
def p16(ctx):
    ctx.rule("interval analysis of generated t_peak over the parameter box: t_peak/t_0 in [0.05, 1] for centrals, t_peak/t_obs in [0.1, 1] for satellites")
    cases = []
    for K in KINDS:
        pp, r = single(ctx, K, t_peak=False)
        if r is None:
            continue
        for i, (bn, _, _) in enumerate(BRANCHES):
            sc = t0_term("lgt0") if K is CEN else tm.sym("tobs")
            cases.append(("%s %s t_peak" % (K.name, bn), T0(field(r[i], "t_peak")), sc, 0.05 if K is CEN else 0.1, penv(ctx)))
        ctx.same("%s: both branches share the halo's t_peak" % K.name, field(r[0], "t_peak"), field(r[1], "t_peak"))
    for e in entries(ctx):
        if e[2] in ("mc_t_peak_cenpop", "mc_tpeak_sats", "mc_tpeak_cens"):
            r = run_entry(ctx, e)
            if r is not None:
                v = ctx.ob(e[2] + ": array result", lambda: V.as_arr(r[0]).data[()])
                if v is None:
                    continue
                ix = V.ixvars((H,))[0]
                sc = tm.sym("tobs", ix) if e[2] == "mc_tpeak_sats" else tm.sym("t0")
                env = penv(ctx)
                if e[2] == "mc_tpeak_cens":
                    from .popparams import pair
                    bb = ctx.get(e[1], "TPCENS_PBOUNDS")
                    env = {tm.sym("p." + f): tuple(tm.fval(x) for x in pair(bb.get(f))) for f in bb.cls.fields}
                cases.append((e[2], v, sc, 0.05 if e[2] == "mc_t_peak_cenpop" else 0.1, env))
    for name, t, sc, lo, env in cases:

        def rng(t=t, sc=sc, lo=lo, env=env):
            q = tm.div(t, sc)
            a, b = tm.Ranges(interp_range(q, env))(q)
            if a >= lo - TOL and b <= 1 + TOL:
                return
            # definite when a table value of the inverse transform escapes
            if imprecise(q):
                raise Undecided("imprecise")
            w = witness(q, lo, 1.0, env)
            if w:
                raise Fail("t_peak / scale = %s leaves [%g, 1]: %s" % (sh(q), lo, w))
            raise Undecided("not derivable: [%g, %g]" % (a, b))

        ctx.ob("%s lies within [%g, 1] of its time scale" % (name, lo), rng)


def t0_term(n):
    return tm.exp(tm.mul(tm.sym(n), tm.ln(C(10))))


def witness(q, lo, hi, env):
    """a point of the box where the interval domain, at point precision, leaves [lo, hi]"""
    import itertools
    base = {}
    for l in tm.leaves(q):
        base[l] = env.get(l)
    atoms = {}
    for s in tm.subterms(q):
        if s.op == "fn" and s.args[0] == "interp":
            fp = s.args[3]
            if fp.op == "lam":
                nn = int(tm.fval(fp.args[0]) if isinstance(fp.args[0], T) else fp.args[0])
                bvs = [x for x in tm.subterms(fp.args[2]) if x.op == "bv"]
                atoms[s] = [(fp.args[2], {b: (float(k), float(k)) for b in bvs}) for k in (0, nn - 1)]
            else:
                ks = [x for x in fp.args[1:] if isinstance(x, T)]
                atoms[s] = [(ks[0], {}), (ks[-1], {})]
    box = {}
    for l, v in base.items():
        n = str(l.args[0]) if l.op == "sym" else ""
        dflt = {"lgm": (11.0, 15.0), "tobs": (1.0, 13.8), "tpk": (1.0, 13.0), "lgt0": (1.14, 1.14), "t0": (13.8, 13.8), "key": (0.0, 0.0)}
        v = v or dflt.get(n)
        if v is None:
            return None
        box[l] = v
    L = sorted(box, key=lambda l: l.id)

    def at(mid):
        pt = {l: (box[l][0] + m * (box[l][1] - box[l][0]),) * 2 for l, m in zip(L, mid)}
        out = []
        for combo in itertools.product(*atoms.values()):
            e = dict(pt)
            for s, (term, extra) in zip(atoms, combo):
                e[s] = tm.Ranges({**pt, **extra})(term)
            out.append(tm.Ranges(e)(q))
        return out

    # coordinate search for the lowest and the highest value
    for score, bad in ((lambda o: min(b for a, b in o), lambda o: any(b < lo - TOL for a, b in o)), (lambda o: -max(a for a, b in o), lambda o: any(a > hi + TOL for a, b in o))):
        mid = [0.5] * len(L)
        best = at(mid)
        for _ in range(2):
            for j in range(len(L)):
                for m in (0.02, 0.5, 0.98):
                    o = at(mid[:j] + [m] + mid[j + 1:])
                    if score(o) < score(best):
                        best, mid = o, mid[:j] + [m] + mid[j + 1:]
                if bad(best):
                    pts = ", ".join("%s = %.4g" % (tm.show(l), box[l][0] + m * (box[l][1] - box[l][0])) for l, m in zip(L, mid))
                    x = next((a, b) for a, b in best if b < lo - TOL or a > hi + TOL)
                    return "value in [%.4g, %.4g] at %s" % (x + (pts,))
    return None


# ------------------------------------------------------------------------ P17
@prop("P17", 12)
def p17(ctx):
    ctx.rule("formal derivative of each cumulative t_peak distribution equals its density; sampling tables pair CDF(x_k) with x_k (inverse transform); relations of location and scale")
    tk = POP + ".t_peak_kernels"
    x, loc, sc = sca("x"), sca("loc"), sca("scale")

    def pc(name, call_pdf, call_cdf, xs, cdf_ref, facts=()):
        p = ctx.ob(name + " density is analysable", call_pdf)
        c = ctx.ob(name + " CDF is analysable", call_cdf)
        if p is None or c is None:
            return
        ctx.same(name + ": CDF is that of the truncated normal in t_peak over its scale", c, cdf_ref())

        def d():
            want = tm.deriv(T0(c), xs)
            ok, case = tm.equal(T0(p), want, facts)
            if not ok:
                if imprecise(T0(p)) or imprecise(want):
                    raise Undecided("imprecise")
                raise Fail("density %s is not the derivative %s of the CDF" % (sh(T0(p)), sh(want)))

        ctx.ob(name + ": density is the derivative of the CDF", d)

    u = tk + ".utp_pdf_kernels"
    g = lambda mod, n, *a: ctx.run(ctx.interp(), priv(ctx, mod, n), *a)
    pc("utp kernel", lambda: g(u, "_tp_pdf_kern", x, (loc, sc)), lambda: g(u, "_tp_cdf_kern", x, (loc, sc)), tm.sym("x"), lambda: ctx.spec("pop.tn_cdf", x, loc, sc))
    c = tk + ".tp_pdf_cens"
    t0 = sca("t0")
    ratio = lambda: scalar(tm.div(tm.sym("x"), tm.sym("t0")))
    pc("centrals kernel", lambda: g(c, "_t_peak_cens_pdf_kern", (loc, sc), x, t0), lambda: g(c, "_t_peak_cens_cdf_kern", (loc, sc), x, t0), tm.sym("x"),
       lambda: ctx.spec("pop.tn_cdf", ratio(), loc, sc))
    P = nt(ctx.get(c, "TPCens_Params"), "p.")
    ls = lambda: ctx.spec("pop.tpck_scale", P, sca("lgm"), sca("tobs"), t0)
    pc("centrals single-halo", lambda: g(c, "_t_peak_cen_pdf_singlehalo_kern", P, sca("lgm"), sca("tobs"), x, t0),
       lambda: g(c, "_t_peak_cen_cdf_singlehalo_kern", P, sca("lgm"), sca("tobs"), x, t0), tm.sym("x"),
       lambda: ctx.spec("pop.tn_cdf", ratio(), scalar(C(Fr(95, 100))), ls()))

    # inverse-transform sampling
    def table(name, get, cdf, scale):
        r = ctx.ob(name + " is analysable", get)
        if r is None:
            return

        def f():
            t = T0(r)
            ats = [s for s in tm.subterms(t) if s.op == "fn" and s.args[0] == "interp"]
            if len(ats) != 1:
                raise Undecided("%d table look-ups" % len(ats))
            _, arg, xp, fp = ats[0].args
            if not (arg.op == "fn" and arg.args[0] == "uniform"):
                if imprecise(arg):
                    raise Undecided("imprecise")
                raise Fail("the table is evaluated at %s, not at a uniform random number" % sh(arg))
            if xp.op == "lam" and fp.op == "lam":
                if str(xp.args[0]) != str(fp.args[0]):
                    raise Fail("tables of different lengths")
                k = tm.idx("k")
                b1, b2 = unbind(xp, k), unbind(fp, k)
                pairs = [(b1, b2)]
            else:
                a, b = [y for y in xp.args[1:] if isinstance(y, T)] or list(xp.args), [y for y in fp.args[1:] if isinstance(y, T)] or list(fp.args)
                if len(a) != len(b):
                    raise Fail("tables of different lengths")
                pairs = list(zip(a, b))
            for p_, x_ in pairs:
                want = T0(cdf(scalar(x_)))
                ok, case = tm.equal(p_, want)
                if not ok:
                    if imprecise(p_):
                        raise Undecided("imprecise")
                    raise Fail("the table pairs %s with %s, whose CDF is %s" % (sh(x_), sh(p_), sh(want)))
            # the draw is the looked-up value, clipped from below at most, times the time scale
            q = tm.subst(tm.div(t, scale), {ats[0]: tm.sym("looked")})
            lk = tm.sym("looked")
            okv = tm.equal(q, lk)[0] or tm.equal(q, tm.maximum(lk, C(Fr(5, 100))))[0]
            if not okv:
                if imprecise(q):
                    raise Undecided("imprecise")
                raise Fail("t_peak over its time scale is %s of the looked-up value" % sh(q))

        ctx.ob(name + ": inverse-transform sampling of its CDF", f)

    pp = pop_params(ctx)
    for K in KINDS:
        sc_ = t0_term("lgt0") if K is CEN else tm.sym("tobs")
        L, S = sca("lgm"), sca("tobs")
        if K is CEN:
            cdf = lambda y: ctx.spec("pop.frac_peaked_cen", pp, y, L, S)
        else:
            cdf = lambda y: ctx.spec("pop.tn_cdf", y, ctx.spec("pop.utp_loc", pp, L, S), ctx.spec("pop.utp_scale", pp, L, S))
        table("%s t_peak" % K.name, lambda: field(single(ctx, K, False)[1][0], "t_peak"), cdf, sc_)
    table("tp_pdf_cens.mc_tpeak_singlecen", lambda: ctx.call(c, "mc_tpeak_singlecen", P, sca("key"), sca("lgm"), sca("tobs"), t0),
          lambda y: ctx.spec("pop.tn_cdf", y, scalar(C(Fr(95, 100))), ls()), tm.sym("t0"))


def unbind(l, k):
    """body of a lambda term at index k"""
    m = {}
    for s in tm.subterms(l.args[2]):
        if s.op == "bv" and s.args[0] == l.args[1]:
            m[s] = k
    return tm.subst(l.args[2], m)


# ------------------------------------------------------------------------ P18
@prop("P18", 16)
def p18(ctx):
    ctx.rule("interval analysis of every mean growth parameter over the parameter box, all masses and times: strictly inside the individual-halo bounds, early > late")
    from .kernel import bounds
    mb = bounds(ctx)
    env = penv(ctx)
    for K in KINDS:
        pp, r = single(ctx, K)
        if r is None:
            continue
        for i, (bn, tag, itag) in enumerate(BRANCHES):
            want = means_of(ctx, K, pp, sca("tpk"), i)
            val_ = {f: no_scatter(field(r[i], f)) for f in FIELDS}
            for f in ("logtc", "early_index", "late_index"):
                lo, hi = (tm.fval(x) for x in mb[f])

                def proof(f=f, lo=lo, hi=hi):
                    a, b = tm.Ranges(env)(T0(val_[f]))
                    return a > lo and b < hi

                prove(ctx, "%s %s: mean %s strictly inside (%g, %g)" % (K.name, bn, f, lo, hi), proof, val_[f], want[f], what="range", theorem=False,
                      refute=lambda f=f, lo=lo, hi=hi: None if imprecise(T0(val_[f])) else witness(T0(val_[f]), lo + 2 * TOL, hi - 2 * TOL, env))

            def gap():
                a = tm.Ranges(env)(T0(val_["early_index"]))
                b = tm.Ranges(env)(T0(val_["late_index"]))
                return a[0] > b[1]

            prove(ctx, "%s %s: mean early index above mean late index" % (K.name, bn), gap,
                  {f: val_[f] for f in ("early_index", "late_index")}, {f: want[f] for f in ("early_index", "late_index")}, what="early > late", theorem=False,
                  refute=lambda: (lambda q: None if imprecise(q) else witness(q, 2 * TOL, float("inf"), env))(tm.sub(T0(val_["early_index"]), T0(val_["late_index"]))))


# ------------------------------------------------------------------------ P19
RHO = {(1, 0): "logtc_logm0", (2, 0): "early_logm0", (2, 1): "early_logtc", (3, 0): "late_logm0", (3, 1): "late_logtc", (3, 2): "late_early"}


@prop("P19", 12)
def p19(ctx):
    ctx.rule("value numbers of the covariance matrix entries: symmetric, cov_ij = rho_ij std_i std_j with rho and std taken by name; interval analysis of the "
             "correlation bounds: the matrix is positive definite at every corner of the box (exact pivots), hence by convexity inside it")
    m = POP + ".covariance_kernels"
    P = ctx.get(m, "CovParams")
    B = pop_bounds(ctx)
    for who, pp in (("CovParams", nt(P, "p.")), ("DiffmahPop_Params", pop_params(ctx))):
        c = ctx.ob("covariance of %s is analysable" % who, lambda: V.as_arr(ctx.run(ctx.interp(), priv(ctx, m, "_get_diffmahpop_cov"), pp, sca("lgm"))))
        if c is None:
            continue
        want = V.as_arr(ctx.spec("pop.cov", pp, sca("lgm")))
        ctx.same("%s: shape" % who, tuple(c.axes or ()), (4, 4))
        if c.axes != (4, 4):
            continue
        el = lambda a, i, j: scalar(V.take(V.take(a, 0, i), 0, j).data[()])
        for i in range(4):
            for j in range(i + 1):
                nm = FIELDS[i] + "," + FIELDS[j]
                ctx.same("%s: cov[%s] is rho*std*std by name" % (who, nm), el(c, i, j), el(want, i, j))
                if i != j:
                    ctx.same("%s: cov[%s] symmetric" % (who, nm), el(c, j, i), el(c, i, j))

    def pd():
        # positive definite matrices are a convex set: the box of correlations lies in it exactly when its corners do
        names = list(RHO.items())
        for corner in itertools.product(*[sorted({Fr(x) for x in B["rho_" + n]}) for _, n in names]):
            M = [[Fr(int(i == j)) for j in range(4)] for i in range(4)]
            for ((i, j), _), v in zip(names, corner):
                M[i][j] = M[j][i] = v
            for k in range(4):
                # exact elimination: the pivots are positive exactly when the matrix is positive definite
                if M[k][k] < 0 or (M[k][k] == 0 and any(M[i][k] for i in range(k + 1, 4))):
                    raise Fail("correlation matrix is not positive definite for " + ", ".join("rho_%s near %g" % (n, v) for (_, n), v in zip(names, corner)))
                if M[k][k] == 0:
                    raise Undecided("correlation matrix is singular at a corner of the box")
                for i in range(k + 1, 4):
                    f = M[i][k] / M[k][k]
                    M[i] = [x - f * y for x, y in zip(M[i], M[k])]
        for k, v in B.items():
            if k.startswith("std_u_") and not v[0] > 0:
                raise Fail("scatter parameter %s may be non-positive: %s" % (k, v))

    ctx.ob("covariance is positive definite over the parameter box", pd)

    # anchored in covariance_from_correlation: the library primitive itself
    U = "diffmah.utils"
    n = 3
    co, sd = arr("c", n, n), arr("s", n)
    r = ctx.ob("covariance_from_correlation is analysable", lambda: ctx.call(U, "covariance_from_correlation", co, sd))
    if r is not None:
        wantm = Arr((n, n), {(i, j): tm.mul(co.data[(i, j)], sd.data[(i,)], sd.data[(j,)]) for i in range(n) for j in range(n)})
        ctx.same("covariance_from_correlation: c_ij s_i s_j", r, wantm)
    ch = ctx.ob("get_cholesky_from_params is analysable", lambda: ctx.call(U, "get_cholesky_from_params", arr("x", 10)))
    if ch is not None:
        x = arr("x", 10)
        off = {(1, 0): 4, (2, 0): 5, (2, 1): 6, (3, 0): 7, (3, 1): 8, (3, 2): 9}
        w = Arr((4, 4), {(i, j): x.data[(i,)] if i == j else (x.data[(off[(i, j)],)] if i > j else tm.ZERO) for i in range(4) for j in range(4)})
        ctx.same("get_cholesky_from_params: diagonal first, then rows of the lower triangle", ch, w)


# ------------------------------------------------------------------------ P20
@prop("P20", 20)
def p20(ctx):
    ctx.rule("each generated parameter has the value number bounded(unbounded(mean) + gaussian_i): one 4-vector draw per branch, component order, mean and covariance of the same halo; t_peak unscattered")
    U = ctx.get("diffmah.diffmah_kernels", "DiffmahUParams")
    for K in KINDS:
        for given in (True, False):
            pp, r = single(ctx, K, given)
            if r is None:
                continue
            evs = [e for e in r[3].events if e.kind == "draw" and e.what == "mvn"]
            for i, (bn, tag, itag) in enumerate(BRANCHES):
                nm = "%s %s%s" % (K.name, bn, "" if given else " (t_peak drawn)")
                tp = field(r[i], "t_peak")
                want = means_of(ctx, K, pp, tp, i)
                P = ctx.get("diffmah", "DiffmahParams")
                um = ctx.ob(nm + ": unbounded mean is analysable",
                            lambda: as_nt(ctx.call("diffmah.diffmah_kernels", "get_unbounded_mah_params", NT(P, [want[f] for f in FIELDS] + [tp]))))
                if um is None:
                    continue

                def atoms():
                    ks = {}
                    for f in FIELDS:
                        for s in tm.subterms(T0(field(r[i], f))):
                            if s.op == "fn" and s.args[0] == "mvn0":
                                ks.setdefault((s.args[1], s.args[2]), set()).add(f)
                    if not ks:
                        if any(imprecise(T0(field(r[i], f))) for f in FIELDS):
                            raise Undecided("imprecise")
                        raise Fail("no Gaussian scatter reaches the %s parameters" % bn)
                    if len(ks) > 1:
                        raise Fail("the %s parameters mix %d Gaussian draws" % (bn, len(ks)))
                    return list(ks)[0]

                kc = ctx.ob(nm + ": one Gaussian draw per branch", atoms)
                if kc is None:
                    continue
                cov = ctx.spec("pop.cov", pp, sca("lgm"))
                ct = V.to_term(V.as_arr(cov))

                def cv():
                    ok = kc[1] is ct or tm.equal(kc[1], ct)[0]
                    if not ok:
                        if imprecise(kc[1]):
                            raise Undecided("imprecise")
                        raise Fail("the draw's covariance is %s, not the model covariance at the halo's mass" % sh(kc[1]))

                ctx.ob(nm + ": covariance of the draw is the model covariance", cv)
                uu = NT(U, [scalar(tm.add(T0(x), tm.atom("mvn0", kc[0], kc[1], C(n)))) for n, x in enumerate(um.vals[:4])] + [um.vals[4]])
                bb = ctx.ob(nm + ": bounded is analysable", lambda: as_nt(ctx.call("diffmah.diffmah_kernels", "get_bounded_mah_params", uu)))
                if bb is None:
                    continue
                for f in ALL:
                    ctx.same("%s: %s" % (nm, f + (" is the bounded image of mean plus its own scatter component" if f != "t_peak" else " carries no Gaussian scatter")),
                             field(r[i], f), field(bb, f))


# ------------------------------------------------------------------------ P21
@prop("P21", 8)
def p21(ctx):
    ctx.rule("value number of the predicted mean and scatter equals the two-component mixture moments over the Monte Carlo draws")
    for K in KINDS:
        pp = pop_params(ctx)
        a = [pp, vec("t", TT), sca("lgm"), sca("tobs"), sca("key"), sca("lgt0")]
        e = (K.name, K.mod, "predict_mah_moments_singlebin", a)
        r = run_entry(ctx, e)
        if r is None:
            continue
        res, it = r
        sizes = {s for ev in it.events if ev.kind == "draw" for _, s in ev.batch}

        def n():
            if len(sizes) != 1:
                raise Undecided("draws batched over %s" % [str(s) for s in sizes])
            return list(sizes)[0]

        n_ = ctx.ob(K.name + ": one draw per Monte Carlo halo", n)
        if n_ is None:
            continue
        if not isinstance(n_, int):
            n_ = scalar(V.size_term(n_))
        want = ctx.ob(K.name + ": reference moments", lambda: ctx.spec("pop.moments", ctx.get(K.mod, K.single), ctx.get("diffmah", "mah_singlehalo"), *(a + [n_])))
        if want is None:
            continue
        ctx.same(K.name + ": mean log-mass is the fraction-weighted mean of both branches", res[0], want[0])
        ctx.same(K.name + ": scatter is the square root of the fraction-weighted variance about that mean", res[1], want[1])


# ------------------------------------------------------------------------ P22
@prop("P22", 8)
def p22(ctx):
    ctx.rule("value number of each population loss equals the mean over bins of the squared mismatch of mean and scatter; combined loss is the sum; each "
             "*_and_grads function differentiates its own loss")
    B = sz("n_bins")
    pp = pop_params(ctx)
    MODS = {CEN: POP + ".bimod_cens_fithelp", SAT: POP + ".bimod_sats_fithelp"}
    FN = "loss_mah_moments_multibin"

    def ref(K, key, s=""):
        a = loss_args(B, s)
        a[3] = key
        return ctx.spec("pop.loss", ctx.get(K.mod, "predict_mah_moments_singlebin"), pp, a[0], a[1], a[2], a[3], a[4], a[5], a[6])

    for K in KINDS:
        r = ctx.ob(K.name + " loss is analysable", lambda: ctx.call(MODS[K], FN, pp, *loss_args(B)))
        if r is not None:
            ctx.same(K.name + ": loss is the bin-averaged mismatch of mean and scatter", r, ref(K, sca("key")))
    r = ctx.ob("combined loss is analysable", lambda: ctx.call(POP + ".bimod_censat_fithelp", FN + "_censat", pp, *censat_args(B)))
    if r is not None:

        def comb():
            best = None
            for i, j in ((0, 1), (1, 0)):
                key = lambda q: scalar(tm.atom("split", tm.sym("key"), C(2), C(q)))
                w = V.emap(lambda x, y: tm.add(x, y), V.as_arr(ref(CEN, key(i), "_c")), V.as_arr(ref(SAT, key(j), "_s")))
                ds = list(diff(r, w))
                if not ds:
                    return
                best = best or ds
            if best[0][4]:
                raise Undecided(str(best[0][4]))
            raise Fail("computed %s, required the sum of both losses %s" % (sh(best[0][1]), sh(best[0][2])))

        ctx.ob("combined loss is the sum of the central and satellite losses on their own data", comb)
    # u-parameter wrappers and gradients
    Uc = ctx.get(CSP, "DiffmahPop_UParams")
    uu = nt(Uc, "u.")
    bp = ctx.ob("params from u-params analysable", lambda: ctx.call(CSP, "get_diffmahpop_params_from_u_params", uu))
    for mod, base, name, data in ((MODS[CEN], FN, FN + "_u_params", loss_args(B)),
                                  (POP + ".bimod_censat_fithelp", FN + "_censat", FN + "_censat_u_params", censat_args(B))):
        if bp is None:
            continue
        a = ctx.ob(name + " is analysable", lambda: ctx.call(mod, name, uu, tuple(data)))
        b = ctx.ob(name + " base analysable", lambda: ctx.call(mod, base, bp, *data))
        if a is not None and b is not None:
            ctx.same("%s evaluates the loss at the bounded parameters" % name, a, b)
    for mod, g, bases in ((MODS[CEN], "loss_and_grads_mah_moments_multibin", FN + "_u_params"),
                          (MODS[SAT], "loss_and_grads_mah_moments_multibin", FN),
                          (POP + ".bimod_censat_fithelp", "loss_and_grads_mah_moments_multibin_censat", FN + "_censat"),
                          (POP + ".bimod_censat_fithelp", "loss_and_grads_mah_moments_multibin_censat_u_params", FN + "_censat_u_params")):

        def grads(mod=mod, g=g, bases=bases):
            f = ctx.get(mod, g)
            seen = []
            while isinstance(f, Xf) and f.fn is not None:
                seen.append(f.kind)
                if f.kind == "value_and_grad":
                    an = (f.opt or {}).get("argnums", 0)
                    if an not in (0, None) and not (isinstance(an, Arr) and val(an) == 0):
                        raise Fail("differentiates argument %s" % (an,))
                f = f.fn
            if "value_and_grad" not in seen:
                raise Undecided("not a value_and_grad transformation: %s" % seen)
            b = ctx.get(mod, bases)
            while isinstance(b, Xf) and b.fn is not None:
                b = b.fn
            if f is b:
                return
            # another function: it must compute the same value
            raise Undecided("differentiates %s" % fn_where(f)) if not isinstance(f, Fn) else _other(ctx, mod, f, b)

        ctx.ob("%s differentiates %s with respect to the parameters" % (g, bases), grads)


def _other(ctx, mod, f, b):
    if f.name.startswith("<"):
        return Undecided("differentiates a lambda")
    if getattr(f, "name", "").startswith("loss_") or f.name.startswith("_loss"):
        return Fail("differentiates %s, not %s" % (f.name, b.name), fn_where(f))
    return Undecided("differentiates %s" % f.name)
