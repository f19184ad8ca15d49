"""P24-P28: the individual-halo fitter."""
from .. import terms as tm
from .. import values as V
from ..core import *  # noqa
from ..core import prop, Ctx, Fail, Undecided, diff, imprecise
from ..interp import Model, MissingAnchor
from ..values import NT, Arr, Fn, Phi, Xf, scalar, Unsupported
from .pop import priv

FH = "diffmah.fitting_helpers.diffmah_fitter_helpers"
FU = "diffmah.fitting_helpers.fit_utils"
BW = "diffmah.fitting_helpers.bfgs_wrapper"
DK = "diffmah.diffmah_kernels"
LN10 = tm.ln(C(10))
NINF = tm.neg(tm.mk("inf"))


def masses():
    """positive masses, by their logarithm"""
    iv = V.ixvars((TT,))[0]
    return Arr((TT,), {(): tm.exp(tm.mul(LN10, tm.sym("lgm", iv)))})


def stub(ctx, it, mod, name, handler):
    """replace a helper by handler(values of its parameters in order)"""
    f = priv(ctx, mod, name)
    while isinstance(f, Xf) and f.fn is not None:
        f = f.fn
    if not isinstance(f, Fn):
        raise Undecided("%s.%s is not a function" % (mod, name))
    it.hooks[f.module.name + "." + f.name] = lambda it, vals: handler(it, vals)


class Run:
    """one analysed call of diffmah_fitter with the optimiser summarised"""

    def __init__(self, ctx, lgm_min=None, tpeak=None, force=None, mah=None, **kw):
        self.ctx, self.call = ctx, None
        it = self.it = ctx.interp()

        def opt(it, vals):
            self.call = list(vals.values())
            self.path = tuple(it.path)
            return [arr("u_best", 4), sca("loss_opt"), sca("terminates"), sca("code")]

        stub(ctx, it, FH, "bfgs_adam_fallback", opt)
        a = dict(t_sim=vec("t", TT), mah_sim=mah or masses(), lgm_min=lgm_min or sca("lgm_min"), dlogm_cut=sca("dcut"), t_fit_min=sca("tmin"),
                 nstep=sca("nstep"), n_warmup=sca("nwarm"))
        if tpeak is not None:
            a["tpeak_fixed"] = tpeak
        if force is not None:
            a["force_skip_fit"] = force
        a.update(kw)
        self.args = a
        t, m = a.pop("t_sim"), a.pop("mah_sim")
        self.res = as_nt(ctx.run(it, ctx.get(FH, "diffmah_fitter"), t, m, **a))

    def field(self, n):
        return field(self.res, n)

    def ld(self, n):
        return field(as_nt(self.field("loss_data")), n)

    def skip(self):
        return tm.as_bool(V.as_arr(self.field("skip_fit")).data[()])


def nth_of(v):
    """(mask lambda, index variable) of a filtered 1-d array"""
    if v.axes is None or len(v.axes) != 1 or isinstance(v.axes[0], int):
        raise Undecided("not a filtered array: %s" % sh(v))
    s = v.axes[0]
    if s.op == "red" and s.args[0] == "sum" and s.args[3].op == "where" and s.args[3].args[1:] == (tm.ONE, tm.ZERO):
        return tm.mk("lam", s.args[1], s.args[2], s.args[3].args[0])
    if not (s.op == "fn" and s.args[0] == "count"):
        raise Undecided("the length %s is not that of a boolean filter" % sh(s))
    return s.args[1]


K = tm.idx("k")


def opened(h, b, i):
    return tm.subst(b, {tm.mk("bv", h): i})


def running_max(t):
    """(maximum u, f) when t is an increasing function f of the maximum u; (t, identity) otherwise"""
    us = {u for u in tm.subterms(t) if u.op == "red" and u.args[0] == "max" and not u.fbv}
    us = {u for u in us if not any(w is not u and u in set(tm.subterms(w)) for w in us)}
    if len(us) == 1:
        u = us.pop()

        def inc(x):
            if x is u:
                return True
            if not tm.depends_struct(x, u):
                return None
            if x.op in ("exp", "ln"):
                return inc(x.args[0])
            if x.op == "lin":
                d = [(k, c) for k, c in x.args[1] if tm.depends_struct(k, u)]
                return all(c > 0 and inc(k) for k, c in d)
            if x.op == "mon":
                d = [(k, e) for k, e in x.args[0] if tm.depends_struct(k, u)]
                return len(d) == 1 and d[0][1] == 1 and bool(inc(d[0][0])) and all(tm.known_sign(k) == 1 for k, _ in x.args[0] if k is not d[0][0])
            return False

        if inc(t):
            return u, lambda b: tm.subst(t, {u: b})
    return t, lambda b: b


def body(lam):
    """body of a lambda at the generic index K"""
    return tm.as_bool(opened(lam.args[1], lam.args[2], K))


def unfilter(t, lam, q):
    """element expression e(k) of a term written with nth(lam, q)"""
    n = tm.atom("nth", lam, q)
    r = tm.subst(t, {n: K})
    if tm.depends_struct(r, q) and q is not K:
        raise Undecided("element %s is not that of the filtered input" % sh(t))
    return r


def ind(b):
    return tm.where(b, tm.ONE, tm.ZERO)


def must(name, got, want, facts=()):
    ok, case = tm.equal(got, want, facts)
    if ok:
        return
    imp = imprecise(got) - imprecise(want)
    if imp or (case is not None and case.unsolved):
        raise Undecided("%s: comparison passes through %s" % (name, ", ".join(sorted(imp)) or "an unsolved guard"))
    raise Fail("%s is %s, required %s%s" % (name, sh(got), sh(want), "" if case is None else " (when %s)" % case.describe()))


def assume(t, *conds):
    """t with the conjuncts of the conditions replaced by their truth value"""
    for c in conds:
        c = tm.as_bool(c)
        for x in c.args if c.op == "and" else (c,):
            x = tm.as_bool(x)
            if x.op == "b":
                continue
            t = tm.subst(t, {x.args[0]: tm.FALSE} if x.op == "not" else {x: tm.TRUE})
    return t


def handled(t):
    """the conditions 'an exception was raised and handled here' of t"""
    return [s for s in tm.subterms(t) if s.op == "batom" and s.args[0] == "raises"]


def safe_run(ctx, name, *a, **kw):
    return ctx.ob(name, lambda: Run(ctx, *a, **kw))


# ------------------------------------------------------------------------ P24
@prop("P24", 6)
def p24(ctx):
    ctx.rule("the filter predicate of the target points, as a boolean function of a generic time step, equals (mass > 10**lgm_min) and (log mass > final log "
             "mass - dlogm_cut) and (t >= t_fit_min); target values are the running maximum of log10 mass over the kept points, at their own times")
    ix = V.ixvars((TT,))[0]
    for what, lim in (("finite lgm_min", sca("lgm_min")), ("default lgm_min", scalar(NINF))):
        r = safe_run(ctx, "diffmah_fitter is analysable (%s)" % what, lim)
        if r is None:
            continue

        def want_keep():
            w = ctx.spec("fitter.keep", vec("t", TT), masses(), lim, sca("dcut"), sca("tmin"))
            return tm.subst(w.data[()], {ix: K})

        def want_log():
            return tm.subst(ctx.spec("fitter.clipped", masses(), lim).data[()], {ix: K})

        def sel():
            lam = nth_of(r.ld("t_target"))
            must("the condition to keep time step k", ind(body(lam)), ind(want_keep()))

        ctx.ob("target points are exactly the resolved ones in the fitting range (%s)" % what, sel)

        def times():
            v = r.ld("t_target")
            lam = nth_of(v)
            q = V.ixvars(v.axes)[0]
            e = unfilter(v.data[()], lam, q)
            must("time of target point k", e, tm.sym("t", K))

        ctx.ob("target times are the simulated times of the kept points (%s)" % what, times)

        def vals():
            v = r.ld("log_mah_target")
            lam = nth_of(v)
            if tm.gv(lam) != tm.gv(nth_of(r.ld("t_target"))):
                raise Undecided("times and masses are filtered by different expressions")
            q = V.ixvars(v.axes)[0]
            m, outer = running_max(v.data[()])
            if not (m.op == "red" and m.args[0] == "max"):
                e = unfilter(m, lam, q)
                if not imprecise(e):
                    raise Fail("target mass %s is not a running maximum over the kept points" % sh(m))
                raise Undecided("target mass is %s" % sh(m))
            size, j = m.args[1], tm.idx("j")
            if size is tm.add(tm.atom("nth", lam, q), tm.ONE):
                # over all time steps up to that of the target point: those not kept must not count
                e = outer(opened(m.args[2], m.args[3], K))
                must("log mass that the maximum takes from time step k", tm.where(body(lam), e, NINF), tm.where(want_keep(), want_log(), NINF))
                must("log mass that the maximum takes from a time step k that is not kept", tm.where(want_keep(), NINF, e), NINF)
                return
            must("the running maximum's extent", size, tm.add(q, tm.ONE))
            e = unfilter(outer(opened(m.args[2], m.args[3], j)), lam, j)
            must("log mass of kept point k", tm.where(body(lam), e, tm.ZERO), tm.where(want_keep(), want_log(), tm.ZERO))

        ctx.ob("target masses are the running maximum of log10 mass (%s)" % what, vals)
    # zero masses
    zero = Arr((TT,), {(): tm.where(tm.eq(tm.sym("zero", ix), tm.ONE), tm.ZERO, tm.exp(tm.mul(LN10, tm.sym("lgm", ix))))})
    for what, lim, facts in (("finite lgm_min", sca("lgm_min"), []), ("default lgm_min", scalar(NINF), [])):
        r = safe_run(ctx, "diffmah_fitter is analysable (zero masses, %s)" % what, lim, mah=zero)
        if r is None:
            continue

        def excl():
            lam = nth_of(r.ld("t_target"))
            b = tm.subst(body(lam), {tm.sym("zero", K): tm.ONE, tm.sym("zero", tm.sub(TT, tm.ONE)): tm.ZERO})
            last = tm.sym("lgm", tm.sub(TT, tm.ONE))
            # the final halo is resolved: its mass, less the allowed drop, is above the clipping floor
            f = [("sign", tm.add(last, tm.neg(tm.sym("dcut")), C(7)), 1), ("sign", tm.sub(last, tm.sym("lgm_min")), 1)]
            must("the condition to keep a time step of zero mass", ind(b), tm.ZERO, f)

        ctx.ob("time steps of zero mass are never fitted (%s)" % what, excl)


# ------------------------------------------------------------------------ P25
@prop("P25", 8)
def p25(ctx):
    ctx.rule("value number of every field of the fitter's result under the facts 'fit skipped' and 'fit run'; the skip predicate equals (fewer than 3 points below "
             "the final target mass) or force_skip_fit; the optimiser receives its arguments by role")
    P = ctx.get(DK, "DiffmahParams")
    for what, kw in (("t_peak from the simulation", {}), ("t_peak given", dict(tpeak=sca("tpfix"))), ("default options", dict(default=True))):
        if kw.pop("default", False):
            r = ctx.ob("diffmah_fitter is analysable (%s)" % what, lambda: Run(ctx, lgm_min=scalar(NINF)))
            force = None
        else:
            r = safe_run(ctx, "diffmah_fitter is analysable (%s)" % what, force=sca("force"), **kw)
            force = tm.not_(tm.eq(tm.sym("force"), tm.ZERO))
        if r is None:
            continue

        def skips():
            lm = r.ld("log_mah_target")
            n = T0(ctx.spec("fitter.npts", lm))
            w = tm.lt(n, C(3))
            if force is not None:
                w = tm.or_(w, force)
            g, no = r.skip(), [tm.not_(x) for x in handled(r.skip())]
            must("the condition to skip the fit", ind(assume(g, *no)), ind(assume(w, *no)))
            if no:  # no target point at all
                must("the condition to skip the fit of an empty target", ind(assume(g, *handled(g))), tm.ONE)

        ctx.ob("fit is skipped exactly when too few points, or on request (%s)" % what, skips)

        def fill():
            s = r.skip()
            want = dict(loss_best=C(-99), fit_terminates=tm.FALSE, code_used=C(-1), skip_fit=tm.TRUE)
            for k, w in want.items():
                g = V.as_arr(r.field(k)).data[()]
                must("%s of a skipped fit" % k, tm.where(s, num(g), tm.ZERO), tm.where(s, num(w), tm.ZERO))
            pb = as_nt(r.field("p_best"))
            if pb.cls.fields != P.fields:
                raise Fail("p_best has fields %s" % (pb.cls.fields,))
            for k in P.fields:
                must("p_best.%s of a skipped fit" % k, tm.where(s, T0(field(pb, k)), tm.ZERO), tm.where(s, C(-99), tm.ZERO))

        ctx.ob("a skipped fit returns the no-fit values (%s)" % what, fill)

        def ran():
            s = tm.not_(r.skip())
            want = dict(loss_best=tm.sym("loss_opt"), fit_terminates=tm.sym("terminates"), code_used=tm.sym("code"), skip_fit=tm.FALSE)
            for k, w in want.items():
                g = V.as_arr(r.field(k)).data[()]
                must("%s of a fit that ran" % k, tm.where(s, num(g), tm.ZERO), tm.where(s, num(w), tm.ZERO))
            U = ctx.get(DK, "DiffmahUParams")
            up = NT(U, [V.take(arr("u_best", 4), 0, i) for i in range(4)] + [r.ld("u_t_peak")])
            b = ctx.spec("kernel.bounded", up)
            pb = as_nt(r.field("p_best"))
            for k in P.fields:
                must("p_best.%s of a fit that ran" % k, tm.where(s, T0(field(pb, k)), tm.ZERO), tm.where(s, T0(b[k]), tm.ZERO))

        ctx.ob("a fit that ran returns the optimiser's parameters, bounded, with the imposed t_peak (%s)" % what, ran)

        def call():
            if r.call is None:
                raise Undecided("the optimiser was not called through its helper")
            c = r.call
            if len(c) != 5:
                raise Undecided("the optimiser takes %d arguments" % len(c))
            g = tm.and_(*r.path)
            must("the optimiser runs only when the fit is not skipped", ind(tm.and_(g, r.skip())), tm.ZERO)
            must("the optimiser runs whenever the fit is not skipped", ind(tm.or_(g, r.skip())), tm.ONE)
            must("number of Adam steps", T0(c[3]), T0(r.args["nstep"]))
            must("number of warmup rounds", T0(c[4]), T0(r.args["n_warmup"]))
            ld = as_nt(c[2])
            for k in ("t_target", "log_mah_target", "u_t_peak", "logt0"):
                for p, x, w, case, imp in diff(field(ld, k), r.ld(k)):
                    raise (Undecided if imp else Fail)("loss data %s passed to the optimiser is %s, returned %s" % (k, sh(x), sh(w)))

        ctx.ob("the optimiser gets the loss data, steps and warmup by role (%s)" % what, call)


def num(t):
    return ind(t) if tm.is_bool(t) else t


# ------------------------------------------------------------------------ P26
@prop("P26", 6)
def p26(ctx):
    ctx.rule("value number of the imposed t_peak: the simulated time of the first occurrence of the final mass, or tpeak_fixed; logt0 is log10 of the final time; "
             "the starting point has the final mass; the loss is the mean square of (model - target) of the bounded parameters, with its own gradient")
    P = ctx.get(DK, "DiffmahParams")
    ix = V.ixvars((TT,))[0]
    for what, kw, lim in (("from the simulation", {}, scalar(NINF)), ("from the simulation, finite lgm_min", {}, sca("lgm_min")),
                          ("tpeak_fixed", dict(tpeak=sca("tpfix")), scalar(NINF))):
        r = safe_run(ctx, "diffmah_fitter is analysable (t_peak %s)" % what, lgm_min=lim, **kw)
        if r is None:
            continue

        def tp():
            if "tpeak" in kw:
                return tm.sym("tpfix")
            return T0(ctx.spec("fitter.t_peak", vec("t", TT), masses(), lim))

        no = [tm.not_(x) for x in handled(r.skip())]
        run = assume(tm.not_(r.skip()), *no)

        def ran(name, got, want):
            must(name, assume(got, *no, run), assume(want, *no, run))

        def peak():
            U = ctx.get(DK, "DiffmahUParams")
            up = NT(U, [scalar(tm.sym("u%d" % i)) for i in range(4)] + [r.ld("u_t_peak")])
            b = T0(ctx.spec("kernel.bounded", up)["t_peak"])
            ran("the imposed t_peak", b, tp())
            pb = as_nt(r.field("p_best"))
            ran("the returned t_peak", T0(field(pb, "t_peak")), tp())

        ctx.ob("t_peak of the fit is %s" % ("the given one" if "tpeak" in kw else "the first time of the final mass (%s)" % what), peak)

        def t0():
            w = tm.log10(tm.sym("t", tm.sub(TT, tm.ONE)))
            ran("logt0", T0(r.ld("logt0")), w)

        ctx.ob("logt0 is the log of the final simulated time (%s)" % what, t0)

        def start():
            if r.call is None:
                raise Undecided("the optimiser was not called through its helper")
            us = [assume(x, *no, run) for x in elems(r.call[1], 4)]
            U = ctx.get(DK, "DiffmahUParams")
            up = NT(U, [scalar(x) for x in us] + [r.ld("u_t_peak")])
            b = ctx.spec("kernel.bounded", up)
            D = ctx.get(DK, "DEFAULT_MAH_PARAMS")
            last = tm.subst(ctx.spec("fitter.clipped", masses(), lim).data[()], {ix: tm.sub(TT, tm.ONE)})
            ran("starting logm0", T0(b["logm0"]), last)
            for k, w in [(k, D.get(k)) for k in ("logtc", "early_index", "late_index")]:
                ran("starting %s" % k, T0(b[k]), T0(w))

        ctx.ob("the fit starts from the final simulated mass (%s)" % what, start)
    # the loss
    holder = {}

    def lossfn():
        r = holder["r"] = Run(ctx)
        if r.call is None:
            raise Undecided("the optimiser was not called through its helper")
        LD = as_nt(r.field("loss_data")).cls
        ld = NT(LD, [vec("tt", sz("n")), vec("target", sz("n")), sca("utp"), sca("lgt0")])
        u = arr("u", 4)
        it = ctx.interp()
        g = ctx.run(it, r.call[0], u, ld)
        holder["g"] = g

    ctx.ob("the loss handed to the optimiser is analysable", lossfn)
    if "g" in holder:
        g = holder["g"]
        U = ctx.get(DK, "DiffmahUParams")
        up = NT(U, [V.take(arr("u", 4), 0, i) for i in range(4)] + [sca("utp")])
        ref = T0(ctx.spec("fitter.loss", up, vec("tt", sz("n")), vec("target", sz("n")), sca("lgt0"), P))

        def l0():
            must("the loss", T0(g[0]), ref)

        ctx.ob("the loss is the mean square misfit of log10 mass", l0)

        def l1():
            ge = elems(g[1], 4)
            for i, e in enumerate(ge):
                must("gradient component %d" % i, e, tm.deriv(ref, tm.sym("u[%d]" % i)))

        ctx.ob("the gradient handed to the optimiser is that of the loss", l1)


def elems(v, n):
    if isinstance(v, Phi):
        a, b = elems(v.a, n), elems(v.b, n)
        return [tm.where(v.c, x, y) for x, y in zip(a, b)]
    if isinstance(v, NT):
        v = list(v.vals)
    if isinstance(v, (list, tuple)):
        r = [T0(x) for x in v]
    else:
        a = V.as_arr(v)
        if a.axes is None or len(a.axes) != 1 or not isinstance(a.axes[0], int):
            raise Undecided("not a fixed-length vector: %s" % sh(v))
        r = [a.data[(i,)] for i in range(a.axes[0])]
    if len(r) != n:
        raise Fail("vector of %d elements, expected %d" % (len(r), n))
    return r


# ------------------------------------------------------------------------ P27
def opaque_loss(n):
    """(loss, gradient) of n parameters as uninterpreted functions of the arguments"""

    def f(it, a, k):
        x = [V.to_term(v) for v in a]
        it.event("call", "loss", tuple(a), k)
        return (scalar(tm.atom("loss", *x)), Arr((n,), {(i,): tm.atom("dloss", C(i), *x) for i in range(n)}))

    return Model(f)


@prop("P27", 6)
def p27(ctx):
    ctx.rule("the minimiser is called with the loss, the gradient, the start and the data by role; under the facts 'BFGS succeeded with a finite positive loss' the "
             "result is (x, fun, success, 0), under any other it is Adam's (best, loss, terminates, 1)")
    calls, h = [], {}

    def adam(it, vals):
        calls.append(dict(vals))
        return [arr("pa", 4), sca("la"), vec("larr", sz("m")), vec("parr", sz("m")), sca("ta")]

    def run():
        it = h["it"] = ctx.interp()
        stub(ctx, it, BW, "jax_adam_wrapper", adam)
        h["r"] = ctx.run(it, ctx.get(BW, "bfgs_adam_fallback"), opaque_loss(4), arr("u0", 4), sca("ld"), sca("ns"), sca("nw"))

    ctx.ob("bfgs_adam_fallback is analysable", run)
    if "r" not in h:
        return
    ev = [e for e in h["it"].events if e.kind == "call" and e.what == "scipy.optimize.minimize"]

    def args():
        if len(ev) != 1:
            raise Undecided("%d calls of scipy.optimize.minimize" % len(ev))
        e = ev[0]
        d, res = e.kw, e.res
        must_same("start of the minimiser", d.get("x0"), arr("u0", 4))
        if not isinstance(d.get("method"), str):
            raise Undecided("the minimisation method is %s" % (sh(d["method"]) if d.get("method") is not None else "the default one"))
        if d["method"].upper() != "L-BFGS-B":
            raise Fail("the minimiser called is %s, required L-BFGS-B" % d["method"])
        extra = d.get("args", ())
        extra = list(extra) if isinstance(extra, (tuple, list)) else [extra]
        x = arr("x", 4)
        it = ctx.interp()
        ref = opaque_loss(4).fn(it, [x, sca("ld")], {})
        f = ctx.run(it, d["fun"], x, *extra)
        j = d.get("jac")
        if j is True or (isinstance(j, int) and j == 1):
            must_same("objective (value and gradient)", f, ref)
        else:
            must_same("objective", f, ref[0])
            if j is not None:
                must_same("gradient", ctx.run(it, j, x, *extra), ref[1])

    ctx.ob("L-BFGS minimises the loss, with its gradient, from the given start and data", args)
    if not ev or ev[0].res is None:
        return
    res = ev[0].res
    x, fun, ok = res.get("x"), T0(res.get("fun")), tm.as_bool(T0(res.get("success")))
    fin = tm.batom("isfinite", fun)

    def result(facts, sub, want):
        r = h["r"]
        got = [put(pick(r, i, sub), names) for i in range(4)]
        facts = [(k, tm.subst(d, names), q) for k, d, q in facts]
        for n, g, w in zip(("parameters", "loss", "fit_terminates", "code_used"), got, want):
            must_same(n, g, put(w, names), facts)

    xs = list(elems(x, 4))
    # the minimiser's results by name
    names = {t: tm.sym("bfgs.x%d" % i) for i, t in enumerate(xs)}
    names[fun] = tm.sym("bfgs.fun")
    good = {ok: tm.TRUE, fin: tm.TRUE}
    ctx.ob("a successful BFGS fit is returned with its loss and code 0",
           lambda: result([("sign", fun, 1)], good, [Arr((4,), {(i,): t for i, t in enumerate(xs)}), scalar(fun), scalar(tm.TRUE), 0]))
    fall = [arr("pa", 4), sca("la"), sca("ta"), 1]
    ctx.ob("a BFGS fit that reports failure is replaced by Adam's, code 1", lambda: result([], {ok: tm.FALSE}, fall))
    ctx.ob("a BFGS fit whose loss is not finite is replaced by Adam's, code 1", lambda: result([], {ok: tm.TRUE, fin: tm.FALSE}, fall))

    def acall():
        if len(calls) != 1:
            raise Undecided("%d calls of the Adam helper" % len(calls))
        v = list(calls[0].values())
        it = ctx.interp()
        must_same("loss minimised by Adam", ctx.run(it, v[0], arr("x", 4), sca("q")), opaque_loss(4).fn(it, [arr("x", 4), sca("q")], {}))
        for n, g, w in (("start", v[1], arr("u0", 4)), ("data", v[2], sca("ld")), ("steps", v[3], sca("ns")), ("warmup rounds", v[4], sca("nw"))):
            must_same("%s of the Adam fit" % n, put(g, names), w)

    ctx.ob("Adam gets the loss, start, data, steps and warmup by role", acall)


def decide(c, facts):
    if facts and c.op != "b":
        if tm.implied(c, facts)[0]:
            return tm.TRUE
        if tm.implied(tm.not_(c), facts)[0]:
            return tm.FALSE
    return c


def pick(v, i, sub, facts=()):
    """component i of a (conditional) sequence, with boolean atoms replaced"""
    if isinstance(v, Phi):
        c = decide(tm.subst(v.c, sub), facts)
        if c.op == "b":
            return pick(v.a if c.args[0] else v.b, i, sub, facts)
        return V.join(c, pick(v.a, i, sub, facts), pick(v.b, i, sub, facts))
    if not isinstance(v, (list, tuple)):
        raise Undecided("result is not a sequence: %s" % sh(v))
    if i >= len(v):
        raise Fail("result has %d elements" % len(v))
    return put(v[i], sub, facts)


def put(v, sub, facts=()):
    if isinstance(v, NT):
        return NT(v.cls, [put(x, sub, facts) for x in v.vals])
    if isinstance(v, (list, tuple)):
        return [put(x, sub, facts) for x in v]
    if isinstance(v, Phi):
        c = decide(tm.subst(v.c, sub), facts)
        if c.op == "b":
            return put(v.a if c.args[0] else v.b, sub, facts)
        return V.join(c, put(v.a, sub, facts), put(v.b, sub, facts))
    if isinstance(v, Arr):
        return Arr(v.axes, {k: tm.subst(t, sub) for k, t in v.data.items()}, v.tag)
    return v


def must_same(name, got, want, facts=()):
    ds = list(diff(got, want, facts))
    hard = [d for d in ds if not d[4]]
    if hard:
        p, g, w, case, _ = hard[0]
        raise Fail("%s%s is %s, required %s%s" % (name, p, sh(g), sh(w), "" if case is None else " (when %s)" % case))
    if ds:
        raise Undecided("%s%s: comparison passes through %s" % (name, ds[0][0], ", ".join(sorted(ds[0][4]))))


# ------------------------------------------------------------------------ P28
@prop("P28", 8)
def p28(ctx):
    ctx.rule("jax_adam_wrapper unrolled for a small number of steps with an uninterpreted loss: under each ordering of the visited losses, and each first step at which "
             "loss or gradient stops being finite, the result is the visited point of least loss and its own loss, fit_terminates = no such step")
    N, data = (5 if ctx.tier == "thorough" else 3), sca("data")

    def run(n, nw, **kw):
        it = ctx.interp()
        r = ctx.run(it, ctx.get(FU, "jax_adam_wrapper"), opaque_loss(2), arr("p0", 2), data, n, nw, **kw)
        return r

    def ref(p0, n, step):
        pts, ls = ctx.spec("fitter.adam_run", opaque_loss(2), p0, data, n, step)
        return pts, ls

    def finite(r, bad):
        """boolean atoms isfinite(t), by whether t depends on a value that is not finite"""
        sub = {}
        for t in all_terms(r):
            for s in tm.subterms(t):
                if s.op == "batom" and s.args[0] in ("isfinite", "isnan", "isinf"):
                    ok = not any(b in tm.subterms(s.args[1]) for b in bad)
                    sub[s] = tm.TRUE if ok == (s.args[0] == "isfinite") else tm.FALSE
        return sub

    def case(r, pts, ls, k, among, bad, code):
        sub = finite(r, bad)
        L = [T0(x) for x in ls]
        facts = [("sign", L[j], 1) for j in range(len(L)) if L[j] not in bad]
        facts += [("sign", tm.sub(L[j], L[k]), 1) for j in among if j != k]
        names = ("parameters", "loss")
        for n, i, w in ((names[0], 0, pts[k]), (names[1], 1, ls[k])):
            must_same(n, pick(r, i, sub), w, facts)
        must_same("fit_terminates", num_of(pick(r, 4, sub)), scalar(C(code)), facts)

    h = {}

    def go():
        h["r"] = run(N, 0, step_size=sca("h"))
        h["ref"] = ref(arr("p0", 2), N, sca("h"))

    ctx.ob("jax_adam_wrapper is analysable", go)
    if "ref" in h:
        r, (pts, ls) = h["r"], h["ref"]
        for k in range(N):
            ctx.ob("best visited point is returned (best at step %d)" % k, case, r, pts, ls, k, range(N), [], 1)
        for j in range(1, N):
            for k in range(j):
                for what, bad in (("loss", T0(ls[j])), ("gradient", None)):
                    if bad is None:
                        bad = tm.atom("dloss", C(1), *[V.to_term(pts[j]), V.to_term(data)])
                    ctx.ob("best point before step %d, where the %s is not finite (best at %d)" % (j, what, k), case, r, pts, ls, k, range(j), [bad], 0)

        def nan0():
            sub = finite(r, [T0(ls[0])])
            must_same("parameters", pick(r, 0, sub), arr("p0", 2))
            must_same("fit_terminates", num_of(pick(r, 4, sub)), scalar(C(0)))

        ctx.ob("a fit that is not finite from the start returns the start and fit_terminates 0", nan0)

        def hist():
            sub = finite(r, [])
            facts = [("sign", T0(x), 1) for x in ls]
            must_same("loss history", pick(r, 2, sub, facts), list(ls), facts)
            must_same("parameter history", pick(r, 3, sub, facts), [V.as_arr(p) for p in pts], facts)

        ctx.ob("loss and parameter histories are those of the steps", hist)

    def warm():
        r = run(2, 1, step_size=sca("h"), warmup_n_step=2)
        p1, l1 = ref(arr("p0", 2), 2, V.scalar(tm.scale(5, tm.sym("h"))))
        for k in range(2):
            p2, l2 = ref(p1[k], 2, sca("h"))
            sub = finite(r, [])
            A, B = [T0(x) for x in l1], [T0(x) for x in l2]
            for m in range(2):
                facts = [("sign", x, 1) for x in A + B] + [("sign", tm.sub(A[1 - k], A[k]), 1), ("sign", tm.sub(B[1 - m], B[m]), 1)]
                for n, i, w in (("parameters", 0, p2[m]), ("loss", 1, l2[m])):
                    g = pick(r, i, sub)
                    must_same("%s (warmup best at %d, best at %d)" % (n, k, m), refine(g, facts), w, facts)
                must_same("fit_terminates (warmup best at %d, best at %d)" % (k, m), refine(num_of(pick(r, 4, sub, facts)), facts), scalar(C(1)), facts)

    ctx.ob("the final burn starts from the best point of the warmup, whose steps are five times larger", warm)

    def tolerance(nw):
        """steps down to tol, without anything that is not finite"""
        tol = tm.sym("tol")
        n = 3
        r = run(n, nw, step_size=sca("h"), tol=scalar(tol), **({} if not nw else dict(warmup_n_step=2)))
        pts, ls = ref(arr("p0", 2), 2 if nw else n, V.scalar(tm.scale(5, tm.sym("h"))) if nw else sca("h"))
        L = [tm.sub(T0(x), tol) for x in ls]
        sub = finite(r, [])
        for m in range(len(L)):
            facts = [("sign", L[j], 1) for j in range(m)] + [("sign", L[m], -1)]
            for nm, i, w in (("parameters", 0, pts[m]), ("loss", 1, ls[m])):
                must_same("%s (below tol first at step %d)" % (nm, m), refine(pick(r, i, sub, facts), facts), w, facts)
            must_same("fit_terminates of a fit that reached tol at step %d" % m, refine(num_of(pick(r, 4, sub, facts)), facts), scalar(C(1)), facts)

    ctx.ob("the first step below tol is returned, and such a fit terminates", tolerance, 0)
    ctx.ob("a warmup that gets below tol is returned, and such a fit terminates", tolerance, 1)

    def perfect():
        """a loss of zero, the least value of a mean square, at every visited point"""
        r = run(3, 1, step_size=sca("h"), warmup_n_step=2)
        sub = finite(r, [])
        p, ls = ref(arr("p0", 2), 2, V.scalar(tm.scale(5, tm.sym("h"))))
        _, l2 = ref(p[0], 3, sca("h"))
        facts = [("sign", T0(x), 0) for x in ls] + [("sign", T0(x), 0) for x in l2]
        must_same("fit_terminates", refine(num_of(pick(r, 4, sub, facts)), facts), scalar(C(1)), facts)

    ctx.ob("a fit whose loss is exactly zero from the start terminates", perfect)


def refine(v, facts):
    a = V.as_arr(v)
    return Arr(a.axes, {k: resolve(t, facts) for k, t in a.data.items()})


def num_of(v):
    a = V.as_arr(v)
    return Arr(a.axes, {k: num(t) for k, t in a.data.items()})


def all_terms(v):
    if isinstance(v, Phi):
        return [v.c] + all_terms(v.a) + all_terms(v.b)
    if isinstance(v, NT):
        v = v.vals
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in all_terms(x)]
    if isinstance(v, Arr):
        return list(v.data.values())
    return []
