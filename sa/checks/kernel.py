from ..core import *
from .. import posy

DK = "diffmah.diffmah_kernels"
PUB = "diffmah"
PARAMS = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def setup(ctx):
    P = ctx.get(PUB, "DiffmahParams")
    if not isinstance(P, NTCls) or P.fields != PARAMS:
        raise ProgError("DiffmahParams fields are %s" % (getattr(P, "fields", P),))
    return P


def t0_of(lg):
    return tm.exp(tm.mul(lg, tm.ln(C(10))))


# ------------------------------------------------------------------------ P01
@prop("P01", 5)
def p01(ctx):
    ctx.rule("value number of log_mah returned by each public entry point equals the documented rolling power law clipped at t_peak")
    P = setup(ctx)
    mp, t, lg = nt(P, "p."), vec("t", TT), sca("lgt0")
    r = ctx.ob("mah_singlehalo is analysable", lambda: ctx.call(PUB, "mah_singlehalo", mp, t, lg))
    if r is not None:
        ctx.same("mah_singlehalo log_mah is the rolling power law frozen at t_peak", r[1], ctx.spec("kernel.logm", mp, t, lg))
    s = sca("t1")
    r2 = ctx.ob("logmh_at_t_obs is analysable", lambda: ctx.call(PUB, "logmh_at_t_obs", mp, s, lg))
    if r2 is not None:
        ctx.same("logmh_at_t_obs is the rolling power law frozen at t_peak", r2, ctx.spec("kernel.logm", mp, s, lg))
    if r is not None:

        def at0():
            t0 = t0_of(tm.sym("lgt0"))
            v = tm.subst(r[1].data[()], {tm.sym("t", V.ixvars((TT,))[0]): t0})
            tp = tm.sym("p.t_peak")
            for what, x, facts in (("t0 < t_peak", v, [("sign", tm.sub(t0, tp), -1)]), ("t0 == t_peak", tm.subst(v, {tp: t0}), [])):
                ok, case = tm.equal(x, tm.sym("p.logm0"), facts)
                if not ok:
                    if imprecise(x):
                        raise Undecided("imprecise")
                    raise Fail("log_mah at t0 is %s, not logm0 (%s)" % (sh(x), what))

        ctx.ob("log_mah(t0) == logm0 for a halo still growing at t0", at0)
    ctx.same("MAH_K is the transition speed 3.5", ctx.get("diffmah.defaults", "MAH_K"), 3.5)


# ------------------------------------------------------------------------ P02
@prop("P02", 4)
def p02(ctx):
    ctx.rule("under the fact t > t_peak (and t == t_peak for the mass) dmhdt is the constant 0 and log_mah does not depend on t")
    P = setup(ctx)
    mp, lg = nt(P, "p."), sca("lgt0")
    tp = tm.sym("p.t_peak")

    def one(name, call, tt, i, j):
        r = ctx.ob(name + " is analysable", call)
        if r is None:
            return

        def f():
            d, m = r
            for x in (d, m):
                if x.axes is None or len(x.data) != 1:
                    raise Undecided("unexpected array layout")
            d, m = d.data[()], m.data[()]
            facts = [("sign", tm.sub(tt, i), 1)]
            ok, case = tm.equal(d, tm.ZERO, facts)
            if not ok:
                if imprecise(d):
                    raise Undecided("imprecise")
                raise Fail("dmhdt after t_peak is %s, not 0" % sh(d))
            at = tm.subst(m, {tt: i})
            for facts, q in ((facts, m),):
                ok, case = tm.equal(q, at, facts)
                if not ok:
                    if imprecise(q):
                        raise Undecided("imprecise")
                    raise Fail("log_mah after t_peak is %s, but %s at t_peak" % (sh(q), sh(at)))
            # continuity: the growing branch meets the frozen value at t_peak
            grow = resolve(m, [("sign", tm.sub(tt, i), -1)])
            ok, case = tm.equal(tm.subst(grow, {tt: i}), at)
            if not ok and not imprecise(grow):
                raise Fail("log_mah jumps at t_peak: %s before, %s after" % (sh(tm.subst(grow, {tt: i})), sh(at)))

        ctx.ob(name + ": no growth after t_peak, mass continuous and frozen", f)

    ti = tm.sym("t", V.ixvars((TT,))[0])
    one("mah_singlehalo", lambda: ctx.call(PUB, "mah_singlehalo", mp, vec("t", TT), lg), ti, tp, 0)
    hp = nt(P, "p.", H)
    ht = V.ixvars((H, TT))
    one("mah_halopop", lambda: ctx.call(PUB, "mah_halopop", hp, vec("t", TT), lg), tm.sym("t", ht[1]), tm.sym("p.t_peak", ht[0]), 0)


# ------------------------------------------------------------------------ P03
def growth_sign(m, tt, lg, names, idx=()):
    """sign of d log_mah/dD with log10 t = lgt0 - D/ln10, D >= 0, early = late + e"""
    s = lambda n: tm.sym("p." + n, *idx)
    D, e = tm.sym("D"), tm.sym("e")
    x = tm.exp(tm.sub(tm.mul(lg, tm.ln(C(10))), D))
    grow = resolve(m, [("sign", tm.sub(tt, s("t_peak")), -1)])
    grow = tm.subst(grow, {tt: x})
    grow = tm.subst(grow, {s("early_index"): tm.add(s("late_index"), e)})
    d = tm.neg(tm.deriv(grow, D))
    return posy.sign(d, {D: posy.NONNEG, e: posy.NONNEG, s("late_index"): posy.POS})


@prop("P03", 3)
def p03(ctx):
    ctx.rule("sign analysis of d(log_mah)/d(log t) on its rational normal form, for t <= t0 and early >= late > 0; the frozen part is constant and joins continuously")
    P = setup(ctx)
    mp, t, lg = nt(P, "p."), vec("t", TT), sca("lgt0")
    ti = tm.sym("t", V.ixvars((TT,))[0])
    tp = tm.sym("p.t_peak")
    r = ctx.ob("mah_singlehalo is analysable", lambda: ctx.call(PUB, "mah_singlehalo", mp, t, lg))
    if r is None:
        return
    want = lambda: ctx.spec("kernel.logm", mp, t, lg)

    def grow():
        m = r[1].data[()]
        return growth_sign(m, ti, tm.sym("lgt0"), None) in (posy.POS, posy.NONNEG)

    prove(ctx, "log_mah is non-decreasing up to min(t_peak, t0)", grow, r[1], want, what="monotonicity")

    def frozen():
        m = r[1].data[()]
        at = tm.subst(m, {ti: tp})
        g = tm.subst(resolve(m, [("sign", tm.sub(ti, tp), -1)]), {ti: tp})
        return tm.equal(m, at, [("sign", tm.sub(ti, tp), 1)])[0] and tm.equal(g, at)[0]

    prove(ctx, "log_mah is constant after t_peak and joins continuously", frozen, r[1], want, what="constancy")

    def rate():
        d = r[0].data[()]
        s = lambda n: tm.sym("p." + n)
        D, e = tm.sym("D"), tm.sym("e")
        x = tm.exp(tm.sub(tm.mul(tm.sym("lgt0"), tm.ln(C(10))), D))
        after = resolve(d, [("sign", tm.sub(ti, tp), 1)])
        ok = posy.sign(after) in (posy.ZERO, posy.NONNEG, posy.POS)
        before = tm.subst(resolve(d, [("sign", tm.sub(ti, tp), -1)]), {ti: x})
        before = tm.subst(before, {s("early_index"): tm.add(s("late_index"), e)})
        return ok and posy.sign(before, {D: posy.NONNEG, e: posy.NONNEG, s("late_index"): posy.POS}) in (posy.POS, posy.NONNEG)

    prove(ctx, "dmhdt is never negative up to t0", rate, r[0], lambda: ctx.spec("kernel.rate", mp, t, lg), what="non-negativity")


# ------------------------------------------------------------------------ P04
@prop("P04", 3)
def p04(ctx):
    ctx.rule("the returned dmhdt equals the formal t-derivative of 10**(returned log_mah) divided by 1e9, away from t == t_peak")
    P = setup(ctx)
    lg = sca("lgt0")

    def one(name, r, tt, tp):
        def f():
            d, m = r
            if d.axes is None or m.axes is None or not same_axes(d.axes, m.axes):
                raise Fail("dmhdt and log_mah have different shapes: %s and %s" % (d.axes and axs(d.axes), m.axes and axs(m.axes)))
            for k in m.data:
                for sgn in (-1, 1):
                    facts = [("sign", tm.sub(tt, tp), sgn)]
                    mm = resolve(m.data[k], facts)
                    want = tm.scale(Fr(1, 10**9), tm.deriv(tm.exp(tm.mul(mm, tm.ln(C(10)))), tt))
                    g = resolve(d.data[k], facts)
                    ok, case = tm.equal(g, want, facts)
                    if not ok:
                        if imprecise(g) or imprecise(want):
                            raise Undecided("imprecise")
                        raise Fail("dmhdt is %s, but d(10**log_mah)/dt/1e9 is %s (t %s t_peak)" % (sh(g), sh(want), "<" if sgn < 0 else ">"))

        ctx.ob(name, f)

    mp, t = nt(P, "p."), vec("t", TT)
    ti = tm.sym("t", V.ixvars((TT,))[0])
    r = ctx.ob("mah_singlehalo is analysable", lambda: ctx.call(PUB, "mah_singlehalo", mp, t, lg))
    if r is not None:
        one("mah_singlehalo: dmhdt is the derivative of the mass in Msun/yr", r, ti, tm.sym("p.t_peak"))
    hp = nt(P, "p.", H)
    ht = V.ixvars((H, TT))
    r = ctx.ob("mah_halopop is analysable", lambda: ctx.call(PUB, "mah_halopop", hp, t, lg))
    if r is not None:
        one("mah_halopop: dmhdt is the derivative of the mass in Msun/yr", r, tm.sym("t", ht[1]), tm.sym("p.t_peak", ht[0]))


# ------------------------------------------------------------------------ P05
@prop("P05", 5)
def p05(ctx):
    ctx.rule("element (i, j) of the population result has the value number of the single-halo result for halo i at time j; shapes are (n_halos, n_times)")
    P = setup(ctx)
    lg, t = sca("lgt0"), vec("t", TT)
    mp, hp = nt(P, "p."), nt(P, "p.", H)
    a = ctx.ob("mah_singlehalo is analysable", lambda: ctx.call(PUB, "mah_singlehalo", mp, t, lg))
    b = ctx.ob("mah_halopop is analysable", lambda: ctx.call(PUB, "mah_halopop", hp, t, lg))
    ix = tm.idx("halo")
    m = {tm.sym("p." + f): tm.sym("p." + f, ix) for f in P.fields}
    if a is not None and b is not None:
        for k, what in ((0, "dmhdt"), (1, "log_mah")):

            def f(k=k):
                x = a[k]
                if x.axes is None:
                    raise Undecided("opaque")
                y = V.add_axis(V.subst_val(x, m), H, ix)
                ds = list(diff(b[k], y))
                if ds:
                    if ds[0][4]:
                        raise Undecided(str(ds[0][4]))
                    raise Fail("%s: population gives %s, single halo %s" % (ds[0][0], sh(ds[0][1]), sh(ds[0][2])))
                if x.axes != (TT,):
                    raise Fail("single-halo shape is %s, not (n_times,)" % axs(x.axes))

            ctx.ob("population %s row i equals the single-halo result of halo i" % what, f)
    # mass at a single time, scalar and population
    s = sca("t1")
    c = ctx.ob("logmh_at_t_obs(scalar) is analysable", lambda: ctx.call(PUB, "logmh_at_t_obs", mp, s, lg))
    d = ctx.ob("logmh_at_t_obs(population) is analysable", lambda: ctx.call(PUB, "logmh_at_t_obs", hp, vec("t1", H), lg))
    if a is not None and c is not None:
        ctx.same("logmh_at_t_obs equals log_mah of mah_singlehalo at that time", c,
                 V.subst_val(V.take(a[1], 0, ix), {tm.sym("t", ix): tm.sym("t1")}))
    if c is not None and d is not None:
        m2 = dict(m)
        m2[tm.sym("t1")] = tm.sym("t1", ix)
        ctx.same("logmh_at_t_obs of a population is element-wise", d, V.add_axis(V.subst_val(c, m2), H, ix))


    # the kernels behind them that other packages and the fitter call
    if a is None:
        return
    UP = ctx.get(DK, "DiffmahUParams")
    if not isinstance(UP, NTCls):
        return
    up = nt(UP, "u.")

    def at(x, tt):
        return V.subst_val(V.take(x, 0, ix), {tm.sym("t", ix): V.to_term(tt)})

    def variant(name, args, want):
        got = ctx.call(DK, name, *args)
        ds = list(diff(got, want))
        if ds:
            if ds[0][4]:
                raise Undecided(str(ds[0][4]))
            raise Fail("%s%s gives %s, mah_singlehalo %s" % (name, ds[0][0], sh(ds[0][1]), sh(ds[0][2])))

    one = (at(a[0], s), at(a[1], s))
    ten = Arr(a[1].axes, {k: tm.exp(tm.mul(x, tm.ln(C(10)))) for k, x in a[1].data.items()})
    ctx.ob("_diffmah_kern_scalar is mah_singlehalo at one time", variant, "_diffmah_kern_scalar", (mp, s, lg), one)
    ctx.ob("_diffmah_kern is mah_singlehalo", variant, "_diffmah_kern", (mp, t, lg), tuple(a))
    ctx.ob("_mah_kern is 10**log_mah", variant, "_mah_kern", (mp, t, lg), ten)

    def bounded():
        return ctx.call(PUB, "mah_singlehalo", ctx.call(DK, "get_bounded_mah_params", up), t, lg)

    b = ctx.ob("history of the bounded parameters", bounded)
    if b is not None:
        ctx.ob("_diffmah_kern_u_params is the history of the bounded parameters", variant, "_diffmah_kern_u_params", (up, t, lg), tuple(b))
        ctx.ob("_dmhdt_kern_u_params is the rate of the bounded parameters", variant, "_dmhdt_kern_u_params", (up, t, lg), b[0])
        ctx.ob("_log_mah_kern_u_params is the mass of the bounded parameters", variant, "_log_mah_kern_u_params", (up, t, lg), b[1])


# ------------------------------------------------------------------- P06, P07
def bounds(ctx):
    B = ctx.get(DK, "MAH_PBOUNDS")
    out = {}
    for f in PARAMS:
        lo, hi = [V.as_arr(x) for x in (field(B, f) if not isinstance(field(B, f), Arr) else [V.take(field(B, f), 0, i) for i in (0, 1)])]
        out[f] = (lo.data[()], hi.data[()])
    return out


@prop("P06", 8)
def p06(ctx):
    ctx.rule("sign analysis on the rational normal form: value - lower > 0 and upper - value > 0 for every real u")
    setup(ctx)
    U = ctx.get(DK, "DiffmahUParams")
    up = nt(U, "u.")
    r = ctx.ob("get_bounded_mah_params is analysable", lambda: as_nt(ctx.call(DK, "get_bounded_mah_params", up)))
    if r is None:
        return
    B = bounds(ctx)
    ref = lambda: ctx.spec("kernel.bounded", up)
    got = lambda: {k: field(r, k) for k in PARAMS}
    for k in PARAMS:
        lo, hi = B[k]
        v = lambda k=k: T0(field(r, k))
        if tm.fval(lo) is None or tm.fval(hi) is None or not tm.fval(lo) < tm.fval(hi):
            ctx.ob("%s bounds are ordered" % k, lambda: (_ for _ in ()).throw(Fail("bounds %s, %s" % (sh(lo), sh(hi)))))
        prove(ctx, "bounded %s is above its lower bound" % k, lambda: posy.pos(tm.sub(v(), lo)), got, ref, what="lower bound of %s" % k)
        prove(ctx, "bounded %s is below its upper bound" % k, lambda: posy.pos(tm.sub(hi, v())), got, ref, what="upper bound of %s" % k)
    prove(ctx, "bounded early_index >= late_index",
          lambda: posy.nonneg(tm.sub(T0(field(r, "early_index")), T0(field(r, "late_index")))), got, ref, what="early >= late")
    # default parameters inside the bounds
    D = ctx.get(PUB, "DEFAULT_MAH_PARAMS")

    def dflt():
        v = {k: val(field(D, k)) for k in PARAMS}
        for k in PARAMS:
            lo, hi = tm.fval(B[k][0]), tm.fval(B[k][1])
            if not lo < v[k] < hi:
                raise Fail("default %s = %s is outside (%s, %s)" % (k, v[k], lo, hi))
        if not v["early_index"] > v["late_index"]:
            raise Fail("default early_index is not above late_index")

    ctx.ob("DEFAULT_MAH_PARAMS lie strictly inside the bounds", dflt)


@prop("P07", 4)
def p07(ctx):
    ctx.rule("value number of bounded(unbounded(p)) is p and of unbounded(bounded(u)) is u, field by field, for scalars and arrays")
    P = setup(ctx)
    U = ctx.get(DK, "DiffmahUParams")
    if U.fields != tuple("u_" + f for f in P.fields):
        ctx.ob("u-parameter names", lambda: (_ for _ in ()).throw(Fail("DiffmahUParams fields %s do not name the parameters in order" % (U.fields,))))
    for ax in ((), (H,)):
        w = "arrays" if ax else "scalars"
        pp, uu = nt(P, "p.", *ax), nt(U, "u.", *ax)

        def b2(x):
            return ctx.call(DK, "get_bounded_mah_params", x)

        def u2(x):
            return ctx.call(DK, "get_unbounded_mah_params", x)

        r = ctx.ob("bounded(unbounded(p)) is analysable (%s)" % w, lambda: b2(u2(pp)))
        if r is not None:
            ctx.same("bounded(unbounded(p)) == p (%s)" % w, r, pp)
        r = ctx.ob("unbounded(bounded(u)) is analysable (%s)" % w, lambda: u2(b2(uu)))
        if r is not None:
            ctx.same("unbounded(bounded(u)) == u (%s)" % w, r, uu)
    # every unbounded argument feeds only its own parameter (early also depends on late)
    dp = ctx.get(DK, "DEFAULT_MAH_U_PARAMS")
    ctx.same("DEFAULT_MAH_U_PARAMS are the unbounded defaults", dp, ctx.call(DK, "get_unbounded_mah_params", ctx.get(PUB, "DEFAULT_MAH_PARAMS")))
