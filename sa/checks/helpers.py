"""P38-P40: numerical helpers, target measurements, sub-model calibration losses."""
from .. import terms as tm
from .. import values as V
from ..core import *  # noqa
from ..core import prop, Fail, Undecided, diff
from ..interp import MissingAnchor
from ..values import NT, Arr, Fn, NTCls, Xf, scalar
from .pop import priv
from .popparams import repo_modules, local_names, nt_classes, CSP, POP

UT = "diffmah.utils"
MM = "diffmah.fitting_helpers.measure_mahs"
PU = POP + ".param_utils"


def sums(xs):
    out = tm.ZERO
    for x in xs:
        out = tm.add(out, x)
    return out


@prop("P38", 20)
def p38(ctx):
    ctx.rule("value numbers of the helpers equal their documented definitions: midpoints, triangular layout, trimmed moments, covariance/correlation, "
             "broadcasting, branch selection, parameter subsets; inverse pairs compose to the identity")
    x = [sca(n) for n in ("x", "x0", "k", "ylo", "yhi")]
    sg = priv(ctx, UT, "_sigmoid")
    r = ctx.ob("sigmoid is analysable", lambda: ctx.call(UT, "_sigmoid", *x))
    if r is not None:
        ctx.same("sigmoid is the logistic curve from ylo to yhi through x0 at rate k", r, ctx.spec("helpers.sigmoid", *x), where=fn_where(sg))
        i = ctx.ob("inverse sigmoid is analysable", lambda: ctx.call(UT, "_inverse_sigmoid", r, *x[1:]))
        if i is not None:
            ctx.same("the inverse sigmoid undoes the sigmoid", i, x[0])
    # time steps
    for n in (2, 3, 4, 5) + ((6, 7, 8) if ctx.tier == "thorough" else ()):
        def dt(n=n):
            t = arr("t", n)
            d = V.as_arr(ctx.call(UT, "get_dt_array", t))
            if d.axes != (n,):
                raise Fail("shape %s for %d times" % (axs(d.axes), n))
            T_ = [t.data[(i,)] for i in range(n)]
            D = [d.data[(i,)] for i in range(n)]
            half = tm.C(Fr(1, 2))
            for i in range(1, n - 1):
                w = tm.mul(half, tm.sub(T_[i + 1], T_[i - 1]))
                if not tm.equal(D[i], w)[0]:
                    raise Fail("step %d of %d is %s, not from midpoint to midpoint" % (i, n, sh(D[i])))
            if not tm.equal(D[0], tm.sub(T_[1], T_[0]))[0]:
                raise Fail("the first step is %s, not centred on the first time" % sh(D[0]))
            # the last step starts at the last midpoint and ends half a step beyond the last time
            w = tm.add(tm.mul(half, tm.sub(T_[-1], T_[-2])), tm.mul(half, D[-2]))
            if not tm.equal(D[-1], w)[0]:
                raise Fail("the last step is %s" % sh(D[-1]))

        ctx.ob("time steps tile the interval, midpoint to midpoint (%d times)" % n, dt)
    # Cholesky layout
    for nd in (1, 2, 3, 4) + ((5, 6) if ctx.tier == "thorough" else ()):
        def chol(nd=nd):
            m = nd * (nd + 1) // 2
            c = V.as_arr(ctx.call(UT, "get_cholesky_from_params", arr("p", m)))
            if c.axes != (nd, nd):
                raise Fail("%d parameters give shape %s" % (m, axs(c.axes)))
            k = nd
            for i in range(nd):
                for j in range(nd):
                    if i == j:
                        w = tm.sym("p[%d]" % i)
                    elif j < i:
                        w, k = tm.sym("p[%d]" % k), k + 1
                    else:
                        w = tm.ZERO
                    if not tm.equal(c.data[(i, j)], w)[0]:
                        raise Fail("entry (%d, %d) of the %d-dimensional factor is %s, documented %s" % (i, j, nd, sh(c.data[(i, j)]), sh(w)))

        ctx.ob("Cholesky factor: diagonal first, then rows below it (dimension %d)" % nd, chol)
    # trimmed moments
    X, p = vec("x", TT), sca("p")
    r = ctx.ob("trimmed_mean is analysable", lambda: ctx.call(UT, "trimmed_mean", X, p))
    if r is not None:
        ctx.same("trimmed mean is the mean of the points between the percentiles", r, ctx.spec("helpers.tmean", X, p))
    r = ctx.ob("trimmed_mean_and_variance is analysable", lambda: ctx.call(UT, "trimmed_mean_and_variance", X, p))
    if r is not None:
        def tmv():
            if len(r) != 2:
                raise Fail("%d results" % len(r))

        ctx.ob("trimmed mean and variance come as a pair", tmv)
        ctx.same("its mean is the trimmed mean", r[0], ctx.spec("helpers.tmean", X, p))
        # which weights are positive depends on the (positive) number of points kept: three points, every way of keeping some
        for n in (2, 3, 4):
            ctx.ob("its variance is the sample variance of the same points (%d points)" % n, tvar_ok, ctx, n, p)
    # covariance and correlation
    for n in (1, 2, 3) + ((4,) if ctx.tier == "thorough" else ()):
        c, s = arr("c", n, n), arr("s", n)
        r = ctx.ob("covariance_from_correlation is analysable (%d)" % n, lambda: ctx.call(UT, "covariance_from_correlation", c, s))
        if r is not None:
            ctx.same("covariance is corr_ij s_i s_j (%d)" % n, r, ctx.spec("helpers.cov", c, s))
        r = ctx.ob("correlation_from_covariance is analysable (%d)" % n, lambda: ctx.call(UT, "correlation_from_covariance", c))
        if r is not None:
            ctx.same("correlation is cov_ij over the root of the product of the variances (%d)" % n, r, ctx.spec("helpers.corr", c, scalar(tm.C(n))),
                     [("sign", c.data[(i, i)], 1) for i in range(n)])
    # broadcasting
    for nm, ins, jx in (("a float and an array", [sca("a"), arr("b", 4)], False), ("length-one and full arrays", [arr("a", 1), arr("b", 4), sca("c")], True),
                        ("floats", [sca("a"), sca("b")], False), ("arrays", [arr("a", 3), arr("b", 3)], True)):
        def bc(ins=ins, jx=jx):
            out = ctx.call(UT, "get_1d_arrays", *ins, jax_arrays=jx)
            n = max([a.axes[0] if a.axes else 1 for a in map(V.as_arr, ins)])
            if len(out) != len(ins):
                raise Fail("%d results for %d arguments" % (len(out), len(ins)))
            for q, (o, a) in enumerate(zip(out, ins)):
                o, a = V.as_arr(o), V.as_arr(a)
                if o.axes != (n,):
                    raise Fail("result %d has shape %s" % (q, axs(o.axes)))
                for i in range(n):
                    w = a.data[()] if not a.axes else a.data[(i if a.axes[0] == n else 0,)]
                    if not tm.equal(o.data[(i,)], w)[0]:
                        raise Fail("result %d: entry %d is %s, required %s" % (q, i, sh(o.data[(i,)]), sh(w)))

        ctx.ob("get_1d_arrays gives every argument the common length (%s)" % nm, bc)

    def mism():
        from ..values import ProgError
        try:
            ctx.call(UT, "get_1d_arrays", arr("a", 3), arr("b", 4))
        except ProgError:
            return
        raise Fail("arrays of lengths 3 and 4 are accepted")

    ctx.ob("get_1d_arrays rejects arrays of different lengths", mism)
    # branch selection
    D = ctx.get("diffmah.defaults", "DEFAULT_MAH_PARAMS")
    Pc = as_nt(D).cls
    p1, p0 = nt(Pc, "one.", H), nt(Pc, "zero.", H)
    m = Arr((H,), {(): tm.sym("is1", V.ixvars((H,))[0])})
    msk = V.emap(lambda t: tm.as_bool(t), m)
    r = ctx.ob("mc_select_diffmah_params is analysable", lambda: as_nt(ctx.call(PU, "mc_select_diffmah_params", p1, p0, msk)))
    if r is not None:
        want = NT(Pc, [V.emap(lambda c, a, b: tm.where(c, a, b), msk, a, b) for a, b in zip(p1.vals, p0.vals)])
        ctx.same("a halo takes every parameter from the population its flag selects", r, want)
    # parameter subsets
    A = as_nt(ctx.get(CSP, "DEFAULT_DIFFMAHPOP_PARAMS"))
    allp = nt(A.cls, "p.")
    fl = list(A.cls.fields)
    for nm, exc in (("no", []), ("three", [fl[0], fl[7], fl[-1]]), ("all but one", fl[:5] + fl[6:]), ("parts of names", sorted({p for f in fl for p in (f[:-1], f[1:], f.split("_", 1)[-1], f.rsplit("_", 1)[0])} - set(fl)))):
        def sub(exc=exc):
            v = as_nt(ctx.call(CSP, "get_varied_params_by_exclusion", allp, exc))
            want = [f for f in fl if f not in exc]
            if list(v.cls.fields) != want:
                raise Fail("fields %s, required %s" % (list(v.cls.fields)[:8], want[:8]))
            for f in want:
                for d in diff(v.get(f), allp.get(f)):
                    if d[4]:
                        raise Undecided("%s: %s" % (f, d[4]))
                    raise Fail("%s holds %s" % (f, sh(d[1])))

        ctx.ob("the varied parameters are exactly those not excluded, by name (%s excluded)" % nm, sub)

    def back(base=None):
        A_ = A if base is None else base
        exc = [fl[0], fl[7], fl[-1]]
        v = as_nt(ctx.call(CSP, "get_varied_params_by_exclusion", allp, exc))
        r = as_nt(ctx.run(ctx.interp(), priv(ctx, CSP, "_get_all_diffmahpop_params_from_varied"), *([v] if base is None else [v, base])))
        if r.cls.fields != A.cls.fields:
            raise Fail("fields %s" % (r.cls.fields[:6],))
        for f in fl:
            w = A_.get(f) if f in exc else allp.get(f)
            for d in diff(r.get(f), w):
                if d[4]:
                    raise Undecided("%s: %s" % (f, d[4]))
                raise Fail("%s is %s, required %s" % (f, sh(d[1]), sh(d[2])))

    ctx.ob("varied parameters are merged into the defaults by name", back)
    ctx.ob("varied parameters are merged into the collection given, by name", back, nt(A.cls, "base."))


def tvar_ok(ctx, n, p):
    X = arr("x", n)
    got = ctx.call(UT, "trimmed_mean_and_variance", X, p)[1]
    want = ctx.spec("helpers.tvar", X, p)
    # the variance of fewer than two points is undefined: two are kept, the others are not decided
    lo, hi = [T0(ctx.spec("helpers.cut", X, p, scalar(tm.C(q)))) for q in (0, 1)]
    facts = []
    for i in (0, 1):
        facts += [("sign", tm.sub(X.data[(i,)], lo), 1), ("sign", tm.sub(hi, X.data[(i,)]), 1)]
    ds = list(diff(got, want, facts))
    if not ds:
        return
    if ds[0][4]:
        raise Undecided(str(ds[0][4]))
    raise Fail("computed %s, required %s when %s" % (sh(ds[0][1]), sh(ds[0][2]), ds[0][3]))


@prop("P39", 5)
def p39(ctx):
    ctx.rule("value numbers of the measured targets equal mean / variance over halos of the histories rescaled to the common final mass, interpolated "
             "at the target times; the clean-sample mask equals the conjunction over times of the trimmed z-score cut")
    S = sz("nt_out")
    mah, dm, lgt, lgtt, lm = vec("mah", H, TT), vec("dmhdt", H, TT), vec("lgt", TT), vec("lgt_target", S), sca("logmp")
    r = ctx.ob("measure_target_data is analysable", lambda: ctx.call(MM, "measure_target_data", mah, dm, lgt, lgtt, lm))
    if r is not None:
        def five():
            if len(r) != 5:
                raise Fail("%d results" % len(r))

        ctx.ob("five targets are returned", five)
        a = (mah, lm, lgt, lgtt)
        for i, (nm, sp, q) in enumerate((("mean mass", "target_mean", mah), ("mean log mass", "target_mean_log", mah), ("variance of log mass", "target_var_log", mah),
                                         ("mean accretion rate", "target_mean", dm), ("variance of accretion rate", "target_var", dm))):
            ctx.same("%s of the rescaled histories at the target times" % nm, r[i], ctx.spec("helpers." + sp, q, *a))
    n_t = 5
    L = arr("log_mah", H, n_t)
    for it in (0, 2, 3, 4):
        g = ctx.ob("get_clean_sample_mask is analysable (from time %d)" % it,
                   lambda: ctx.call(MM, "get_clean_sample_mask", L, lm, it, lim=sca("lim"), z_cut=sca("zcut")))
        if g is None:
            continue
        w = ctx.spec("helpers.clean", L, lm, scalar(tm.C(it)), scalar(tm.C(n_t)), sca("lim"), sca("zcut"))
        if it == n_t - 1:
            w = Arr((H,), {(): tm.TRUE})
        ctx.same("a halo is clean when no time from it_min to the last but one is an outlier (from time %d)" % it, g, w)


# ------------------------------------------------------------------- P40
S = sz("n_samp")
LB = "bimod_logm0_kernels.", "bimod_logm0_sats."


def calib():
    """(module, public loss, public gradient, prediction, kind, parameter class)"""
    out = []
    for m in ("early_index_alpha", "early_index_beta", "early_index_pop", "logtc_early", "logtc_late"):
        out.append((POP + "." + m, "u"))
    return out


def cls_of(ctx, mod, u):
    """the (bounded, unbounded) parameter classes of a sub-model module"""
    best = None
    for c in nt_classes(ctx, mod).values():
        for d in nt_classes(ctx, mod).values():
            if c.fields and c.fields == tuple("u_" + q for q in d.fields):
                best = (d, c)
    if best is None:
        raise Undecided("no parameter class in " + mod)
    return best


def under_grad(ctx, mod, name):
    """function differentiated by a value_and_grad entry point"""
    f = ctx.get(mod, name)
    seen = []
    while isinstance(f, Xf) and f.fn is not None:
        seen.append(f.kind)
        if f.kind == "value_and_grad":
            an = (f.opt or {}).get("argnums", 0)
            if not (an in (0, None) or (isinstance(an, Arr) and val(an) == 0)):
                raise Fail("differentiates argument %s" % (an,), fn_where(f))
        f = f.fn
    if "value_and_grad" not in seen:
        raise Undecided("not a value_and_grad transformation: %s" % seen)
    return f


@prop("P40", 20)
def p40(ctx):
    ctx.rule("the function under each *_and_grad entry point has the value number of the mean squared (absolute) difference between the module's own "
             "prediction at the bounded parameters and the target; each fitter hands its own loss, start and data to the minimiser and returns its result")
    # sub-models calibrated in unbounded parameters
    for m, pred, tgt in (("early_index_alpha", "_pred_early_index_kern", "early_index"), ("early_index_beta", "_pred_early_index_kern", "early_index"),
                         ("early_index_pop", "_pred_early_index_kern", "early_index"), ("logtc_early", "_pred_logtc_kern", "logtc"),
                         ("logtc_late", "_pred_logtc_kern", "logtc")):
        mod = POP + "." + m

        def go(mod=mod, pred=pred, tgt=tgt):
            Pc, Uc = cls_of(ctx, mod, True)
            f = under_grad(ctx, mod, "loss_and_grads_kern")
            U = arr("u", len(Uc.fields))
            data = tuple(vec(n, S) for n in ("lgm_obs", "t_obs", "t_peak", "target"))
            got = ctx.run(ctx.interp(), f, U, data)
            un = NT(Uc, [V.take(U, 0, i) for i in range(len(Uc.fields))])
            stem = [n for n in local_names(ctx, mod) if n.startswith("get_bounded_") and n.endswith("_params")]
            if len(stem) != 1:
                raise Undecided("bounded transforms: %s" % stem)
            p = ctx.call(mod, stem[0], un)
            y = ctx.run(ctx.interp(), priv(ctx, mod, pred), p, *data[:3])
            check(got, ctx.spec("helpers.mse", y, data[3]), fn_where(f))

        ctx.ob(m + ": the loss is the mean squared misfit of its own prediction at the bounded parameters", go)
    # logm0 coefficients
    for d in ("bimod_logm0_kernels", "bimod_logm0_sats"):
        for c in ("c0", "c1"):
            for b in ("early", "late"):
                mod = "%s.%s.logm0_%s_%s" % (POP, d, c, b)
                nm = "%s.logm0_%s_%s" % (d, c, b)

                def loss(mod=mod, c=c):
                    Pc, Uc = cls_of(ctx, mod, False)
                    f = under_grad(ctx, mod, "global_loss_and_grads_kern")
                    g = ctx.get(mod, "global_loss_kern")
                    pr = priv(ctx, mod, "_pred_%s_kern" % c)
                    for k in (1, 2, 3) + ((4, 5) if ctx.tier == "thorough" else ()):
                        data = [tuple([sca("t_obs%d" % i), vec("t_peak%d" % i, S), vec("target%d" % i, S)]) for i in range(k)]
                        p = nt(Pc, "p.")
                        w = sums(T0(ctx.spec("helpers.mse", ctx.run(ctx.interp(), pr, p, *x[:2]), x[2])) for x in data)
                        for h in (f, g):
                            check(ctx.run(ctx.interp(), h, p, tuple(data)), scalar(w), fn_where(h))
                        check(ctx.run(ctx.interp(), f, p, list(data)), scalar(w), fn_where(f))

                ctx.ob(nm + ": the loss sums the mean squared misfits of its own prediction over the samples", loss)
                ctx.ob(nm + ": the fitter minimises that loss from the given start", fitter, ctx, mod, "fit_global_%s_model" % c, "global_loss_and_grads_kern", None)
    # t_peak
    TP = POP + ".t_peak_kernels."

    def utp():
        mod = TP + "utp_pdf_kernels"
        f = under_grad(ctx, mod, "loss_and_grads_kern")
        Pc, Uc = cls_of(ctx, mod, True)
        U = arr("u", 2)
        un = NT(Uc, [V.take(U, 0, i) for i in range(2)])
        x, y = vec("x", S), vec("pdf", S)
        pred = ctx.run(ctx.interp(), priv(ctx, mod, "_tp_pdf_kern"), x, ctx.call(mod, "get_bounded_utp_params", un))
        check(ctx.run(ctx.interp(), f, U, (x, y)), ctx.spec("helpers.mse", pred, y), fn_where(f))

    ctx.ob("utp_pdf_kernels: the loss is the mean squared misfit of the density at the bounded parameters", utp)
    ctx.ob("utp_pdf_kernels: the fitter returns the bounded best parameters of that loss", fitter, ctx, TP + "utp_pdf_kernels", "t_peak_fitter", "loss_and_grads_kern", "utp")

    def tpc():
        mod = TP + "tp_pdf_cens"
        f = under_grad(ctx, mod, "loss_and_grads_kern")
        um = TP + "utp_pdf_kernels"
        Pc, Uc = cls_of(ctx, um, True)
        U = arr("u", 2)
        un = NT(Uc, [V.take(U, 0, i) for i in range(2)])
        x, y, t0 = vec("t_peak", S), vec("pdf", S), sca("t_0")
        pred = ctx.run(ctx.interp(), priv(ctx, mod, "_t_peak_cens_pdf_kern"), ctx.call(um, "get_bounded_utp_params", un), x, t0)
        check(ctx.run(ctx.interp(), f, U, (x, y, t0)), ctx.spec("helpers.mse", pred, y), fn_where(f))

    ctx.ob("tp_pdf_cens: the loss is the mean squared misfit of the t_peak density at the bounded parameters", tpc)
    ctx.ob("tp_pdf_cens: the fitter returns the bounded best parameters of that loss", fitter, ctx, TP + "tp_pdf_cens", "t_peak_cens_fitter", "loss_and_grads_kern", "utp")
    fx = TP + "tp_pdf_cens_flex"

    def flex1():
        f = under_grad(ctx, fx, "loss_and_grad")
        x, y = vec("utp", S), vec("target", S)
        pred = ctx.run(ctx.interp(), priv(ctx, fx, "_frac_peaked_kern"), x, sca("x0"))
        check(ctx.run(ctx.interp(), f, (sca("x0"),), (x, y)), ctx.spec("helpers.mse", pred, y), fn_where(f))

    ctx.ob("tp_pdf_cens_flex: the single-bin loss is the mean squared misfit of the peaked fraction", flex1)

    def flex2():
        f = under_grad(ctx, fx, "loss_and_grad_multimass")
        g = ctx.get(fx, "loss_multimass")
        Pc, Uc = cls_of(ctx, fx, False)
        B = sz("n_bins")
        data = (vec("utp", B, S), vec("target", B, S), vec("lgm", B), vec("t_obs", B))
        p = nt(Pc, "p.")
        fr = priv(ctx, fx, "_frac_peaked_vs_lgm")
        col = lambda v: Arr((B, S), {(): V.as_arr(v).data[()]})
        i, j = V.ixvars((B, S))
        lg, to = Arr((B, S), {(): tm.sym("lgm", i)}), Arr((B, S), {(): tm.sym("t_obs", i)})
        pred = ctx.run(ctx.interp(), fr, p, data[0], lg, to)
        w = ctx.spec("helpers.mae", pred, data[1])
        for h in (f, g):
            check(ctx.run(ctx.interp(), h, p, data), w, fn_where(h))

    ctx.ob("tp_pdf_cens_flex: the multi-bin loss is the mean absolute misfit of each bin's own peaked fraction", flex2)


def check(got, want, where=None):
    ds = list(diff(got, want))
    if not ds:
        return
    hard = [d for d in ds if not d[4]]
    if hard:
        raise Fail("computed %s, required %s" % (sh(hard[0][1]), sh(hard[0][2])), where)
    raise Undecided(", ".join(sorted(ds[0][4])))


def fitter(ctx, mod, name, lossname, bounded):
    from .fitter import stub, BW

    it = ctx.interp()
    calls = []

    def opt(it, vals):
        calls.append(dict(vals))
        return [arr("u_best", 2) if bounded else sca("best"), sca("loss_best"), sca("terminates"), sca("code")]

    stub(ctx, it, BW, "bfgs_adam_fallback", opt)
    f = ctx.get(mod, name)
    L = under_grad(ctx, mod, lossname)
    base = L
    while isinstance(base, Xf) and base.fn is not None:
        base = base.fn
    um = POP + ".t_peak_kernels.utp_pdf_kernels"
    if bounded:
        data = [vec("x", S), vec("pdf", S)] + ([sca("t_0")] if name == "t_peak_cens_fitter" else [])
        opts = {}
        if name == "t_peak_cens_fitter":
            opts = dict(u_p_init=nt(cls_of(ctx, um, True)[1], "init."), nstep=sca("nstep"), n_warmup=sca("nwarm"))
        res = ctx.run(it, f, *data, **opts)
    else:
        data = sca("data")
        opts = dict(p_init=nt(cls_of(ctx, mod, False)[0], "init."))
        res = ctx.run(it, f, data, **opts)
    if len(calls) != 1:
        raise Fail("%d minimisations" % len(calls), fn_where(f))
    names = list(calls[0])
    c = calls[0]
    g = c[names[0]]
    while isinstance(g, Xf) and g.fn is not None:
        g = g.fn
    if g is not base:
        if not isinstance(g, Fn) or not isinstance(base, Fn) or g.node is not base.node:
            raise Fail("minimises %s, not the module's own loss" % fn_where(g), fn_where(f))
    start = opts.get("u_p_init", opts.get("p_init"))
    if start is None:
        start = ctx.get(mod, "DEFAULT_UTP_U_PARAMS")
    check(c[names[1]], start, fn_where(f))
    got = c[names[2]]
    check(list(got) if isinstance(got, (tuple, list)) and bounded else got, data if not bounded else list(data), fn_where(f))
    for k in ("nstep", "n_warmup"):
        if k in opts:
            check(c[k], opts[k], fn_where(f))
    if len(res) != 4:
        raise Fail("%d results" % len(res), fn_where(f))
    if bounded:
        U = arr("u_best", 2)
        un = NT(cls_of(ctx, um, True)[1], [V.take(U, 0, i) for i in range(2)])
        check(res[0], ctx.call(um, "get_bounded_utp_params", un), fn_where(f))
    else:
        check(res[0], sca("best"), fn_where(f))
    for i, n in ((1, "loss_best"), (2, "terminates"), (3, "code")):
        check(res[i], sca(n), fn_where(f))
