"""Parameter-space properties of the population model."""
import os

from ..core import *
from .. import posy

POP = "diffmah.diffmahpop_kernels"
CSP = POP + ".bimod_censat_params"


def repo_modules(ctx, sub="diffmah"):
    out = []
    base = os.path.join(ctx.prog.root, sub)
    for d, dn, fn in os.walk(base):
        dn[:] = sorted(x for x in dn if x not in ("tests", "__pycache__"))
        for f in sorted(fn):
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(d, f), ctx.prog.root)[:-3].replace(os.sep, ".")
                out.append(p[: -len(".__init__")] if p.endswith(".__init__") else p)
    return out


def local_names(ctx, mod):
    return ctx.prog.module(mod).frame.vars


def nt_classes(ctx, mod):
    return {n: v for n, v in local_names(ctx, mod).items() if isinstance(v, NTCls)}


def is_pair(v):
    if isinstance(v, (tuple, list)) and len(v) == 2:
        return all(V.is_numlike(x) for x in v)
    return isinstance(v, Arr) and v.axes == (2,)


def pair(v):
    if isinstance(v, Arr):
        v = [V.take(v, 0, i) for i in (0, 1)]
    return T0(v[0]), T0(v[1])


class Transform:
    pass


def transforms(ctx):
    """every module defining a get_bounded_X_params / get_unbounded_X_params pair"""
    out = []
    for mod in repo_modules(ctx, "diffmah/diffmahpop_kernels"):
        m = ctx.prog.module(mod)
        if m is None:
            continue
        names = local_names(ctx, mod)
        for n in list(names):
            if n.startswith("get_bounded_") and n.endswith("_params"):
                inv = "get_unbounded_" + n[len("get_bounded_"):]
                f = names[n]
                base = f
                while isinstance(base, Xf) and base.fn is not None:
                    base = base.fn
                if not isinstance(base, Fn) or base.module.name != mod:
                    continue
                t = Transform()
                t.mod, t.b, t.u = mod, n, inv
                t.name = mod[len("diffmah."):] + "." + n
                cl = nt_classes(ctx, mod)
                t.P = t.U = None
                for cn, c in cl.items():
                    if c.fields and all(x.startswith("u_") for x in c.fields):
                        for dn, d in cl.items():
                            if c.fields == tuple("u_" + x for x in d.fields):
                                t.P, t.U = d, c
                for cn, c in cl.items():
                    if t.U is None and c.fields and all(x.startswith("u_") for x in c.fields):
                        for dn, d in cl.items():
                            if set(c.fields) == {"u_" + x for x in d.fields}:
                                t.P, t.U = d, c
                t.bounds = None
                t.defaults, t.udefaults = None, None
                if t.P is not None:
                    for vn, v in names.items():
                        if isinstance(v, NT) and v.cls.fields == t.P.fields and all(is_pair(x) for x in v.vals):
                            t.bounds = v
                        elif isinstance(v, NT) and v.cls.fields == t.P.fields and vn.startswith("DEFAULT"):
                            t.defaults = v
                        elif isinstance(v, NT) and v.cls.fields == t.U.fields and vn.startswith("DEFAULT"):
                            t.udefaults = v
                out.append(t)
    return out


N_TRANSFORMS = 25


@prop("P08", 60)
def p08(ctx):
    ctx.rule("for every get_bounded_X/get_unbounded_X pair of the package: both compositions have the value number of the identity, field by name; "
             "each bounded field is strictly inside the bounds entry of the same name and depends on its own u-field only")
    ts = transforms(ctx)
    ctx.count("transform_pairs", len(ts))
    if len(ts) < N_TRANSFORMS:
        raise MissingAnchor("only %d bounded/unbounded transform pairs found, %d confirmed" % (len(ts), N_TRANSFORMS))
    for t in ts:
        if t.P is None:
            ctx.ob(t.name + ": classes", lambda: (_ for _ in ()).throw(Undecided("parameter classes not found")))
            continue
        pp, uu = nt(t.P, "p."), nt(t.U, "u.")
        r = ctx.ob(t.name + ": bounded(unbounded(p)) is analysable", lambda: ctx.call(t.mod, t.b, ctx.call(t.mod, t.u, pp)))
        if r is not None:
            ctx.same(t.name + ": bounded(unbounded(p)) == p", r, pp, where=fn_where(ctx.get(t.mod, t.b)))
        r = ctx.ob(t.name + ": unbounded(bounded(u)) is analysable", lambda: ctx.call(t.mod, t.u, ctx.call(t.mod, t.b, uu)))
        if r is not None:
            ctx.same(t.name + ": unbounded(bounded(u)) == u", r, uu, where=fn_where(ctx.get(t.mod, t.u)))
        b = ctx.ob(t.name + " is analysable", lambda: as_nt(ctx.call(t.mod, t.b, uu)))
        if b is None:
            continue
        if t.bounds is None:
            ctx.ob(t.name + ": bounds", lambda: (_ for _ in ()).throw(Undecided("bounds table not found")))
            continue

        def own():
            for f in t.P.fields:
                v = T0(field(b, f))
                lo, hi = pair(field(t.bounds, f))
                for g in t.P.fields:
                    if g != f and tm.depends(v, tm.sym("u.u_" + g)):
                        if imprecise(v):
                            raise Undecided("imprecise")
                        raise Fail("bounded %s depends on u_%s" % (f, g), fn_where(ctx.get(t.mod, t.b)))
                if posy.pos(tm.sub(v, lo)) and posy.pos(tm.sub(hi, v)):
                    continue
                w = T0(ctx.spec("kernel.bound", scalar(tm.sym("u.u_" + f)), scalar(lo), scalar(hi)))
                ok, case = tm.equal(v, w)
                if ok:
                    if not (tm.fval(lo) is not None and tm.fval(lo) < tm.fval(hi)):
                        raise Fail("bounds of %s are not ordered: %s, %s" % (f, sh(lo), sh(hi)))
                    continue
                if imprecise(v):
                    raise Undecided("imprecise")
                raise Fail("bounded %s = %s is not confined to (%s, %s)" % (f, sh(v), sh(lo), sh(hi)), fn_where(ctx.get(t.mod, t.b)))

        ctx.ob(t.name + ": each field strictly inside its namesake bounds, own u only", own)


@prop("P09", 40)
def p09(ctx):
    ctx.rule("constant evaluation of the module-level tables: lo < hi and lo < default < hi for each named parameter; default u-parameters are unbounded(defaults)")
    ts = transforms(ctx)
    if len(ts) < N_TRANSFORMS:
        raise MissingAnchor("only %d transform pairs found" % len(ts))
    for t in ts:
        if t.P is None or t.bounds is None or t.defaults is None:
            ctx.ob(t.name + ": tables", lambda: (_ for _ in ()).throw(Undecided("tables not found")))
            continue

        def tab():
            for f in t.P.fields:
                lo, hi = [tm.fval(x) for x in pair(field(t.bounds, f))]
                d = val(field(t.defaults, f))
                if None in (lo, hi, d):
                    raise Undecided("non-constant table entry " + f)
                if not lo < hi:
                    raise Fail("bounds of %s are not ordered: (%s, %s)" % (f, lo, hi))
                if not lo < d < hi:
                    raise Fail("default %s = %s is not strictly inside (%s, %s)" % (f, d, lo, hi))

        ctx.ob(t.mod[len("diffmah."):] + ": defaults strictly inside bounds", tab)
        if t.udefaults is not None:
            r = ctx.ob(t.name + ": default u-params analysable", lambda: ctx.call(t.mod, t.u, t.defaults))
            if r is not None:
                ctx.same(t.mod[len("diffmah."):] + ": default u-params are the unbounded defaults", t.udefaults, r)


COMPONENTS = [
    ("t_peak_kernels.tp_pdf_cens_flex", "TPCens_Params", "TPCens_UParams", "get_bounded_tp_cens_params"),
    ("t_peak_kernels.tp_pdf_sats", "TP_Sats_Params", "TP_Sats_UParams", "get_bounded_tp_sat_params"),
    ("bimod_logm0_kernels.logm0_pop_bimod", "LGM0Pop_Params", "LGM0Pop_UParams", "get_bounded_m0pop_params"),
    ("bimod_logm0_sats.logm0_pop_bimod_sats", "LGM0Pop_Params", "LGM0Pop_UParams", "get_bounded_m0pop_params"),
    ("logtc_bimod", "Logtc_Params", "Logtc_UParams", "get_bounded_logtc_params"),
    ("early_index_bimod", "EarlyIndex_Params", "EarlyIndex_UParams", "get_bounded_early_index_params"),
    ("late_index_bimod", "LateIndex_Params", "LateIndex_UParams", "get_bounded_late_index_params"),
    ("frac_early_cens", "FEC_Params", "FEC_UParams", "get_bounded_fec_params"),
    ("covariance_kernels", "CovParams", "CovUParams", "get_bounded_cov_params"),
]


def pop_params(ctx, prefix="p."):
    return nt(ctx.get(CSP, "DiffmahPop_Params"), prefix)


def pop_bounds(ctx):
    """name -> (lo, hi) merged over the component modules"""
    out = {}
    names = {c[0] for c in COMPONENTS}
    for t in transforms(ctx):
        if t.mod[len(POP) + 1:] in names and t.bounds is not None:
            for f in t.P.fields:
                out[f] = tuple(tm.fval(x) for x in pair(field(t.bounds, f)))
    return out


@prop("P10", 20)
def p10(ctx):
    ctx.rule("value numbers of the assembled parameter tuples, field by name, against the component parameter classes and transforms")
    Pc, Uc = ctx.get(CSP, "DiffmahPop_Params"), ctx.get(CSP, "DiffmahPop_UParams")
    pp, uu = nt(Pc, "p."), nt(Uc, "u.")
    D, DU = ctx.get(CSP, "DEFAULT_DIFFMAHPOP_PARAMS"), ctx.get(CSP, "DEFAULT_DIFFMAHPOP_U_PARAMS")
    cps = ctx.ob("get_component_model_params is analysable", lambda: ctx.call(CSP, "get_component_model_params", pp))
    cus = ctx.ob("get_component_model_u_params is analysable", lambda: ctx.call(CSP, "get_component_model_u_params", uu))
    b = ctx.ob("get_diffmahpop_params_from_u_params is analysable", lambda: as_nt(ctx.call(CSP, "get_diffmahpop_params_from_u_params", uu)))
    u = ctx.ob("get_diffmahpop_u_params_from_params is analysable", lambda: as_nt(ctx.call(CSP, "get_diffmahpop_u_params_from_params", pp)))
    union, uunion = [], []
    for i, (mod, pc, uc, bf) in enumerate(COMPONENTS):
        P, U = ctx.get(POP + "." + mod, pc), ctx.get(POP + "." + mod, uc)
        union += list(P.fields)
        uunion += list(U.fields)
        if cps is not None:
            ctx.same("component %s receives its own parameters by name" % mod, cps[i] if i < len(cps) else None, nt(P, "p."))
        if cus is not None:
            ctx.same("component %s receives its own u-parameters by name" % mod, cus[i] if i < len(cus) else None, nt(U, "u."))
        if b is not None:
            w = ctx.ob("%s.%s is analysable" % (mod, bf), lambda: as_nt(ctx.call(POP + "." + mod, bf, nt(U, "u."))))
            if w is not None:
                for f in P.fields:
                    ctx.same("assembled %s is the %s transform of u_%s" % (f, mod, f), field(b, f), field(w, f))
        if u is not None:
            ub = bf.replace("get_bounded", "get_unbounded")
            w = ctx.ob("%s.%s is analysable" % (mod, ub), lambda: as_nt(ctx.call(POP + "." + mod, ub, nt(P, "p."))))
            if w is not None:
                for f in U.fields:
                    ctx.same("assembled %s is the %s inverse transform" % (f, mod), field(u, f), field(w, f))

    def names():
        if len(set(union)) != len(union):
            raise Fail("two component models share a parameter name: %s" % sorted(x for x in union if union.count(x) > 1))
        if set(Pc.fields) != set(union):
            raise Fail("population parameter names differ from the union of the components': %s" % sorted(set(Pc.fields) ^ set(union)))
        if Uc.fields != tuple("u_" + f for f in Pc.fields):
            raise Fail("u-parameter names are not the parameter names in order")

    ctx.ob("population parameter names are the disjoint union of the components'", names)
    if b is not None:
        r = ctx.ob("u -> p -> u is analysable", lambda: ctx.call(CSP, "get_diffmahpop_u_params_from_params", b))
        if r is not None:
            ctx.same("u -> p -> u is the identity", r, uu)
    if u is not None:
        r = ctx.ob("p -> u -> p is analysable", lambda: ctx.call(CSP, "get_diffmahpop_params_from_u_params", u))
        if r is not None:
            ctx.same("p -> u -> p is the identity", r, pp)
    r = ctx.ob("defaults analysable", lambda: ctx.call(CSP, "get_diffmahpop_u_params_from_params", D))
    if r is not None:
        ctx.same("default u-params are the unbounded default params", DU, r)
    # varied-parameter helper
    Vc = NTCls("Varied", [Pc.fields[3], Pc.fields[-1]])
    v = ctx.ob("_get_all_diffmahpop_params_from_varied is analysable",
               lambda: as_nt(ctx.call(CSP, "_get_all_diffmahpop_params_from_varied", nt(Vc, "v."), pp)))
    if v is not None:
        want = NT(pp.cls, [sca("v." + f) if f in Vc.fields else x for f, x in zip(pp.cls.fields, pp.vals)])
        ctx.same("varied parameters override their namesakes only", v, want)
