"""Check framework: obligations, verdicts, evidence, known findings."""
import json
import os
import signal
import sys
import time
import traceback

from . import terms as tm
from . import values as V
from .interp import Interp, MissingAnchor, Program, qual, Poison
from fractions import Fraction as Fr

from .terms import C, T
from .values import NT, Arr, Fn, NTCls, Phi, ProgError, SymList, Unsupported, Xf, opq, scalar

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DIFFMAH_SA_REPO", "/repo")
EVID = os.environ.get("DIFFMAH_SA_EVID", os.path.join(VERIF, "evidence"))  # the development tools redirect both

CHECKS = {}  # id -> function(ctx)
FLOORS = {}


def prop(pid, floor=1):
    def d(f):
        CHECKS[pid] = f
        FLOORS[pid] = floor
        return f

    return d


class Undecided(Exception):
    pass


class OutOfTime(BaseException):
    """not an Exception: the engine's own handlers must not swallow it"""


OB_LIMIT = {"quick": 150.0, "thorough": 400.0}  # seconds per obligation
TOTAL_LIMIT = {"quick": 700.0, "thorough": 820.0}  # seconds per check


def _alarm(sec):
    signal.setitimer(signal.ITIMER_REAL, max(sec, 0.05))


def _on_alarm(*_):
    raise OutOfTime()


class Fail(Exception):
    """a definite violation of the rule"""

    def __init__(self, detail, where=None):
        super().__init__(detail)
        self.detail, self.where = detail, where


# atoms whose value the domain does not determine: a disagreement between terms
# that contain them proves nothing
IMPRECISE_FN = {
    "call", "rec", "at", "final", "loopstore", "emap", "first", "store", "impure", "nth", "count",
    "elem", "star", "array", "accumulate", "concat", "append", "reshape", "chunk", "nonzero",
    "matmul", "getattr", "method", "dictget", "strmethod", "repr", "sorted", "list", "set", "grad",
    "slice", "astype", "stop_gradient", "op.Add", "op.Mult", "split_start", "split_size", "open", "sortnth", "argsortnth", "searchsorted",
}
IMPRECISE_OP = {"pyobj", "unsolved", "func", "xf"}


def imprecise(t, memo=None):
    """imprecise atoms of t, as a set of names"""
    out = set()
    for s in tm.subterms(t):
        if s.op in IMPRECISE_OP:
            out.add(s.op)
        elif s.op in ("fn", "batom"):
            n = s.args[0]
            if n in IMPRECISE_FN or n.startswith(("reduce.", "draw.")) or n in ("exists", "raises", "truth", "in", "isnone"):
                if n == "call" and len(s.args) > 1 and isinstance(s.args[1], str):
                    n = "call:" + s.args[1]
                out.add(n)
    return out


class Ob:
    def __init__(self, name):
        self.name = name
        self.status = None
        self.detail = ""
        self.where = None


class Ctx:
    def __init__(self, pid, tier, root=REPO):
        self.pid, self.tier = pid, tier
        self.prog = Program(root, os.path.join(HERE, "spec"))
        self.obs = []
        self.funcs = {}
        self.rules = []
        self.notes = []
        self.counts = {}
        self.t0 = time.time()

    def left(self):
        return TOTAL_LIMIT[self.tier] - (time.time() - self.t0)

    # -- access to the analysed program
    def get(self, mod, name):
        try:
            return qual(self.prog, mod, name)
        except MissingAnchor as e:
            if name.startswith("_"):
                raise Undecided("private helper %s.%s is gone: %s" % (mod, name, e))
            raise

    def interp(self):
        it = Interp(self.prog)
        self._its = getattr(self, "_its", [])
        self._its.append(it)
        return it

    def call(self, mod, name, *args, **kw):
        it = self.interp()
        f = self.get(mod, name) if isinstance(mod, str) else name
        return self.run(it, f, *args, **kw)

    def run(self, it, f, *args, **kw):
        n0 = len(it.events)
        try:
            return it.call(f, list(args), kw)
        finally:
            for e in it.events[n0:]:
                if e.kind == "enter":
                    self.funcs[e.what] = self.funcs.get(e.what, 0) + 1

    def spec(self, name, *args, **kw):
        it = self.interp()
        mod, fn = name.rsplit(".", 1)
        return it.call(qual(self.prog, "spec." + mod, fn), list(args), kw)

    def default(self, mod, name, par):
        """default value of a parameter of a function"""
        n = getattr(self.get(mod, name), "node", None)
        a = n.args
        for x, d in list(zip(a.args[len(a.args) - len(a.defaults) :], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg == par and d is not None:
                f = self.get(mod, name)
                return self.interp().ev(d, f.module.frame)
        raise Undecided("%s has no default of %s" % (name, par))

    # -- obligations
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, name, fn, *args):
        """run obligation fn; fn raises Fail / Undecided / returns normally"""
        o = Ob(name)
        self.obs.append(o)
        if self.left() < 1:
            o.status, o.detail = "undecided", "the time budget of the check ran out"
            return None
        try:
            _alarm(min(OB_LIMIT[self.tier], self.left()))
            r = fn(*args)
            o.status = "discharged"
            return r
        except OutOfTime:
            o.status, o.detail = "undecided", "the time budget of the obligation ran out"
        except Fail as e:
            o.status, o.detail, o.where = "violated", e.detail, e.where
        except ProgError as e:
            o.status, o.detail = "violated", "the analysed code cannot run here: %s" % e.msg
            o.where = "%s:%s" % e.loc if e.loc else None
        except Undecided as e:
            o.status, o.detail = "undecided", str(e)
        except Unsupported as e:
            o.status, o.detail = "undecided", "outside the modelled language: %s" % e
        except tm.TooManyCases:
            o.status, o.detail = "undecided", "case budget exceeded"
        except tm.NoDeriv as e:
            o.status, o.detail = "undecided", "no formal derivative: %s" % e
        except tm.TooBig:
            o.status, o.detail = "undecided", "polynomial too large"
        except RecursionError:
            o.status, o.detail = "undecided", "term too deep"
        except MissingAnchor:
            raise
        except Exception as e:  # the engine itself gave up
            tb = traceback.extract_tb(e.__traceback__)[-1]
            o.status, o.detail = "undecided", "engine: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        finally:
            _alarm(self.left())
        return None

    def same(self, name, got, want, facts=(), where=None):
        def f():
            ds = list(diff(got, want, facts))
            hard = [d for d in ds if not d[4]]
            if hard:
                p, g, w, case, _ = hard[0]
                raise Fail("%s: computed %s, required %s%s" % (p or "value", sh(g), sh(w), "" if case is None else " (when %s)" % case), where)
            if ds:
                p, g, w, case, imp = ds[0]
                raise Undecided("%s: comparison passes through %s" % (p or "value", ", ".join(sorted(imp))))

        return self.ob(name, f)


def sh(t):
    if isinstance(t, T):
        s = tm.show(t, 6)
    else:
        s = str(t)
    return s if len(s) < 400 else s[:400] + "…"


def _kind(v):
    return type(v).__name__


def diff(got, want, facts=(), path=""):
    """yield (path, got, want, case, imprecise-set)"""
    if isinstance(got, Phi) and not isinstance(want, Phi) and isinstance(want, (Arr, NT, tuple, list)):
        try:
            got = V.join(got.c, got.a, got.b)
        except Exception:
            pass
    if isinstance(want, NT):
        if isinstance(got, NT):
            if got.cls.fields != want.cls.fields:
                yield path, "fields %s" % (got.cls.fields,), "fields %s" % (want.cls.fields,), None, set()
                return
            for f, g, w in zip(want.cls.fields, got.vals, want.vals):
                yield from diff(g, w, facts, path + "." + f)
            return
        if isinstance(got, Arr) and got.opaque:
            yield path, got, "a namedtuple", None, {"opaque"}
            return
        yield path, _kind(got), "namedtuple", None, set()
        return
    if isinstance(want, (tuple, list)):
        if isinstance(got, NT):
            got = got.vals
        if isinstance(got, Arr) and got.axes and isinstance(got.axes[0], int):
            got = [V.take(got, 0, i) for i in range(got.axes[0])]
        if isinstance(got, (tuple, list)):
            if len(got) != len(want):
                yield path, "%d elements" % len(got), "%d elements" % len(want), None, set()
                return
            for i, (g, w) in enumerate(zip(got, want)):
                yield from diff(g, w, facts, "%s[%d]" % (path, i))
            return
        if isinstance(got, (Arr, Phi, SymList)) and (not isinstance(got, Arr) or got.opaque):
            yield path, got, want, None, {"opaque"}
            return
        yield path, _kind(got), "%d elements" % len(want), None, set()
        return
    if isinstance(want, dict):
        if not isinstance(got, dict):
            yield path, _kind(got), "dict", None, {"opaque"} if isinstance(got, (Arr, Phi)) else set()
            return
        if list(got) != list(want):
            yield path, "keys %s" % list(got), "keys %s" % list(want), None, set()
            return
        for k in want:
            yield from diff(got[k], want[k], facts, "%s[%r]" % (path, k))
        return
    if want is None or isinstance(want, str):
        if got is None or isinstance(got, str):
            if got != want:
                yield path, repr(got), repr(want), None, set()
            return
    g, w = _num(got), _num(want)
    if g is None or w is None:
        a, b = V.to_term(got), V.to_term(want)
        if a is not b:
            imp = imprecise(a) | imprecise(b)
            yield path, a, b, None, imp
        return
    if (g.axes is None) != (w.axes is None):
        a, b = V.to_term(g), V.to_term(w)
        ok, case = tm.equal(a, b, facts)
        if not ok:
            yield path, a, b, case and case.describe(), {"opaque"}
        return
    if g.axes is not None and not same_axes(g.axes, w.axes):
        yield path, "array of shape %s" % axs(g.axes), "array of shape %s" % axs(w.axes), None, set()
        return
    ren = {b: a for a, b in zip(V.ixvars(g.axes or ()), V.ixvars(w.axes or ())) if a is not b and a is not None}
    for k in w.data:
        gk = g.data[k]
        wk = tm.subst(w.data[k], ren) if ren else w.data[k]
        ok, case = tm.equal(gk, wk, facts)
        if not ok:
            imp = imprecise(gk) - imprecise(wk)
            if not imp and case is not None and case.unsolved:
                imp = {"an unsolved guard equality"}
            yield path + (str(list(k)) if k else ""), gk, wk, case and case.describe(), imp


def same_axes(a, b):
    if len(a) != len(b):
        return False
    return all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or
               (not (isinstance(x, int) or isinstance(y, int)) and V.same_size(x, y))
               for x, y in zip(a, b))


def axs(axes):
    return "(" + ", ".join(str(a) if isinstance(a, int) else tm.show(a) for a in axes) + ")"


def _num(v):
    if isinstance(v, Arr):
        return v
    try:
        if V.is_numlike(v) or isinstance(v, (list, tuple, SymList, Phi)):
            return V.as_arr(v)
    except Unsupported:
        pass
    return None


# --------------------------------------------------------------- input makers
H = tm.sym("size:n_halos")
TT = tm.sym("size:n_times")


def sz(name):
    return tm.sym("size:" + name)


def sca(name):
    return scalar(tm.sym(name))


def vec(name, *axes):
    return Arr(tuple(axes), {(): tm.sym(name, *[x for x in V.ixvars(axes) if x is not None])})


def arr(name, *axes):
    """array with possibly expanded axes"""
    iv = [x for x in V.ixvars(axes) if x is not None]
    return Arr(tuple(axes), {p: tm.sym(name + "".join("[%d]" % i for i in p), *iv) for p in V.positions(axes)})


def nt(cls, prefix, *axes):
    if not isinstance(cls, NTCls):
        raise ProgError("%r is not a namedtuple class" % (cls,))
    return NT(cls, [vec(prefix + k, *axes) if axes else sca(prefix + k) for k in cls.fields])


def val(t):
    """python float of a constant value"""
    t = V.as_arr(t).data[()] if not isinstance(t, T) else t
    return tm.fval(t)


def T0(v):
    """the term of a scalar value"""
    a = V.as_arr(v)
    if a.axes not in ((), None):
        raise Fail("expected a scalar, got shape %s" % axs(a.axes))
    return a.data[()]


def as_nt(v):
    if not isinstance(v, NT):
        raise Undecided("not a namedtuple: %s" % _kind(v))
    return v


def field(v, name):
    if name not in v.cls.fields:
        raise Fail("field %s missing from %s" % (name, v.cls.fields))
    return v.get(name)


def fn_where(f):
    while isinstance(f, Xf) and f.fn is not None:
        f = f.fn
    if isinstance(f, Fn):
        return "%s:%s %s" % (f.loc[0], f.loc[1], f.name)
    return None


# ------------------------------------------------------------------ deciders
def resolve(t, facts, only=None):
    """t with the guards decided by facts replaced by the branch taken;
    only: consider the guards that mention this leaf"""
    memo = {}

    def r(u):
        if u in memo:
            return memo[u]
        if u.op in ("where", "min", "max"):
            c = u.args[0] if u.op == "where" else tm.lt(u.args[0], u.args[1])
            c = r(c)
            x, y = (u.args[1], u.args[2]) if u.op == "where" else (u.args[0], u.args[1])
            if u.op == "max":
                x, y = y, x
            try:
                if c.op == "b":
                    v = x if c.args[0] else y
                    out = r(v)
                    memo[u] = out
                    return out
                if only is not None and not tm.depends_struct(c, only):
                    out = tm.rebuild(u, r)
                elif not u.fbv and tm.implied(c, facts)[0]:
                    out = r(x)
                elif not u.fbv and tm.implied(tm.not_(c), facts)[0]:
                    out = r(y)
                else:
                    out = tm.rebuild(u, r)
            except tm.TooManyCases:
                out = tm.rebuild(u, r)
        else:
            out = tm.rebuild(u, r)
        memo[u] = out
        return out

    return r(t)


def prove(ctx, name, proof, got=None, ref=None, facts=(), where=None, what=None, refute=None, theorem=True):
    """discharged when proof() holds or the analysed value equals the reference
    semantics for which the claim is a theorem; violated when neither, and the
    value definitely differs from the reference.  With theorem=False the claim
    also depends on tables of the program: equality with the reference proves
    nothing then, and refute() looks for a point that breaks the claim."""

    def f():
        try:
            if proof():
                return
        except (tm.TooBig, tm.NoDeriv, tm.TooManyCases):
            pass
        bad = refute() if refute is not None else None
        if bad:
            raise Fail("%s: %s" % (what or name, bad), where)
        if ref is None:
            raise Undecided("not derivable in the sign/interval domain")
        g = got() if callable(got) else got
        w = ref() if callable(ref) else ref
        ds = list(diff(g, w, facts))
        if not ds:
            if theorem:
                return
            raise Undecided("not derivable in the sign/interval domain")
        hard = [d for d in ds if not d[4]]
        if not hard:
            raise Undecided("not derivable; comparison passes through %s" % ", ".join(sorted(ds[0][4])))
        p, g, w, case, _ = hard[0]
        raise Fail("%scannot be derived, and the value is not the documented one: %s computed %s, documented %s%s"
                   % (what + " " if what else "", p, sh(g), sh(w), "" if case is None else " (when %s)" % case), where)

    return ctx.ob(name, f)


# ------------------------------------------------------------------- running
def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(p.split("=", 1) for p in line[8:].split(" | ")[0].split() if "=" in p)
                out.append((d.get("property"), line.split(" | ")[1].strip(), line.split(" | ")[-1].strip()))
    return out


def run_check(pid, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        _alarm(ctx.left())
        CHECKS[pid](ctx)
    except MissingAnchor as e:
        print("ANALYSIS-BROKEN property=%s missing anchor: %s" % (pid, e))
        return 2
    except ProgError as e:
        # importing an anchor module definitely fails
        o = Ob("module import")
        o.status, o.detail, o.where = "violated", "the analysed code cannot run: %s" % e.msg, "%s:%s" % e.loc if e.loc else None
        ctx.obs.append(o)
    except (Unsupported, Undecided) as e:
        o = Ob("entry")
        o.status, o.detail = "undecided", str(e)
        ctx.obs.append(o)
    except Exception as e:
        o = Ob("entry")
        tb = traceback.extract_tb(e.__traceback__)[-1]
        o.status, o.detail = "undecided", "engine: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        ctx.obs.append(o)
    except OutOfTime:
        o = Ob("entry")
        o.status, o.detail = "undecided", "the time budget of the check ran out"
        ctx.obs.append(o)
    signal.setitimer(signal.ITIMER_REAL, 0)
    n = {s: sum(1 for o in ctx.obs if o.status == s) for s in ("discharged", "violated", "undecided")}
    known = [(k, d) for p, k, d in load_known() if p == pid]
    viol, kn = [], []
    for o in ctx.obs:
        if o.status != "violated":
            continue
        hit = [d for k, d in known if k == o.name]
        (kn if hit else viol).append(o)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source by whole-program abstract interpretation over the "
            "syntax tree (value-numbering, interval, sign, dependence and effect domains); nothing of the program is "
            "executed. Rules: " + " | ".join(ctx.rules),
            "obligations": len(ctx.obs),
            "discharged": n["discharged"],
            "undecided": [{"obligation": o.name, "reason": o.detail[:300]} for o in ctx.obs if o.status == "undecided"],
            "known_findings": [o.name for o in kn],
            "functions_analysed": sorted(ctx.funcs),
            "calls_interpreted": sum(ctx.funcs.values()),
            "modules_analysed": sorted(m for m in ctx.prog.modules if not m.startswith("spec")),
            "counts": ctx.counts,
            "samples": [o.name for o in ctx.obs[:40]],
            "trusted_base": ["sa/ engine (interp.py, lib.py, terms.py, values.py)", "models of jax/numpy primitives in sa/lib.py",
                             "real-number semantics of floating-point arithmetic"],
        },
        "assumptions": ["floating point is read as real arithmetic", "modelled library functions have their documented meaning"] + ctx.notes,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for o in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.name, o.detail[:300]))
    replay = os.path.join(EVID, pid + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    for o in ctx.obs:
        if o.status == "undecided":
            print("undecided: %s -- %s" % (o.name, o.detail[:300]))
    if viol:
        with open(replay, "w") as fh:
            json.dump([{"rule": o.name, "where": o.where, "detail": o.detail} for o in viol], fh, indent=1)
        for o in viol[:20]:
            print("  violated: %s%s\n    %s" % (o.name, " [%s]" % o.where if o.where else "", o.detail[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if len(ctx.obs) < FLOORS[pid] and not n["undecided"]:
        print("ANALYSIS-BROKEN property=%s only %d obligations were generated (floor %d)" % (pid, len(ctx.obs), FLOORS[pid]))
        return 2
    print("property=%s tier=%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs"
          % (pid, tier, len(ctx.obs), n["discharged"], n["undecided"], len(ctx.funcs), time.time() - t0))
    return 0
