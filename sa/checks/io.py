"""P29-P32: text and HDF5 output of the fitter, data loaders."""
import re

from .fitter import *  # noqa
from .fitter import stub, must, K
from ..core import prop, Ctx, Fail, Undecided, diff
from ..objs import H5Read, H5Write, reopened, strings
from ..values import NT, NTCls, Arr, PyObj, scalar, as_arr, ixvars, to_term, Ext
from .. import terms as tm, values as V

IO = "diffmah.data_loaders.io_utils"
R = sz("rows")


HK = {"h": "pos:h"}  # the Hubble parameter is positive


EXACT_INT = ("int", "i8", "int64", "int_", "intp", "u8", "uint64", "q", "l")
NARROW = ("f4", "float32", "single", "f", "f2", "float16", "half", "e", "i4", "int32", "i", "u4", "uint32", "i2", "int16", "i1", "int8", "u1", "uint8", "bool", "bool_", "?")


def exact(it, what, narrow=NARROW):
    """no array is converted to a type that cannot hold what a file holds"""
    for e in it.events:
        if e.kind == "cast" and e.what in narrow and isinstance(e.args[0], Arr) and e.args[0].data and not all(tm.is_c(t) or t.op == "b" for t in e.args[0].data.values()):
            raise Fail("%s is converted to %s, which cannot hold every value" % (what, e.what), "%s:%s" % e.loc)


def columns(v, what):
    """words of a header or of a text line"""
    if isinstance(v, str):
        return v
    raise Undecided("%s is not a plain string" % what)


def fit_result(ctx):
    """a symbolic return value of diffmah_fitter, with its own class"""
    r = Run(ctx)
    sym = dict(
        p_best=nt(ctx.get(DK, "DiffmahParams"), "p_"),
        loss_best=sca("loss"),
        skip_fit=sca("skip"),
        fit_terminates=sca("term"),
        code_used=sca("code"),
        loss_data=NT(ctx.get(FH, "DiffmahFitLossData"), [vec("tt", TT), vec("lm", TT), sca("u_tp"), sca("lt0")]),
    )
    if set(r.res.cls.fields) != set(sym):
        raise Undecided("diffmah_fitter returns fields %s" % (r.res.cls.fields,))
    return NT(r.res.cls, [sym[f] for f in r.res.cls.fields])


def line_tokens(ctx, o):
    """(tokens of one text line, is it terminated by a newline)"""
    it = ctx.interp()
    t = to_term(o)
    parts = [x for x in (t.args[1:] if t.op == "fn" and t.args[0] == "strcat" else [t])]
    lits = [p.args[0] for p in parts if p.op == "str"]
    for p in parts:
        if p.op != "str" and not (p.op == "fn" and p.args[0] == "fmt"):
            raise Undecided("the line is not a concatenation of formatted values: %s" % sh(t))
    nl = sum(x.count("\n") for x in lits)
    last = parts[-1].op == "str" and parts[-1].args[0].endswith("\n")
    toks = it.call(it.getattr(it.call(it.getattr(o, "strip"), [], {}), "split"), [], {})
    if not isinstance(toks, list):
        raise Undecided("the line cannot be split into words")
    return toks, last and nl == 1


def source(tok):
    """(spec, formatted value) of one printed word"""
    t = to_term(tok)
    if t.op == "fn" and t.args[0] == "fmt":
        sp = t.args[1]
        return (sp.args[0] if isinstance(sp, tm.T) and sp.op == "str" else sp if isinstance(sp, str) else None), t.args[2]
    if t.op == "str":
        return "", t
    raise Fail("the word %s of the line mixes several values" % sh(t))


def keeps_digits(spec):
    """does the format keep at least 5 significant digits of any magnitude?"""
    if spec is None:
        return None
    if spec in ("", "r", "s"):
        return True
    m = re.fullmatch(r"[-+ ]?#?(?:\.(\d+))?([eEgG])", spec)
    if m:
        d = int(m.group(1)) if m.group(1) else 6
        return d + (1 if m.group(2) in "eE" else 0) >= 6
    if re.fullmatch(r"[-+ ]?(?:\d+)?(?:\.\d+)?[fFd]", spec):
        return False
    return None


WANT = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")


# ------------------------------------------------------------------------ P29
@prop("P29", 8)
def p29(ctx):
    ctx.rule("the text line of a fit, the two headers, the parser of a line and the HDF5 writer are analysed on symbolic results; the value printed in the column "
             "of each header name, the field the parser puts it in and the dataset the writer stores it under must be the same quantity")
    names = {}

    def header(h, extra):
        v = columns(ctx.get(FH, h), h)
        if not v.endswith("\n") or v.count("\n") != 1 or not v.startswith("#"):
            raise Fail("%s is %r, required one comment line ended by a newline" % (h, v))
        names[extra] = v[1:].split()
        want = list((("halo_id",) if extra else ()) + WANT)
        if sorted(names[extra]) != sorted(want):
            raise Fail("%s names the columns %s, required %s" % (h, names[extra], want))

    ctx.ob("HEADER is one comment line naming the eight columns", header, "HEADER", False)
    ctx.ob("HEADER_HALO_ID is one comment line naming the nine columns", header, "HEADER_HALO_ID", True)
    res = ctx.ob("result of diffmah_fitter", fit_result, ctx)
    if res is None:
        return
    npt = ctx.ob("number of points", lambda: T0(ctx.call(FH, "_compute_non_trivial_npts_in_log_mah_target", field(field(res, "loss_data"), "log_mah_target"))))
    want = {k: T0(field(field(res, "p_best"), k)) for k in WANT[:5]}
    want.update(loss=tm.sym("loss"), n_points_per_fit=npt, fit_algo=tm.sym("code"), halo_id=tm.sym("hid"))
    toks = {}

    def outline(extra):
        o = ctx.call(FH, "get_outline", res, **({"halo_id": sca("hid")} if extra else {}))
        toks[extra], nl = line_tokens(ctx, o)
        if not nl:
            raise Fail("the line does not consist of one line ended by a newline: %s" % sh(to_term(o)))
        if len(toks[extra]) != len(names[extra]):
            raise Fail("%d words are printed under a header of %d names" % (len(toks[extra]), len(names[extra])))
        for n, w in zip(names[extra], toks[extra]):
            spec, t = source(w)
            must("the column %s" % n, t, want[n])
            isint = n in ("halo_id", "n_points_per_fit", "fit_algo")
            if isint:
                if spec not in ("", "d", "i"):
                    raise Fail("the integer column %s is printed with format %r" % (n, spec))
            else:
                k = keeps_digits(spec)
                if k is None:
                    raise Undecided("format %r of the column %s" % (spec, n))
                if not k:
                    raise Fail("the column %s is printed with format %r, which drops digits of small or large values" % (n, spec))

    def parse():
        o = ctx.call(FH, "get_outline", res)
        p = as_nt(ctx.call(FH, "_parse_outline", o))
        for n in WANT:
            t = to_term(field(p, n))
            isint = n in WANT[6:]
            if isint and t.op == "fn" and t.args[0] == "int":
                t = t.args[1]
            elif isint:
                raise Fail("the parser reads the integer column %s as %s" % (n, sh(t)))
            elif t.op == "fn" and t.args[0] == "int":
                raise Fail("the parser reads the column %s as an integer" % n)
            if not (t.op == "fn" and t.args[0] == "fmt"):
                raise Undecided("parsed field %s is %s" % (n, sh(t)))
            must("the parsed field %s" % n, t.args[2], want[n])

    def writer(extra):
        ncol = 9 if extra else 8
        it = ctx.interp()
        w = H5Write()
        it.ext["h5py.File"] = w.open
        data = arr("col", H, ncol)
        ctx.run(it, ctx.get(FH, "write_collated_data"), "out.h5", data)
        if not w.opened or not (isinstance(w.opened[0][0], str) and w.opened[0][0] == "out.h5"):
            raise Fail("the collated data is not written to the requested file")
        exp = names[extra]
        if sorted(w.data) != sorted(exp):
            raise Fail("the datasets written are %s, required %s" % (sorted(w.data), sorted(exp)))
        for j, n in enumerate(exp):
            v, loc, path = w.data[n]
            if path:
                raise Undecided("dataset %s is written conditionally" % n)
            v = as_arr(v)
            if v.axes != (H,):
                raise Fail("the dataset %s has shape %s, required one value per halo" % (n, axs(v.axes or ())), "%s:%s" % loc)
            src = data.data[(j,)] if (j,) in data.data else T0(V.take(data, 1, j))
            i = ixvars((H,))[0]
            t = v.data[()]
            isint = n in ("halo_id", "n_points_per_fit", "fit_algo")
            if isint:
                if not (t.op == "fn" and t.args[0] == "int"):
                    raise Fail("the integer dataset %s is written as %s" % (n, sh(t)), "%s:%s" % loc)
                t = t.args[1]
            must("the dataset %s" % n, t, tm.sym("col[%d]" % j, i))
        if extra:
            bad = [e for e in it.events if e.kind == "cast" and e.what not in ("int", "i8", "int64", "int_", "intp", "u8", "uint64", "q", "l") and isinstance(e.args[0], Arr)
                   and any(tm.depends_struct(t, tm.sym("col[0]", i)) for t in e.args[0].data.values())]
            if bad:
                raise Fail("halo_id is converted through %s, which cannot represent every 64-bit identifier" % bad[0].what, "%s:%s" % bad[0].loc)

    for extra in (False, True):
        nm = "with halo_id" if extra else "without halo_id"
        ctx.ob("get_outline prints each header column (%s)" % nm, outline, extra)
        ctx.ob("write_collated_data stores each header column under its name (%s)" % nm, writer, extra)
    ctx.ob("_parse_outline returns the printed values under their names", parse)


# ------------------------------------------------------------------------ P30
@prop("P30", 3)
def p30(ctx):
    ctx.rule("writer and reader are analysed against a symbolic HDF5 file: what the writer stored (paths, values, attributes) is the file the reader sees; the reader's "
             "namedtuple must have the same fields in the same order and the same values, for parameter collections of any length")
    cases = [("DiffmahParams", ctx.get(DK, "DiffmahParams"), ()), ("a population of DiffmahParams", ctx.get(DK, "DiffmahParams"), (H,)),
             ("DEFAULT_DIFFMAHPOP_PARAMS", None, ()),
             ("populations of one halo", NTCls("P", ("b", "a")), (1,)), ("tables with an axis of length one", NTCls("P", ("b", "a")), (1, 2)),
             ("tables whose last axis has length one", NTCls("P", ("b", "a")), (2, 1)),
             ("fields not in alphabetical order", NTCls("P", ("zeta", "alpha", "m10", "m2", "beta")), ()),
             ("a single field", NTCls("P", ("only",)), ())]
    for what, cls, axes in cases:
        if cls is None:
            d = ctx.get("diffmah.diffmahpop_kernels.bimod_censat_params", "DEFAULT_DIFFMAHPOP_PARAMS")
            cls = d.cls if isinstance(d, NT) else None
            if cls is None:
                continue

        def one(cls=cls, axes=axes):
            p = nt(cls, "p_", *axes) if not any(isinstance(x, int) for x in axes) else NT(cls, [arr("p_" + f, *axes) for f in cls.fields])
            it = ctx.interp()
            w = H5Write()
            it.ext["h5py.File"] = w.open
            ctx.run(it, ctx.get(IO, "write_namedtuple_to_hdf5"), p, "fn")
            if [x[0] for x in w.opened] != ["fn"]:
                raise Fail("the writer opens %s, required the given file once" % [str(x[0]) for x in w.opened])
            if w.opened[0][1] != "w":
                raise Fail("the file is opened with mode %r: writing again to an existing file fails or keeps what it held" % w.opened[0][1], "%s:%s" % w.opened[0][2])
            exact(it, "a value written")
            it = ctx.interp()
            r = reopened(w)
            it.ext["h5py.File"] = r.open
            q = as_nt(ctx.run(it, ctx.get(IO, "load_namedtuple_from_hdf5"), "fn"))
            if [x[0] for x in r.opened] != ["fn"]:
                raise Fail("the reader opens %s, required the given file once" % [str(x[0]) for x in r.opened])
            exact(it, "a value read")
            if tuple(q.cls.fields) != tuple(cls.fields):
                raise Fail("fields read back: %s, written: %s" % (q.cls.fields, cls.fields))
            for k in cls.fields:
                a, b = as_arr(q.get(k)), as_arr(p.get(k))
                if a.axes != b.axes:
                    raise Fail("field %s is read with shape %s, written with %s" % (k, axs(a.axes), axs(b.axes)))
                for x in b.data:
                    must("field %s" % k, a.data[x], b.data[x])

        ctx.ob("write then read returns the same namedtuple: %s" % what, one)


# ------------------------------------------------------------------------ P31
def sliced(a, lo, hi):
    """rows lo:hi of a, for 0 <= lo <= hi <= n"""
    i = ixvars(a.axes)[0]
    size = tm.sub(hi, lo)
    ax = (V.norm_size(size),) + tuple(a.axes[1:])
    j = ixvars(ax)[0]
    return Arr(ax, {p: tm.subst(t, {i: tm.add(j, lo)}) for p, t in a.data.items()})


@prop("P31", 8)
def p31(ctx):
    ctx.rule("load_flat_hdf5 is analysed on symbolic files: the returned dictionary must hold, under the column names relative to the requested group, rows "
             "istart:iend of exactly the requested columns")
    flat = {"halo_id": vec("halo_id", R), "mah": vec("mah", R, sz("nt")), "id": vec("id", R)}
    nested = {"top": vec("top", R), "g": {"x": vec("x", R), "g": vec("gg", R), "sub": {"y": vec("y", R), "sub": vec("ss", R, sz("nt")), "subz": vec("z", R)}, "xg": {"y": vec("xy", R), "g": vec("xgg", R)}}}
    i0, i1 = tm.sym("istart"), tm.sym("iend")
    n = R

    def one(tree, group, want, a, rows):
        it = ctx.interp()
        h = H5Read(tree)
        it.ext["h5py.File"] = h.open
        r = ctx.run(it, ctx.get(IO, "load_flat_hdf5"), "fn", **a)
        if not isinstance(r, dict):
            raise Undecided("the result is not a dictionary")
        if [x[0] for x in h.opened] != ["fn"]:
            raise Fail("files opened: %s" % [str(x[0]) for x in h.opened])
        exact(it, "a column")
        d = tree
        for g in [x for x in (group or "").split("/") if x]:
            d = d[g]
        if sorted(r) != sorted(want):
            raise Fail("columns returned %s, required %s" % (sorted(r), sorted(want)))
        for k in want:
            g = as_arr(r[k])
            src = d
            for x in k.split("/"):
                src = src[x]
            if rows[0] is rows[1]:
                if g.axes is None:
                    raise Undecided("column %s is %s" % (k, sh(g)))
                if g.axes[0] != 0:
                    raise Fail("column %s has %s rows, required none" % (k, axs(g.axes[:1])))
                continue
            w = sliced(src, *rows)
            if g.axes is None:
                raise Undecided("column %s is %s" % (k, sh(g)))
            if len(g.axes) != len(w.axes) or not all(tm.equal(V.size_term(x), V.size_term(y))[0] for x, y in zip(g.axes, w.axes)):
                raise Fail("column %s has shape %s, required %s" % (k, axs(g.axes), axs(w.axes)))
            m = {x: y for x, y in zip(ixvars(g.axes), ixvars(w.axes)) if x is not None}
            must("column %s" % k, tm.subst(g.data[()], m), w.data[()])

    Z = tm.ZERO
    cases = [
        ("whole file", flat, None, list(flat), {}, (Z, n)),
        ("rows from istart", flat, None, list(flat), {"istart": scalar(i0)}, (i0, n)),
        ("rows to iend", flat, None, list(flat), {"iend": scalar(i1)}, (Z, i1)),
        ("rows istart:iend", flat, None, list(flat), {"istart": scalar(i0), "iend": scalar(i1)}, (i0, i1)),
        ("no rows: iend = 0", flat, None, list(flat), {"iend": 0}, (Z, Z)),
        ("chosen columns", flat, None, ["mah", "halo_id"], {"keys": ["mah", "halo_id"], "istart": scalar(i0), "iend": scalar(i1)}, (i0, i1)),
        ("nested group", nested, "g/sub", ["y", "sub", "subz"], {"dataset": "g/sub", "istart": scalar(i0), "iend": scalar(i1)}, (i0, i1)),
        ("chosen columns of a group", nested, "g/sub", ["subz", "y"], {"dataset": "g/sub", "keys": ["subz", "y"]}, (Z, n)),
        ("column named as its group", nested, "g", ["g", "x"], {"dataset": "g", "keys": ["g", "x"], "iend": scalar(i1)}, (Z, i1)),
        ("one of its columns", nested, "g/sub", ["sub"], {"dataset": "g/sub", "keys": ["sub"], "istart": scalar(i0)}, (i0, n)),
        ("a column inside a group, by its path", nested, None, ["g/x", "top"], {"keys": ["g/x", "top"], "istart": scalar(i0)}, (i0, n)),
        ("a column inside a subgroup, by its path in the group", nested, "g", ["sub/y", "sub/sub"], {"dataset": "g", "keys": ["sub/y", "sub/sub"], "iend": scalar(i1)}, (Z, i1)),
        ("a subgroup whose name ends with that of the group", nested, "g", ["xg/y", "xg/g"], {"dataset": "g", "keys": ["xg/y", "xg/g"]}, (Z, n)),
    ]
    for what, tree, group, want, a, rows in cases:
        ctx.ob(what, one, tree, group, want, a, rows)


# ------------------------------------------------------------------------ P32
NT_ = TT
PUB = "diffmah.data_loaders.load_diffmah_pub_data"
TNG = "diffmah.data_loaders.load_tng_mahs"
BPL = "diffmah.data_loaders.load_bpl_um_data"
HACC = "diffmah.data_loaders.load_hacc_mahs"
GAL = "diffmah.data_loaders.load_galacticus_eps_mahs"
SLM = "scripts.fitting_scripts.load_mah_data"


def opened_names(v):
    t = to_term(v)
    return t.args[0] if t.op == "str" else None


def table(rows, **cols):
    """a structured table; unknown columns do not exist"""

    def get(it, k):
        if not isinstance(k, str):
            raise V.Unsupported("row selection of the table", it.loc)
        if k not in cols:
            raise V.ProgError("the table has no column %s" % k, it.loc)
        a = cols[k]
        return Arr(a.axes, dict(a.data))

    return PyObj("table", getitem=get, attrs={"shape": (scalar(rows),), "size": scalar(rows)}, methods={"__len__": lambda it, a, k: scalar(rows)})


def files(it, mapping, seen):
    def load(it, a, k):
        n = opened_names(a[0])
        if n is None:
            raise V.Unsupported("computed file name", it.loc)
        seen.append(n)
        for suffix, v in mapping.items():
            if n.endswith(suffix):
                return v
        raise Fail("the file %s is not one of the published data files (%s)" % (n, ", ".join(mapping)), "%s:%s" % it.loc if it.loc else None)

    for f in ("numpy.load", "numpy.loadtxt", "numpy.genfromtxt"):
        it.ext[f] = load


def runmax(name):
    """running maximum over time of the symbol name, as analysed from the definition"""
    return name


@prop("P32", 10)
def p32(ctx):
    ctx.rule("each loader is analysed on a symbolic simulation file; the returned histories must equal, element by element, the running maximum over the time axis of "
             "that halo's row converted to the documented units, next to the identifiers and times of the same rows")
    m = vec("m", H, TT)
    tv = vec("t", TT)
    hid = vec("halo_id", H)

    def lgmin_is(v, want):
        t = to_term(v)
        if not tm.is_c(t):
            raise Fail("the minimum log mass of the fit is %s, documented %s" % (sh(t), want))
        if abs(tm.fval(t) - want) > 1e-9:
            raise Fail("the minimum log mass of the fit is %s, documented %s" % (tm.fval(t), want))

    def physical(v, zero):
        """peak masses and peak log masses of the tables are not negative: the value where they are zero, or positive"""

        def one(t):
            us = sorted({u for u in tm.subterms(t) if u.op == "red" and u.args[0] == "max" and not u.fbv}, key=lambda u: u.id)
            return tm.subst(t, {u: tm.ZERO if zero else tm.sym("pos:peak", tm.atom("of", u)) for u in us})

        return Arr(v.axes, {k: one(t) for k, t in v.data.items()})

    def check(v, want, what):
        v = as_arr(v)
        if v.axes is None:
            raise Undecided("%s is %s" % (what, sh(v)))
        ds = list(diff(v, want, FACTS))
        hard = [d for d in ds if not d[4]]
        if hard and v.axes is not None and want.axes is not None and not any(d for z in (True, False) for d in diff(physical(v, z), physical(want, z), FACTS)):
            return
        if hard:
            p, g, w, case, _ = hard[0]
            raise Fail("%s: computed %s, required %s%s" % (what, sh(g), sh(w), "" if case is None else " (when %s)" % case))
        if ds:
            raise Undecided("%s: comparison passes through %s" % (what, ", ".join(sorted(ds[0][4]))))

    FACTS = ()
    peak = lambda: V.as_arr(ctx.spec("io.running_max", m))

    def pub(mod, fn, args, halos, time, colname, ids, lgmin, want):
        it = ctx.interp()
        seen = []
        files(it, {halos: table(H, **({colname: m, "halo_id": hid, "mpeak": vec("mpeak", H)})), time: tv}, seen)
        r = ctx.run(it, ctx.get(mod, fn), *args, data_drn="drn")
        if not isinstance(r, tuple) or len(r) != 4:
            raise Undecided("the loader does not return four values")
        if any(not n.startswith("drn/") for n in seen):
            raise Fail("%s reads %s, not a file of the given directory" % (fn, [n for n in seen if not n.startswith("drn/")]))
        if ids is not None:
            check(r[0], ids, "halo identifiers")
        check(r[1], V.as_arr(ctx.spec("io." + want, m)), "log10 mass histories")
        check(r[2], tv, "times")
        lgmin_is(r[3], lgmin)

    rows = Arr((H,), {(): ixvars((H,))[0]})
    for mod in (PUB, SLM):
        w = mod.split(".")[0]
        ctx.ob("%s TNG table" % w, pub, mod, "load_tng_data", (), "tng_diffmah.npy", "tng_cosmic_time.npy", "mpeakh", rows, 10.0, "running_max")
        for s, time, lg in (("bpl", "bpl_cosmic_time.npy", 10.0), ("mdpl2", "mdpl2_cosmic_time.txt", 11.25)):
            for g in ("cens", "sats"):
                ctx.ob("%s %s %s" % (w, s, g), pub, mod, "load_bolshoi_data" if s == "bpl" else "load_mdpl2_data", (g,), "%s_diffmah_%s.npy" % (s, g), time,
                       "mpeak_history_main_prog", hid, lg, "log_running_max")

    def tng():
        it = ctx.interp()
        seen = []
        files(it, {"tng_diffmah.npy": table(H, mpeakh=m), "tng_cosmic_time.npy": tv}, seen)
        r = ctx.run(it, ctx.get(TNG, "load_tng_data"), data_drn="drn")
        check(r[0], tv, "times")
        check(r[1], V.as_arr(ctx.spec("io.tng_mass", m)), "masses in Msun")

    ctx.ob("TNG masses: 10**(running max of log mass) / h, missing entries 0", tng)

    def cosmo(args):
        """Bolshoi-Planck: Om0=0.307, h=0.678, w0=-1, wa=0"""
        if len(args) != 1:
            raise Undecided("cosmology passed as %s" % (args,))
        t = to_term(args[0])
        if not (t.op == "fn" and t.args[0] == "star" and t.args[1].op == "fn" and t.args[1].args[0] == "call" and str(t.args[1].args[1]).endswith("DEFAULT_COSMOLOGY._replace")):
            raise Undecided("cosmology passed as %s" % sh(t))
        kv = t.args[1].args[2:]
        d = {kv[i].args[0]: kv[i + 1] for i in range(0, len(kv) - 1, 2)}
        for k, w in (("Om0", 0.307), ("h", 0.678), ("w0", -1.0), ("wa", 0.0)):
            if k not in d:
                if k in ("w0", "wa"):
                    continue
                raise Fail("the cosmology does not set %s" % k)
            if not tm.is_c(d[k]) or abs(tm.fval(d[k]) - w) > 1e-9:
                raise Fail("the cosmology has %s = %s, required %s" % (k, sh(d[k]), w))

    def bpl():
        it = ctx.interp()
        calls = []
        store = {"halo_id": hid, "mpeak_history_main_prog": m}

        def lm(it, a, k):
            calls.append((a, k))
            return dict(store)

        it.ext["umachine_pyio.load_mock.load_mock_from_binaries"] = lm
        seen = []
        files(it, {"scale_list_bpl.dat": vec("scale", TT)}, seen)
        ages = []

        def age(it, a, k):
            ages.append(a)
            z = as_arr(a[0])
            return Arr((TT,), {(): tm.atom("age_at_z", z.data[()])})

        it.ext["dsps.cosmology.flat_wcdm.age_at_z"] = age
        props = ("mpeak_history_main_prog", "vmax", "halo_id")
        r = ctx.run(it, ctx.get(BPL, "load_bpl_mah_data"), "drn", [0, 1], props)
        if len(r) != 5:
            raise Undecided("the loader does not return five values")
        for a, k in calls:
            given = dict(zip(("subvolumes", "root_dirname", "galprops"), a), **k)
            for q, w in (("subvolumes", [0, 1]), ("root_dirname", "drn"), ("galprops", props)):
                if q not in given and len(given) >= 3:
                    raise Undecided("arguments of load_mock_from_binaries: %s" % sorted(given))
                if q not in given or to_term(given[q]) is not to_term(w):
                    raise Fail("load_mock_from_binaries is called with %s = %s, required %s" % (q, given.get(q), w))
        if any(not n.startswith("drn/") for n in seen):
            raise Fail("the loader reads %s" % seen)
        lgmin_is(r[3], 10.0)
        for a in ages:
            cosmo(a[1:])
        i = ixvars((TT,))[0]
        t_want = Arr((TT,), {(): tm.atom("age_at_z", tm.sub(tm.inv(tm.sym("scale", i)), tm.ONE))})
        check(r[0], hid, "halo identifiers")
        check(r[1], V.as_arr(ctx.spec("io.bpl_mass", m)), "mass histories")
        check(r[2], t_want, "times")
        last = tm.subst(t_want.data[()], {i: tm.sub(TT, tm.ONE)})
        check(r[4], scalar(tm.div(tm.ln(last), LN10)), "log10 of the final age")

    ctx.ob("Bolshoi-Planck: running maximum, at least 1 Msun, ages of the scale factors", bpl)

    def hacc_env(it):
        cosmo = PyObj("cosmo", attrs={k: sca(HK.get(k, k)) for k in ("h", "Omega_m", "w0", "wa")})
        steps = vec("step", TT)
        sim = PyObj("sim", attrs={"cosmo": cosmo, "cosmotools_steps": steps},
                    methods={"step2z": lambda it, a, k: Arr((TT,), {(): tm.atom("step2z", as_arr(a[0]).data[()])})})
        names = []
        it.extval["haccytrees.Simulation.simulations"] = PyObj("simulations", getitem=lambda it, k: (names.append(k), sim)[1], contains=lambda it, k: True)
        it.ext["haccytrees.Simulation.parse_config"] = lambda it, a, k: sim
        it.ext["dsps.cosmology.flat_wcdm.CosmoParams"] = lambda it, a, k: NT(NTCls("CosmoParams", ("Om0", "w0", "wa", "h")), list(a) + [k[x] for x in ("Om0", "w0", "wa", "h")[len(a):]])
        it.ext["dsps.cosmology.flat_wcdm.age_at_z"] = lambda it, a, k: Arr((TT,), {(): tm.atom("age", as_arr(a[0]).data[()], *[to_term(x) for x in a[1:]])})
        return names

    def hacc():
        it = ctx.interp()
        names = hacc_env(it)
        reads = []

        def reader(it, a, k):
            reads.append((a, k, it.loc))
            return table(H, infall_tree_node_mass=m, other_mass=vec("m2", H, TT))

        it.ext["haccytrees.coretrees.corematrix_reader"] = reader
        r = ctx.run(it, ctx.get(HACC, "load_mahs"), "fn", "SIM", sca("ichunk"), sca("nchunk"), **it_kw)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Undecided("the loader does not return two values")
        src = vec("m2", H, TT) if it_kw else m
        i = ixvars((TT,))[0]
        want_t = Arr((TT,), {(): tm.atom("age", tm.atom("step2z", tm.sym("step", i)), *[tm.sym(HK.get(k, k)) for k in ("Omega_m", "w0", "wa", "h")])})
        check(r[0], want_t, "times")
        check(r[1], V.as_arr(ctx.spec("io.per_h", src, sca("pos:h"))), "masses in Msun")
        if names and any(n != "SIM" for n in names):
            raise Fail("the simulation %s is looked up, not the requested one" % names)
        for a, k, loc in reads:
            if len(a) and isinstance(a[0], str) and a[0] != "fn":
                raise Fail("the tree reader is given the file %r, not the requested one" % a[0], "%s:%s" % loc)
            if [x for x in a if isinstance(x, str)] != ["fn"] and k.get("filename") != "fn":
                raise Undecided("arguments of the reader: %s" % (a,))
            for q, s in (("nchunks", "nchunk"), ("chunknum", "ichunk")):
                if q not in k and len(a) > 1:
                    raise Undecided("the reader is not given %s by name" % q)
                if q not in k:
                    raise Fail("the tree reader is not told %s: every chunk holds all halos" % q)
                must("the argument %s of the tree reader" % q, to_term(k[q]), tm.sym(s))

    def hacc_times():
        it = ctx.interp()
        hacc_env(it)
        r = ctx.run(it, ctx.get(HACC, "get_cosmic_time_hacc"), "SIM")
        i = ixvars((TT,))[0]
        z = tm.atom("step2z", tm.sym("step", i))
        check(r[0], Arr((TT,), {(): z}), "redshifts")
        check(r[1], Arr((TT,), {(): tm.atom("age", z, *[tm.sym(HK.get(k, k)) for k in ("Omega_m", "w0", "wa", "h")])}), "times")

    ctx.ob("HACC redshifts and ages of the simulation steps", hacc_times)
    for it_kw in ({}, {"mass_colname": "other_mass"}):
        ctx.ob("HACC cores: running maximum of the mass column / h%s" % (", other mass column" if it_kw else ""), hacc)

    cols = ("haloAccretionHistoryMass", "haloAccretionHistoryTime", "nodeIsIsolated", "basicTimeLastIsolated")
    tree = {"Outputs": {"Output1": {"nodeData": {k: vec(k, R) for k in cols + ("other",)}}}}

    def gal(a, lo, hi):
        it = ctx.interp()
        it.ext["h5py.File"] = H5Read(tree).open
        r = ctx.run(it, ctx.get(GAL, "extract_galacticus_mah_tables"), "fn", **a)
        if not isinstance(r, tuple) or len(r) != 4:
            raise Undecided("the loader does not return four values")
        for v, k in zip(r, cols):
            v = as_arr(v)
            w = sliced(vec(k, R), lo, hi)
            if v.axes is None or len(v.axes) != 1:
                raise Undecided("%s is %s" % (k, sh(v)))
            if not tm.equal(V.size_term(v.axes[0]), tm.sub(hi, lo))[0]:
                raise Fail("%s holds %s rows, required rows istart:iend" % (k, axs(v.axes)))
            must("row of %s" % k, tm.subst(v.data[()], {ixvars(v.axes)[0]: ixvars(w.axes)[0]}), w.data[()])

    i0, i1 = tm.sym("istart"), tm.sym("iend")
    ctx.ob("Galacticus rows istart:iend, same rows of all four columns", gal, {"istart": scalar(i0), "iend": scalar(i1)}, i0, i1)
    ctx.ob("Galacticus rows from istart", gal, {"istart": scalar(i0)}, i0, R)
    ctx.ob("Galacticus all rows", gal, {}, tm.ZERO, R)

    def ntot():
        it = ctx.interp()
        it.ext["h5py.File"] = H5Read(tree).open
        must("number of halos", T0(ctx.run(it, ctx.get(GAL, "get_nhalos_tot"), "fn")), R)

    ctx.ob("Galacticus number of halos", ntot)


# ------------------------------------------------------------------------ P33
class Comm:
    """one rank of a communicator; the calls are logged"""

    def __init__(self, rank, size, inbox=None, bval=None):
        self.log, self.rank, self.size = [], rank, size
        names = {"send": ("obj", "dest", "tag"), "recv": ("buf", "source", "tag"), "bcast": ("obj", "root"), "Barrier": (), "barrier": (), "scatter": ("sendobj", "root"),
                 "gather": ("sendobj", "root"), "allgather": ("sendobj",), "reduce": ("sendobj", "op", "root"), "allreduce": ("sendobj", "op")}

        def m(name):
            def f(it, a, k):
                d = dict(zip(names[name], a))
                d.update(k)
                if it.path:
                    raise Undecided("a communication depends on the symbolic condition %s" % tm.show(it.path[-1]))
                for q in ("dest", "source", "root"):
                    if q in names[name]:
                        x = it.pynum(d.get(q, 0 if q == "root" else -1))
                        if not isinstance(x, int):
                            raise Undecided("computed rank in %s" % name)
                        d[q] = x
                self.log.append((name.lower() if name == "Barrier" else name, d, it.loc))
                if name == "recv":
                    return inbox
                if name in ("bcast",):
                    return d["obj"] if d["root"] == rank else bval
                if name == "scatter":
                    if d["root"] != rank:
                        return inbox
                    o = d["sendobj"]
                    return it.getitem(o, rank)
                return V.opq(tm.atom("mpi." + name, to_term(d.get("sendobj")), C(rank)))

            return f

        self.obj = PyObj("comm", attrs={"rank": rank, "size": size}, methods={n: m(n) for n in names} | {"Get_rank": lambda it, a, k: rank, "Get_size": lambda it, a, k: size})


def rendezvous(size, logs):
    """the program order of all ranks, with sends that wait for their receive and collectives that wait for all ranks (what MPI allows): no rank may be left waiting"""
    pos = [0] * size
    while True:
        here = [logs[r][pos[r]] if pos[r] < len(logs[r]) else None for r in range(size)]
        if not any(here):
            return
        moved = False
        for r in range(size):
            e = here[r]
            if e and e[0] == "send" and 0 <= e[1]["dest"] < size:
                d = e[1]["dest"]
                o = here[d]
                if o and o[0] == "recv" and o[1]["source"] in (r, -1):
                    pos[r] += 1
                    pos[d] += 1
                    moved = True
                    break
        if not moved and all(e and e[0] not in ("send", "recv") for e in here):
            pos = [p + 1 for p in pos]
            moved = True
        if not moved:
            w = [(r, e) for r, e in enumerate(here) if e]
            # messages without a partner are reported by the pairing
            if any(e[0] == "recv" and not any(x[0] == "send" and x[1]["dest"] == r for q in range(size) for x in logs[q][pos[q]:]) for r, e in w):
                return
            if any(e[0] == "send" and not any(x[0] == "recv" for x in logs[e[1]["dest"]][pos[e[1]["dest"]]:]) for r, e in w if 0 <= e[1].get("dest", -1) < size):
                return
            r, e = w[0]
            raise Fail("deadlock: " + "; ".join("rank %d waits in %s%s" % (r, e[0], " for rank %d" % e[1].get("dest", e[1].get("source")) if e[0] in ("send", "recv") else "") for r, e in w), "%s:%s" % e[2])


def unsplit(t):
    """np.array_split: piece k of n has rows start(k):start(k+1), start(0)=0, start(n)=size"""

    def st(s, n, k):
        if tm.equal(k, tm.ZERO)[0]:
            return tm.ZERO
        if tm.equal(k, n)[0]:
            return s
        return tm.atom("split_start", s, n, k)

    m = {}
    for u in tm.subterms(t):
        if u.op == "fn" and u.args[0] == "split_size":
            m[u] = tm.sub(st(u.args[1], u.args[2], tm.add(u.args[3], tm.ONE)), st(*u.args[1:]))
        elif u.op == "fn" and u.args[0] == "split_start":
            m[u] = st(*u.args[1:])
    return tm.subst(t, m) if m else t


def residue(t, s, n, m, memo):
    """t for s = n*q + m rows (q symbolic, n and 0 <= m < n fixed): exact quotients, remainders and split points"""
    q = sz("quot")
    if t is s:
        return tm.add(tm.scale(n, q), C(m))
    r = memo.get(t)
    if r is not None:
        return r
    sn = tm.add(tm.scale(n, q), C(m))
    r = tm.rebuild(t, lambda k: residue(k, s, n, m, memo))

    def start(k):
        return tm.add(tm.scale(k, q), C(min(k, m)))

    if r.op == "fn" and r.args[0] in ("split_start", "split_size") and r.args[1] is sn and tm.is_c(r.args[2]) and tm.fval(r.args[2]) == n and tm.is_c(r.args[3]):
        k = int(tm.fval(r.args[3]))
        r = start(k) if r.args[0] == "split_start" else tm.sub(start(k + 1), start(k))
    elif r.op == "fn" and r.args[0] == "floor":
        r = tm.floor(r.args[1])
    memo[t] = r
    return r


def pieces_cover(pieces, src, total, what):
    """the pieces are consecutive row ranges of src covering rows 0:total"""
    pos = tm.ZERO
    pairs = []
    for r, p in enumerate(pieces):
        p = as_arr(p)
        if p.axes is None or len(p.axes) != len(src.axes):
            raise Undecided("the rows of %s %d are %s" % (what, r, sh(p)))
        i = ixvars(p.axes)
        if i[0] is None:
            raise Undecided("%s %d holds a fixed number of rows" % (what, r))
        for x, y in zip(p.axes[1:], src.axes[1:]):
            if not tm.equal(V.size_term(x), V.size_term(y))[0]:
                raise Fail("%s %d gets an array of shape %s" % (what, r, axs(p.axes)))
        j = ixvars(src.axes)
        sub = {j[0]: tm.add(pos, i[0])} | {a: b for a, b in zip(j[1:], i[1:]) if a is not b}
        if set(p.data) != set(src.data):
            raise Fail("%s %d gets an array of shape %s" % (what, r, axs(p.axes)))
        for q in src.data:
            pairs.append(("row k of %s %d" % (what, r), unsplit(p.data[q]), tm.subst(src.data[q], sub)))
        pos = tm.add(pos, unsplit(V.size_term(p.axes[0])))
    pairs.append(("the number of rows given out", pos, total))
    try:
        for name, got, want in pairs:
            must(name, got, want)
        return
    except (Fail, Undecided):
        n, s = len(pieces), V.size_term(src.axes[0])
        if n == 1 or s.op != "sym":
            raise
    # the split points in closed form, for every remainder of the number of rows
    for m in range(n):
        memo = {}
        for name, got, want in pairs:
            must("%s, of %d*q + %d rows," % (name, n, m), residue(got, s, n, m, memo), residue(want, s, n, m, memo))


@prop("P33", 6)
def p33(ctx):
    ctx.rule("the code of every rank of communicators of size 1 to 4 is analysed; the point-to-point messages must pair up (each send has the receive that takes it), "
             "collectives must be called in the same order with the same root on all ranks, no rank may be left waiting when sends wait for their receive and collectives for all ranks, and the row ranges handed out must tile the rows of the root's array")
    sizes = (1, 2, 3, 4) + ((5, 6, 8) if ctx.tier == "thorough" else ())

    def exchange(size, root, run, src, total):
        got = arr("got", sz("nrecv"), *src.axes[1:])
        logs, res = {}, {}
        box = {}
        for r in [root] + [r for r in range(size) if r != root]:
            # the number of rows known: deliver the piece itself
            c = Comm(r, size, box.get(r, got) if isinstance(total, int) else got, PyObj("broadcast value"))
            res[r] = run(r, c)
            logs[r] = c.log
            if r == root:
                for n, d, _ in c.log:
                    if n == "send":
                        box.setdefault(d["dest"], d["obj"])
        coll = [[(n, d.get("root")) for n, d, _ in logs[r] if n not in ("send", "recv")] for r in range(size)]
        for r in range(size):
            if coll[r] != coll[0]:
                raise Fail("rank %d calls the collectives %s, rank 0 %s" % (r, coll[r], coll[0]))
        rendezvous(size, logs)
        # pair messages
        sent, it0 = {}, ctx.interp()
        for r in range(size):
            for n, d, loc in logs[r]:
                if n == "send":
                    if not 0 <= d["dest"] < size or d["dest"] == r:
                        raise Fail("rank %d sends to rank %d of %d" % (r, d["dest"], size), "%s:%s" % loc)
                    sent.setdefault((r, d["dest"]), []).append((d["obj"], d.get("tag", 0)))
        pieces = []
        for r in range(size):
            rec = [(d, loc) for n, d, loc in logs[r] if n == "recv"]
            for d, loc in rec:
                q = sent.get((d["source"], r)) or (sent.get(next((k for k in sent if k[1] == r and sent[k]), None)) if d["source"] < 0 else None)
                if not q:
                    raise Fail("rank %d waits for a message of rank %d that is never sent" % (r, d["source"]), "%s:%s" % loc)
                val_, tag = q.pop(0)
                want = it0.pynum(d.get("tag", -1))
                tag = it0.pynum(tag)
                if isinstance(want, int) and isinstance(tag, int) and want >= 0 and want != tag:
                    raise Fail("rank %d waits for a message with tag %d, rank %d sends it with tag %d" % (r, want, d["source"], tag), "%s:%s" % loc)
                pieces.append((r, val_))
            sc = [(d, loc) for n, d, loc in logs[r] if n == "scatter"]
            if sc:
                lst = [d for n, d, _ in logs[sc[0][0]["root"]] if n == "scatter"][0]["sendobj"]
                pieces.append((r, ctx.interp().getitem(lst, r)))
        left = [k for k in sent if sent[k]]
        if left:
            raise Fail("a message of rank %d to rank %d is never received" % left[0])
        return res, dict(pieces), got

    def scatter(size, root, axis, n=None):
        H = nrows if n is None else n
        src = arr("a", H, 2) if n is not None else vec("a", H, TT) if axis == 0 else vec("a", TT, H)

        def run(r, c):
            it = ctx.interp()
            return ctx.run(it, ctx.get(HACC, "_scatter_nd"), src if r == root else None, axis=axis, comm=c.obj, root=root)

        res, pieces, got = exchange(size, root, run, src, H)
        out = []
        for r in range(size):
            v = res[r]
            if r in pieces and r != root:
                if to_term(v) is not to_term(got) if n is None else v is not pieces[r] and as_arr(v).axes != as_arr(pieces[r]).axes:
                    raise Fail("rank %d does not return the piece it received" % r)
                v = pieces[r]
            elif r == root or size == 1:
                pass
            else:
                raise Fail("rank %d of %d gets no piece" % (r, size))
            v = as_arr(v)
            if axis == 1 and v.axes is not None and len(v.axes) == 2:
                v = V.moveaxis(v, (1, 0))
            out.append(v)
        if n is None:
            pieces_cover(out, vec("a", H, TT) if axis == 0 else V.moveaxis(src, (1, 0)), H, "rank")
            return
        whole = []
        for r, v in enumerate(out):
            if v.axes is None or not isinstance(v.axes[0], int):
                raise Undecided("the piece of rank %d is %s" % (r, sh(v)))
            whole += [[v.data[(i, j)] for j in range(2)] for i in range(v.axes[0])]
        if len(whole) != n:
            raise Fail("%d of %d rows are handed out to %d ranks" % (len(whole), n, size))
        for i in range(n):
            for j in range(2):
                must("row %d handed out" % i, whole[i][j], src.data[(i, j)])

    nrows = H
    for s in (2, 3):
        for n in (1, 2, 3, 4):
            ctx.ob("_scatter_nd, %d rows for %d ranks" % (n, s), scatter, s, 0, 0, n)
    for s in sizes:
        ctx.ob("_scatter_nd, %d ranks" % s, scatter, s, 0, 0)
    ctx.ob("_scatter_nd, root 1 of 3 ranks", scatter, 3, 1, 0)
    ctx.ob("_scatter_nd, last of 4 ranks is root", scatter, 4, 3, 0)
    ctx.ob("_scatter_nd along axis 1", scatter, 3, 0, 1)

    def world(it):
        raise Fail("MPI.COMM_WORLD is used although a communicator is given", "%s:%s" % it.loc if it.loc else None)

    def per_rank(size, n=None):
        src, tv = vec("mah", H, TT) if n is None else arr("mah", n, 2), vec("t", TT)
        loads = []

        def run(r, c):
            it = ctx.interp()

            def load(it, v):
                loads.append((r, dict(v)))
                return tv, src

            stub(ctx, it, HACC, "load_mahs", load)
            it.extval["mpi4py.MPI.COMM_WORLD"] = PyObj("COMM_WORLD", attrs={k: world for k in ("rank", "size", "send", "recv", "bcast", "Get_rank", "Get_size", "Barrier", "scatter")})
            return ctx.run(it, ctx.get(HACC, "load_mahs_per_rank"), "fn", "SIM", sca("ichunk"), sca("nchunk"), mass_colname="col", comm=c.obj)

        res, pieces, got = exchange(size, 0, run, src, H if n is None else n)
        for r, v in loads:
            want = {"fn_data": "fn", "sim_name": "SIM", "chunknum": tm.sym("ichunk"), "nchunks": tm.sym("nchunk"), "mass_colname": "col"}
            for k, w in want.items():
                if k in v and to_term(v[k]) is not to_term(w):
                    raise Fail("load_mahs is called with %s = %s" % (k, sh(to_term(v[k]))))
        out = []
        for r in range(size):
            if not isinstance(res[r], tuple) or len(res[r]) != 2:
                raise Undecided("load_mahs_per_rank does not return two values")
            t, m = res[r]
            if not (isinstance(t, PyObj) and t.name == "broadcast value") and to_term(t) is not to_term(tv):
                raise Fail("rank %d returns the times %s" % (r, sh(to_term(t))))
            out.append(pieces[r] if r in pieces and r != 0 else m)
        if n is None:
            pieces_cover(out, src, H, "rank")

    def default_comm():
        it = ctx.interp()
        c = Comm(0, 1)
        it.extval["mpi4py.MPI.COMM_WORLD"] = c.obj
        stub(ctx, it, HACC, "load_mahs", lambda it, v: (vec("t", TT), vec("mah", H, TT)))
        r = ctx.run(it, ctx.get(HACC, "load_mahs_per_rank"), "fn", "SIM", sca("ichunk"), sca("nchunk"))
        if not isinstance(r, tuple) or len(r) != 2:
            raise Undecided("load_mahs_per_rank does not return two values")
        must("times", as_arr(r[0]).data[()], vec("t", TT).data[()])
        pieces_cover([r[1]], vec("mah", H, TT), H, "rank")

    for s in (2, 3):
        ctx.ob("load_mahs_per_rank, one halo for %d ranks" % s, per_rank, s, 1)
    ctx.ob("load_mahs_per_rank without a communicator uses MPI.COMM_WORLD", default_comm)

    for s in sizes:
        ctx.ob("load_mahs_per_rank, %d ranks: each halo goes to one rank, times to all" % s, per_rank, s)
