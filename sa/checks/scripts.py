"""P34: the fitting scripts, run by every rank of small communicators."""
import posixpath

from .io import *  # noqa
from .io import stub, must, pieces_cover, unsplit, H5Write
from ..core import prop, Ctx, Fail, Undecided, diff
from ..values import NT, NTCls, Arr, PyObj, SymList, scalar, as_arr, ixvars, to_term, opq
from ..world import World, deletes
from .. import terms as tm, values as V
import fnmatch

FS = "scripts.fitting_scripts."
SYNC_ALL = ("barrier", "allreduce", "allgather")


def locs(e):
    return "%s:%s" % e.loc if e.loc else None


def fit_stubs(ctx, w):
    """summaries of the fitter, the text line and the collated writer"""
    it = w.it

    def fitter(it, vals):
        k = len([e for e in it.events if e.kind == "fit"]) + 1000 * len(it.loopctx)
        key = "fit:%d" % len(it.events)
        it.event("fit", key, (dict(vals),))
        return opq(tm.sym(key, *[i for i, n in it.loopctx]))

    def outline(it, vals):
        v = list(vals.values())
        h = v[1] if len(v) > 1 else None
        return opq(tm.atom("outline", to_term(v[0]), to_term(h)))

    stub(ctx, it, FH, "diffmah_fitter", fitter)
    stub(ctx, it, FH, "get_outline", outline)
    stub(ctx, it, FH, "write_collated_data", lambda it, vals: w.log(it, "collate", *list(vals.values())))


class Trace:
    """what one rank did, in order"""

    def __init__(self, w, ev):
        self.w, self.rank = w, w.rank
        self.ev = [e for e in ev if e.kind in ("io", "mpi", "fit")]
        for e in self.ev:
            if e.kind == "mpi" and (e.path or e.loops):
                raise Undecided("a communication depends on symbolic data", )
            if e.kind == "io" and e.what != "write" and e.loops:
                raise Undecided("%s inside a loop of symbolic length" % e.what)

    def coll(self, upto=None):
        return [(e.what, e.args[0].get("root", 0)) for e in self.ev[: len(self.ev) if upto is None else upto] if e.kind == "mpi" and e.what not in ("send", "recv")]

    def pos(self, what):
        return [j for j, e in enumerate(self.ev) if e.kind == "io" and e.what == what]

    def files(self):
        """[(name, open position, close position, write events)]"""
        out = []
        for j in self.pos("open"):
            e = self.ev[j]
            name, mode = e.args
            if not isinstance(name, str):
                raise Undecided("computed name of a text file")
            if "w" not in mode:
                raise Fail("rank %d opens %s with mode %r: rows of an earlier run would be kept" % (self.rank, name, mode), locs(e))
            close = next((c for c in self.pos("close") if c > j and self.ev[c].args[0] == name), None)
            ws = [x for x in self.ev[j:close] if x.kind == "io" and x.what == "write" and x.args[0] == name]
            out.append((name, j, close, ws))
        return out


def rows_of(ctx, tr, ws, hdr):
    """(number of rows, event of the row, fit arguments as functions of the row, halo_id term) of one text file"""
    if not ws:
        raise Fail("rank %d writes nothing" % tr.rank)
    first = ws[0]
    if first.loops:
        raise Fail("the first line written by rank %d is not a header" % tr.rank, locs(first))
    if not isinstance(first.args[1], str):
        raise Undecided("the header line is computed")
    rows = ws[1:]
    for e in rows:
        if not e.loops:
            if isinstance(e.args[1], str):
                raise Fail("rank %d writes an additional line %r" % (tr.rank, e.args[1]), locs(e))
    if len(rows) != 1 or len(rows[0].loops) != 1:
        if not rows:
            raise Fail("rank %d writes a header and no rows" % tr.rank, locs(first))
        if all(not e.loops for e in rows):
            raise Fail("rank %d writes a fixed number of rows (%d)" % (tr.rank, len(rows)), locs(rows[0]))
        raise Undecided("rows are written in %d places" % len(rows))
    e = rows[0]
    if e.path:
        raise Fail("the row of a halo is written only when %s" % tm.show(tm.and_(*e.path), 4), locs(e))
    t = to_term(e.args[1])
    if not (t.op == "fn" and t.args[0] == "outline"):
        raise Undecided("the row is %s" % sh(t))
    key, hid = t.args[1], t.args[2]
    if not (key.op == "sym" and str(key.args[0]).startswith("fit:")):
        raise Undecided("the row describes %s" % sh(key))
    fe = [x for x in tr.ev if x.kind == "fit" and x.what == key.args[0]]
    if not fe:
        raise Undecided("fit not found")
    fe = fe[-1]
    (i, n) = e.loops[0]
    fi = [q for q, s in fe.loops]
    if len(fi) != 1:
        raise Fail("every row of rank %d describes the same fit" % tr.rank, locs(fe)) if not fi else Undecided("nested loops over halos")
    m = {fi[0]: key.args[1]}
    args = {k: V.subst_val(v, m) if fi[0] is not key.args[1] else v for k, v in fe.args[0].items()}
    has_id = not (hid.op == "none" or hid is to_term(None))
    want = hdr["id" if has_id else "no"]
    if first.args[1] != want:
        raise Fail("the rows %s a halo_id, but the header is %r" % ("start with" if has_id else "have no", first.args[1]), locs(first))
    return i, n, args, (hid if has_id else None), fe


def stack_rows(v, i, n):
    """the values v(i), i < n, as an array with a leading axis"""
    a = as_arr(v)
    if a.axes is None:
        raise Undecided("the fitted history is %s" % sh(a))
    return V.add_axis(a, V.norm_size(n), i)


def parts(t):
    """files concatenated in an array term, in order"""
    if t.op == "fn" and t.args[0] == "filetext":
        return [(t.args[1], None)]
    if t.op == "fn" and t.args[0] == "reshape" and len(t.args) == 4 and t.args[1].op == "fn" and t.args[1].args[0] == "filetext":
        # rows of a stated number of columns
        k, n = t.args[2:]
        if tm.is_c(k) and tm.fval(k) == -1 and tm.is_c(n):
            return [(t.args[1].args[1], tm.fval(n))]
    if t.op == "where":
        c, x, y = t.args
        if "Undef" not in sh(y):
            x, y = y, x
            c = tm.not_(c)
        if "Undef" in sh(y) and x.op == "fn":
            # left out when it has no rows: the scenarios with few halos settle the empty table
            for f in ([x] if x.args[0] == "filetext" else [x, x.args[1]] if x.args[0] == "reshape" else ()):
                for n in (tm.atom("getattr", f, tm.atom("str", "size")), tm.atom("getattr", f, "size"), tm.atom("len", f)):
                    if c in (tm.lt(C(0), n), tm.not_(tm.eq(n, C(0))), tm.le(C(1), n)):
                        return parts(x)
    if t.op == "fn" and t.args[0] in ("concat", "vconcat"):
        if len(t.args) > 2 and not (tm.is_c(t.args[2]) and tm.fval(t.args[2]) == 0):
            raise Fail("the tables of the ranks are concatenated along axis %s" % sh(t.args[2]))
        x = t.args[1]
        if x.op in ("tuple", "list"):
            return [q for y in x.args for q in parts(y)]
    raise Undecided("the collated table is %s" % sh(t))


def common(ctx, traces, outdir, nunits):
    """obligations independent of the input; returns per unit and rank the written rows"""
    hdr = {"id": ctx.get(FH, "HEADER_HALO_ID"), "no": ctx.get(FH, "HEADER")}
    size = len(traces)
    seqs = [t.coll() for t in traces]
    for r in range(1, size):
        if seqs[r] != seqs[0]:
            raise Fail("rank %d calls the collectives %s, rank 0 %s: the run hangs" % (r, seqs[r], seqs[0]))
    for t in traces:
        for e in t.ev:
            if e.kind == "mpi" and e.what in ("send", "recv"):
                raise Undecided("point-to-point messages in a script")
    fl = [t.files() for t in traces]
    for r in range(size):
        if len(fl[r]) != nunits:
            raise Fail("rank %d writes %d text files, required %d" % (r, len(fl[r]), nunits))
    t0 = traces[0]
    col = t0.pos("collate")
    for r in range(1, size):
        for e in traces[r].ev:
            if e.kind == "io" and e.what == "collate":
                raise Fail("rank %d also writes the collated file" % r, locs(e))
            if deletes(e):
                raise Fail("rank %d deletes %s while rank 0 reads the files of all ranks" % (r, deletes(e)), locs(e))
    if len(col) != nunits:
        raise Fail("rank 0 writes %d collated files, required %d" % (len(col), nunits))
    for t in traces:
        for j in t.pos("mkdir"):
            if size > 1 and t.ev[j].args[1] is not True and any(len(x.pos("mkdir")) for x in traces if x is not t):
                raise Fail("several ranks create the output directory and fail if it exists", locs(t.ev[j]))
        for name, j, _, _ in fl[t.rank]:
            d = posixpath.dirname(name)
            mk = lambda x, q: any(p < q and x.ev[p].args[0] == d for p in x.pos("mkdir"))
            if mk(t, j):
                continue
            p0 = [p for p in t0.pos("mkdir") if t0.ev[p].args[0] == d]
            if not p0:
                raise Fail("the directory %s of the text files is not created first" % d, locs(t.ev[j]))
            a, b = len(t0.coll(p0[0])), len(t.coll(j))
            if not any(op in SYNC_ALL or (op in ("bcast", "scatter") and root == 0) for op, root in seqs[0][a:b]):
                raise Fail("rank %d may open its text file before rank 0 has created the directory" % t.rank, locs(t.ev[j]))
    reads, outs = t0.pos("read"), []
    prev = -1
    units, shaped = [], []
    for k in range(nunits):
        names = [fl[r][k][0] for r in range(size)]
        if len(set(names)) != size:
            raise Fail("several ranks write the same file %s" % sorted(names))
        c = t0.ev[col[k]]
        outfn, data = c.args[0], c.args[1]
        if not isinstance(outfn, str):
            if isinstance(data, str):
                raise Fail("write_collated_data is given %s as the file name and %r as the data" % (sh(to_term(outfn)), data), locs(c))
            raise Undecided("computed name of the output file")
        if posixpath.dirname(outfn) != outdir:
            raise Fail("the output is written to %s, not in the requested directory" % outfn, locs(c))
        outs.append(outfn)
        ps = parts(to_term(data))
        got = [p.args[0] if p.op == "str" else None for p, _ in ps]
        if got != names:
            raise Fail("the collated table consists of the files %s, required those of ranks 0, 1, ...: %s" % (got, names), locs(c))
        shaped.append((c, [n for _, n in ps]))
        for r in range(size):
            fn = names[r]
            js = [j for j in reads if prev < j < col[k] and t0.ev[j].args[0] == fn]
            if not js:
                raise Undecided("the file %s is read elsewhere" % fn)
            if fl[r][k][2] is None:
                raise Fail("the text file of rank %d is not closed before it is read" % r, locs(t0.ev[js[0]]))
            if r == 0:
                if js[0] < fl[0][k][2]:
                    raise Fail("rank 0 reads its own file before closing it", locs(t0.ev[js[0]]))
                continue
            a, b = len(traces[r].coll(fl[r][k][2])), len(t0.coll(js[0]))
            if not any(op in SYNC_ALL or (op in ("reduce", "gather") and root == 0) for op, root in seqs[0][a:b]):
                raise Fail("no barrier separates the end of rank %d's writing from rank 0 reading %s" % (r, fn), locs(t0.ev[js[0]]))
        for j in range(prev + 1, col[k]):
            d = deletes(t0.ev[j])
            if d and any(fnmatch.fnmatchcase(x, p) for p in d for x in names):
                raise Fail("the text files are deleted before they are collated", locs(t0.ev[j]))
        prev = col[k]
        units.append([rows_of(ctx, traces[r], fl[r][k][3], hdr) for r in range(size)])
        for r in range(size):
            ncol, q = len(hdr["no" if units[k][r][3] is None else "id"][1:].split()), shaped[k][1][r]
            if q is not None and q != ncol:
                raise Fail("the rows of %d columns are reshaped into %s columns" % (ncol, q), locs(shaped[k][0]))
        # every column of every row is read, as text where digits matter
        for j in reads:
            kw = dict(t0.ev[j].args[1])
            nd = kw.pop("ndmin", 0)
            if nd == 3 or nd in (0, 1) and None in shaped[k][1]:
                raise Fail("the text file of a rank with a single halo is read as a table of %s dimensions" % (nd or "one"), locs(t0.ev[j]))
            dt = kw.pop("dtype", None)
            text = dt in ("str", "U", "S") or isinstance(dt, str) and dt.lstrip("<>|")[:1] in "US" or builtin_is(dt, "str")
            if not text:
                if units[k][0][3] is not None:
                    raise Fail("the halo identifiers are read as %s, which cannot hold every 64-bit integer" % ("floating point" if dt is None else dt), locs(t0.ev[j]))
                if not (dt is None or builtin_is(dt, "float") or dt in ("float", "f8")):
                    raise Undecided("the text file is read with dtype %s" % (dt,))
            for a, bad in (("max_rows", None), ("skip_footer", 0), ("usecols", None)):
                if kw.pop(a, bad) != bad:
                    raise Fail("the text file is read with %s" % a, locs(t0.ev[j]))
            sk = kw.pop("skip_header", kw.pop("skiprows", 0))
            if sk not in (0, 1):
                raise Fail("%s rows are skipped at the start of the text file" % sk, locs(t0.ev[j]))
            if kw:
                raise Undecided("the text file is read with the options %s" % sorted(kw))
    if len(set(outs)) != len(outs):
        raise Fail("the output file %s is written more than once" % sorted(outs))
    alltmp = [x[0] for f in fl for x in f]
    for j, e in enumerate(t0.ev):
        for p in deletes(e) or ():
            for o in outs:
                if fnmatch.fnmatchcase(o, p):
                    raise Fail("the output file %s is deleted (pattern %s)" % (o, p), locs(e))
            for k in range(nunits):
                for r in range(size):
                    if not fnmatch.fnmatchcase(fl[r][k][0], p):
                        continue
                    if j < col[k]:
                        # deletion of a later unit's file: already in use?
                        a, b = len(traces[r].coll(fl[r][k][1])), len(t0.coll(j))
                        raise Fail("the pattern %s deletes %s before it is collated" % (p, fl[r][k][0]), locs(e))
            if not any(fnmatch.fnmatchcase(x, p) for x in alltmp):
                raise Fail("the files %s are deleted, which the script did not write" % p, locs(e))
    return units, outs


def same_val(what, v, want):
    if isinstance(v, Arr) and v.axes is not None:
        v = Arr(v.axes, {k: unsplit(x) for k, x in v.data.items()})
    ds = [d[:4] + (d[4] - {"split_start", "split_size"},) for d in diff(v, want)]
    hard = [d for d in ds if not d[4]]
    if hard:
        p, g, w, case, _ = hard[0]
        raise Fail("%s%s is %s, required %s%s" % (what, p, sh(g), sh(w), "" if case is None else " (when %s)" % case))
    if ds:
        raise Undecided("%s passes through %s" % (what, ", ".join(sorted(ds[0][4]))))


def number(what, v, want):
    t = to_term(v)
    if not tm.is_c(t):
        raise Fail("%s is %s, required %s" % (what, sh(t), want)) if not imprecise(t) else Undecided("%s is %s" % (what, sh(t)))
    if abs(tm.fval(t) - want) > 1e-12:
        raise Fail("%s is %s, required %s" % (what, sh(t), want))


def opt(args, name):
    if name not in args:
        raise Undecided("diffmah_fitter has no parameter %s" % name)
    return args[name]


def fit_args(args):
    v = list(args.values())
    return v[0], v[1]


def single(ctx, script, argv, size, outdir, loader, src, tv, hid=None, want=None, nrows=None, reduced=None, other=None):
    """a script that fits all rows of one table"""
    traces = []
    worlds = []
    for r in range(size):
        w = World(ctx, FS + script, argv, r, size, reduced=reduced)
        fit_stubs(ctx, w)
        loader(w)
        _, ev = w.main()
        traces.append(Trace(w, ev))
        worlds.append(w)
    units, outs = common(ctx, traces, outdir, 1)
    ms, hs = [], []
    for r, (i, n, args, h, fe) in enumerate(units[0]):
        t, m = fit_args(args)
        if tv is not None:
            same_val("the time array of the fits of rank %d" % r, t, tv)
        ms.append(stack_rows(m, i, n))
        if hid is not None:
            if h is None:
                raise Fail("the rows have no halo_id")
            hs.append(stack_rows(scalar(h), i, n))
        elif h is not None:
            raise Fail("the rows have an unknown halo_id %s" % sh(h))
        for k, x in (want or {}).items():
            number("the argument %s of the fit" % k, opt(args, k), x) if not isinstance(x, tm.T) else must("the argument %s of the fit" % k, to_term(opt(args, k)), x)
        if other:
            other(r, i, n, args)
    pieces_cover(ms, src, nrows or V.size_term(src.axes[0]), "rank")
    if hid is not None:
        pieces_cover(hs, hid, nrows or V.size_term(src.axes[0]), "the identifiers of rank")
    return outs, worlds


def few_halos(ctx, script, argv, size, nhalos, loader, reduced=None, has_id=False, existing=()):
    """a communicator with more ranks than halos: the text files hold known rows, rank 0 collates them"""
    hdr = ctx.get(FH, "HEADER_HALO_ID" if has_id else "HEADER")
    ncol = len(hdr[1:].split())
    files, events = {}, []
    for r in list(range(1, size)) + [0]:
        w = World(ctx, FS + script, argv, r, size, reduced=reduced, existing=existing)
        fit_stubs(ctx, w)
        loader(w)

        def readtxt(it, a, k):
            fn = a[0]
            if fn not in files:
                ws = [e for e in it.events if e.kind == "io" and e.what == "write" and e.args[0] == fn]
                files[fn] = ws
            rows = [e.args[1] for e in files[fn] if not isinstance(e.args[1], str)]
            if any(e.path or e.loops for e in files[fn]):
                raise Undecided("rows written under conditions")
            nd = it.pynum(k.get("ndmin", 0))
            if nd not in (0, 1, 2) or not set(k) <= {"ndmin", "dtype", "comments"}:
                raise Undecided("the text file is read with the options %s" % sorted(k))
            it.event("io", "read", (fn, dict(k)))
            n = len(rows)
            # numpy: a table without rows has the shape (0,), and (0, 1) in two dimensions
            cells = [[tm.atom("cell", to_term(x), C(j)) for j in range(ncol)] for x in rows]
            if n == 0:
                sh = (0,) if nd < 2 else (0, 1)
            elif n == 1 and nd < 2:
                sh = (ncol,)
            else:
                sh = (n, ncol)
            flat = [c for x in cells for c in x]
            return Arr(sh, dict(zip(V.positions(sh), flat)))

        for n in ("numpy.genfromtxt", "numpy.loadtxt"):
            w.it.ext[n] = readtxt
        _, ev = w.main()
        tr = Trace(w, ev)
        for name, j, c, ws in tr.files():
            files[name] = ws
        events.append((r, tr))
    t0 = events[-1][1]
    col = t0.pos("collate")
    if not col:
        raise Fail("rank 0 does not collate the files")
    want = []
    for r, tr in sorted(events, key=lambda x: x[0]):
        for name, j, c, ws in tr.files():
            want += [[tm.atom("cell", to_term(e.args[1]), C(j)) for j in range(ncol)] for e in ws if not isinstance(e.args[1], str)]
    if len(want) != nhalos:
        raise Fail("%d rows are written for %d halos" % (len(want), nhalos))
    e = t0.ev[col[0]]
    data = e.args[1]
    same_val("the collated table of %d halos fitted by %d ranks" % (nhalos, size), data, Arr((nhalos, ncol), dict(zip(V.positions((nhalos, ncol)), [c for x in want for c in x]))))


SIZES = (1, 2, 3)
MORE = {"thorough": (4, 5)}  # further communicator sizes


@prop("P34", 9)
def p34(ctx):
    ctx.rule("each fitting script is analysed as the program of every rank of communicators of size 1 to 3, with the loader, the fitter and the line writer summarised; the "
             "rows written by the ranks must tile the rows of the input in order, each from its own halo's fit, under the matching header; every text file must be closed "
             "and a synchronising collective passed before rank 0 reads it; rank 0 must collate the files of all ranks in rank order before any deletion that matches them")
    m, tv, hid = vec("m", H, TT), vec("t", TT), vec("hid", H)

    def tng(size, argv, want):
        def loader(w):
            def load(it, v):
                if [x for x in v.values() if isinstance(x, str)] != ["/IN"]:
                    raise Fail("the data is loaded from %s" % list(v.values()))
                return tv, m

            stub(ctx, w.it, TNG, "load_tng_data", load)

        single(ctx, "tng_diffmah_fitter_script", dict(indir="/IN", outdir="/OUT", **argv), size, "/OUT", loader, m, tv, want=want)

    for s in SIZES + MORE.get(ctx.tier, ()):
        ctx.ob("TNG script, %d ranks" % s, tng, s, {"nstep": "137"}, {"nstep": 137})
    ctx.ob("TNG script, default number of steps", tng, 2, {}, {"nstep": 200})

    def bpl(size):
        def loader(w):
            def load(it, v):
                v = list(v.values())
                if v[0] != "/IN" or it.tolist(v[1]) != [4, 5, 6]:
                    raise Fail("the loader is given %s, required the input directory and subvolumes istart..iend" % (v[:2],))
                return hid, m, tv, sca("lgmin"), sca("lgt0")

            stub(ctx, w.it, BPL, "load_bpl_mah_data", load)
            w.h5 = H5Write()
            w.it.ext["h5py.File"] = w.h5.open

        lim = to_term(ctx.get(BPL, "BPL_T_FIT_MIN"))
        peak = V.as_arr(ctx.spec("io.running_max", m))
        outs, worlds = single(ctx, "bolshoi_planck_fitting_script", dict(indir="/IN", outdir="/OUT", istart="4", iend="6"), size, "/OUT", loader, peak, tv, hid,
                              {"lgm_min": tm.sym("lgmin"), "t_fit_min": lim})
        for r, w in enumerate(worlds):
            if r and w.h5.opened:
                raise Fail("rank %d also writes the file of target histories" % r)
        h = worlds[0].h5
        if h.opened:
            for k, x in (("halo_id", hid), ("mpeak_history", peak), ("bpl_t_table", tv)):
                if k not in h.data:
                    raise Fail("the target histories have no dataset %s" % k)
                same_val("the dataset " + k, h.data[k][0], x)
            for x in h.opened:
                if isinstance(x[0], str) and posixpath.dirname(x[0]) != "/OUT":
                    raise Fail("the target histories are written to %s, not in the output directory" % x[0], "%s:%s" % x[2])
            if any(str(x[0]) in outs for x in h.opened):
                raise Fail("the target histories and the fits are written to the same file")

    for s in SIZES + MORE.get(ctx.tier, ()):
        ctx.ob("Bolshoi-Planck script, %d ranks" % s, bpl, s)

    # more ranks than halos
    m1, h1 = arr("m1", 1, TT), arr("hid1", 1)

    def few_tng(size):
        few_halos(ctx, "tng_diffmah_fitter_script", dict(indir="/IN", outdir="/OUT"), size, 1, lambda w: stub(ctx, w.it, TNG, "load_tng_data", lambda it, v: (tv, m1)))

    def few_bpl(size):
        def loader(w):
            stub(ctx, w.it, BPL, "load_bpl_mah_data", lambda it, v: (h1, m1, tv, sca("lgmin"), sca("lgt0")))
            w.it.ext["h5py.File"] = H5Write().open

        few_halos(ctx, "bolshoi_planck_fitting_script", dict(indir="/IN", outdir="/OUT", istart="4", iend="6"), size, 1, loader, has_id=True)

    def few_gal(size):
        t1, mm = arr("t1", 1, 3), arr("m1", 1, 3)

        def loader(w):
            stub(ctx, w.it, GAL, "get_nhalos_tot", lambda it, v: 1)

            def extract(it, v):
                v = list(v.values())
                a, b = it.pynum(v[1]), it.pynum(v[2])
                if not isinstance(a, int) or not isinstance(b, int):
                    raise Undecided("the rows of a rank are %s to %s" % (sh(to_term(v[1])), sh(to_term(v[2]))))
                n = max(0, min(b, 1) - min(a, 1))
                cut = lambda x: V.Arr((n,) + tuple(x.axes[1:]), {p: y for p, y in x.data.items() if p[0] < n})
                return cut(mm), cut(t1), cut(arr("cen1", 1)), cut(arr("tinf1", 1))

            stub(ctx, w.it, GAL, "extract_galacticus_mah_tables", extract)

        few_halos(ctx, "galacticus_diffmah_fitter_script", dict(indir="/IN", inbn="f.hdf5", outdir="/OUT", outbn="o.h5"), size, 1, loader,
                  reduced=lambda it, op, d: 3.5 if op == "allreduce" else opq(tm.sym("reduced")))

    def few_hacc(script, argv, size, **kw):
        def loader(w):
            n = 1 if w.rank == 0 else 0
            stub(ctx, w.it, HACC, "load_mahs_per_rank", lambda it, v: (tv, m1 if n else V.Arr((0,) + tuple(m1.axes[1:]), {})))

        few_halos(ctx, script, argv, size, 1, loader, **kw)

    def few_hacc_d(size):
        few_hacc("hacc_discovery_sims_diffmah_fitter_script", dict(indir="/IN", sim_name="W0WA", outdir="/OUT", istart="0", iend="1", nchunks="1"), size,
                 existing=["/IN/m000p.coreforest.2.hdf5"])

    for s in (2, 3):
        ctx.ob("TNG script, %d ranks for one halo" % s, few_tng, s)
        ctx.ob("Bolshoi-Planck script, %d ranks for one halo" % s, few_bpl, s)
        ctx.ob("Galacticus script, %d ranks for one halo" % s, few_gal, s)
        ctx.ob("Last Journey script, %d ranks for one halo" % s, few_hacc, "hacc_lastjourney_diffmah_fitter_script",
               dict(indir="/IN", outdir="/OUT", outbase="x", istart="9", iend="10", nchunks="1"), s)
        ctx.ob("Discovery script, %d ranks for one halo" % s, few_hacc_d, s)

    # Galacticus: each halo has its own times
    def gal(size, t_last, dt_min, skip):
        mm = arr("m", H, 3)
        i = ixvars((H, 3))[0]
        tt = Arr((H, 3), {(k,): C(x) for k, x in enumerate((1.0, 2.0, 3.5))})
        spans = []

        def loader(w):
            stub(ctx, w.it, GAL, "get_nhalos_tot", lambda it, v: scalar(H) if isinstance(H, tm.T) else H)

            def extract(it, v):
                v = list(v.values())
                a, b = to_term(v[1]), to_term(v[2])
                spans.append((a, b, v[0]))
                n = V.norm_size(tm.sub(b, a))

                if isinstance(n, int):
                    raise Fail("the script reads %d rows per rank, whatever the number of halos" % n, "%s:%s" % it.loc)

                def cut(x):
                    ax = (n,) + tuple(x.axes[1:])
                    j = ixvars(ax)[0]
                    return Arr(ax, {p: tm.subst(t, {ixvars(x.axes)[0]: tm.add(j, a)}) for p, t in x.data.items()})

                return cut(mm), cut(tt), cut(vec("cen", H)), cut(vec("tinf", H))

            stub(ctx, w.it, GAL, "extract_galacticus_mah_tables", extract)

        def reduced(it, op, d):
            if op != "allreduce":
                return opq(tm.sym("reduced"))
            if builtin_is(d.get("op"), "MAX"):
                x = to_term(d["sendobj"])
                if not (tm.is_c(x) and tm.fval(x) == 3.5):
                    raise Undecided("the last time is computed as %s" % sh(x))
            else:
                raise Fail("the final time is reduced with %s, required the maximum over ranks" % d.get("op"), "%s:%s" % it.loc)
            return t_last

        def other(r, i, n, args):
            t = as_arr(fit_args(args)[0])
            same_val("the times of the fit", t, Arr((4,), {(k,): C(x) for k, x in enumerate((1.0, 2.0, 3.5, t_last))}) if t_last > 3.5 else Arr((3,), {(k,): C(x) for k, x in enumerate((1.0, 2.0, 3.5))}))
            f = args.get("force_skip_fit")
            f = to_term(f)
            if f is not to_term(skip):
                raise Fail("a halo that lived %s Gyr is fitted with force_skip_fit = %s when the limit is %s" % (2.5, sh(f), dt_min))

        rm = lambda k: tm.sym("m[%d]" % k, i)
        run = [rm(0)]
        for k in (1, 2):
            run.append(tm.maximum(run[-1], rm(k)))
        if t_last > 3.5:
            run.append(run[-1])
        want = Arr((H, len(run)), {(k,): x for k, x in enumerate(run)})
        single(ctx, "galacticus_diffmah_fitter_script", dict(indir="/IN", inbn="f.hdf5", outdir="/OUT", outbn="o.h5", dt_fit_min=str(dt_min)), size, "/OUT", loader, want, None,
               reduced=reduced, other=other)
        for a, b, fn in spans:
            if fn != "/IN/f.hdf5":
                raise Fail("the data is read from %s" % fn)

    def gal_t0():
        class Stop(Exception):
            pass

        mm, tt = arr("m", H, 3), arr("t", H, 3)

        def reduced(it, op, d):
            if op != "allreduce":
                return opq(tm.sym("reduced"))
            x, y = to_term(d["sendobj"]), to_term(ctx.spec("io.last_time", tt))
            if x is not tm.maximum(y, C(0)) and x is not tm.maximum(y, tm.NINF):
                must("the final time of a rank", x, y)
            raise Stop()

        w = World(ctx, FS + "galacticus_diffmah_fitter_script", dict(indir="/IN", inbn="f.hdf5", outdir="/OUT", outbn="o.h5"), 0, 1, reduced=reduced)
        fit_stubs(ctx, w)
        stub(ctx, w.it, GAL, "get_nhalos_tot", lambda it, v: scalar(H))
        stub(ctx, w.it, GAL, "extract_galacticus_mah_tables", lambda it, v: (mm, tt, vec("cen", H), vec("tinf", H)))
        try:
            w.main()
        except Stop:
            return
        raise Undecided("the final time is not reduced over ranks")

    ctx.ob("Galacticus script, the final time is the largest last time", gal_t0)
    for s in SIZES + MORE.get(ctx.tier, ()):
        ctx.ob("Galacticus script, %d ranks" % s, gal, s, 5.0, 0.5, False)
    ctx.ob("Galacticus script, halos alive at the end", gal, 2, 3.5, 0.5, False)
    ctx.ob("Galacticus script, short-lived halos are skipped", gal, 2, 3.5, 3.0, True)
    ctx.ob("Galacticus script, halos living exactly the limit are fitted", gal, 1, 5.0, 2.5, False)

    # chunked scripts
    def chunked(script, argv, size, subvols, nchunks, fnpat, sim, nstep, existing=()):
        traces, loads = [], []
        for r in range(size):
            w = World(ctx, FS + script, argv, r, size, existing=existing)
            fit_stubs(ctx, w)
            mine = []

            def load(it, v, mine=mine):
                mine.append(dict(v))
                k = "u%d" % len(mine)
                n = sz("nh_" + k)
                return vec("t_" + k, TT), vec("m_" + k, n, TT)

            stub(ctx, w.it, HACC, "load_mahs_per_rank", load)
            _, ev = w.main()
            traces.append(Trace(w, ev))
            loads.append(mine)
        want = [(fnpat % s, c) for s in subvols for c in range(nchunks)]
        for r, l in enumerate(loads):
            got = []
            for v in l:
                a = list(v.values())
                num = to_term(v["chunknum"])
                if not isinstance(v["fn_data"], str) or not tm.is_c(num):
                    raise Undecided("computed input file or chunk")
                got.append((v["fn_data"], int(tm.fval(num))))
                number("nchunks", v["nchunks"], nchunks)
                if v["sim_name"] != sim:
                    raise Fail("the simulation is %r, required %r" % (v["sim_name"], sim))
                c = v.get("comm")
                if not (c is None or isinstance(c, PyObj) and c.name == "comm" or str(getattr(c, "path", "")).endswith("COMM_WORLD")):
                    raise Undecided("communicator %s" % c)
            if sorted(got) != sorted(want):
                miss, extra = [x for x in want if x not in got], [x for x in got if x not in want or got.count(x) > 1]
                raise Fail("the chunks processed are not those requested: missing %s, wrong or repeated %s" % (miss[:3], extra[:3]))
        units, outs = common(ctx, traces, "/OUT", len(want))
        for k, u in enumerate(units):
            for r, (i, n, args, h, fe) in enumerate(u):
                t, mm = fit_args(args)
                name = "u%d" % (k + 1)
                same_val("the time array of the fits", t, vec("t_" + name, TT))
                if h is not None:
                    raise Fail("the rows have an unknown halo_id %s" % sh(h))
                full = vec("m_" + name, sz("nh_" + name), TT)
                pieces_cover([stack_rows(mm, i, n)], full, V.size_term(full.axes[0]), "rank")
                number("nstep", opt(args, "nstep"), nstep)
        return outs, [x for x in loads[0]]

    lj = dict(indir="/IN", outdir="/OUT", outbase="x")
    for s in SIZES + MORE.get(ctx.tier, ()):
        ctx.ob("Last Journey script, %d ranks" % s, chunked, "hacc_lastjourney_diffmah_fitter_script", dict(lj, istart="9", iend="11", nchunks="3", nstep="77"), s, (9, 10), 3,
               "/IN/m000p.coreforest.%d.hdf5", "LastJourney", 77)
        ctx.ob("Discovery script, %d ranks" % s, chunked, "hacc_discovery_sims_diffmah_fitter_script", dict(indir="/IN", sim_name="W0WA", outdir="/OUT", istart="1", iend="3", nchunks="3", nstep="77"), s,
               (2, 10), 3, "/IN/m000p.coreforest.%d.hdf5", "DiscoveryW0WA", 77, ["/IN/m000p.coreforest.%d.hdf5" % k for k in (10, 0, 2, 11)])
    ctx.ob("Last Journey script, subvolumes 0 to the end by default", chunked, "hacc_lastjourney_diffmah_fitter_script", dict(lj, num_subvols_tot="3", nchunks="11"), 1, (0, 1, 2), 11,
           "/IN/m000p.coreforest.%d.hdf5", "LastJourney", 200)

    def default_subvols():
        n = ctx.get(FS + "hacc_lastjourney_diffmah_fitter_script", "NUM_SUBVOLS_LASTJOURNEY")
        outs, loads = chunked("hacc_lastjourney_diffmah_fitter_script", dict(lj, nchunks="1"), 1, tuple(range(256)), 1, "/IN/m000p.coreforest.%d.hdf5", "LastJourney", 200)

    ctx.ob("Last Journey script, all 256 subvolumes by default", default_subvols)

    # from the chunks of the Last Journey script to one file per subvolume
    def unchunk():
        outs, _ = chunked("hacc_lastjourney_diffmah_fitter_script", dict(lj, istart="9", iend="11"), 1, (9, 10), 20, "/IN/m000p.coreforest.%d.hdf5", "LastJourney", 200)
        w = World(ctx, FS + "unchunk_last_journey_script", dict(istart="9", iend="11", indir="/OUT", outdir="/U"))
        it = w.it
        cols = ("logm0", "t_peak", "fit_algo")
        got, files = [], {}

        def load(it, a, k):
            fn = a[0] if a else k.get("fn")
            if not isinstance(fn, str) or len(a) > 1 or (k and set(k) != {"fn"}):
                raise Undecided("computed chunk file name or options")
            it.event("io", "load", (fn,))
            got.append(fn)
            return {c: vec(fn + ":" + c, sz("n:" + fn)) for c in cols}

        it.ext["diffsky.data_loaders.load_flat_hdf5"] = load
        f = ctx.get(IO, "load_flat_hdf5")
        it.hooks[f.module.name + "." + f.name] = lambda it, v: load(it, [v["fn"]], {})

        def h5(it, a, k):
            x = files.setdefault(a[0] if isinstance(a[0], str) else "?", H5Write())
            it.event("io", "h5", (a[0],))
            return x.open(it, a, k)

        it.ext["h5py.File"] = h5
        _, ev = w.main()
        ev = [e for e in ev if e.kind == "io"]
        if sorted(got) != sorted(outs):
            raise Fail("the chunks read are not those the fitting script writes: unread %s, unknown %s" % ([x for x in outs if x not in got][:2], [x for x in got if x not in outs][:2]))
        if len(files) != 2:
            raise Fail("%d files are written for 2 subvolumes" % len(files))
        for s in (9, 10):
            mine = ["/OUT/subvol_%d_chunk_%02d.hdf5" % (s, c) for c in range(20)]
            if not set(mine) <= set(outs):
                raise Undecided("names of the chunks")
            for fn, h in files.items():
                if sorted(h.data) != sorted(cols):
                    raise Fail("the datasets written to %s are %s, required %s" % (fn, sorted(h.data), sorted(cols)))

            from ..lib import np_concat

            res = {}
            for fn, h in files.items():
                bad = None
                for c in cols:
                    want = np_concat(it, [[vec(x + ":" + c, sz("n:" + x)) for x in mine]], {})
                    v, loc, path = h.data[c]
                    ds = list(diff(v, want))
                    if ds:
                        bad = (c, ds[0], loc)
                        break
                res[fn] = bad
            if not any(b is None for b in res.values()):
                near = [b for fn, b in res.items() if str(s) in fn] or list(res.values())
                c, d, loc = near[0]
                if d[4]:
                    raise Undecided("dataset %s passes through %s" % (c, d[4]))
                raise Fail("dataset %s of subvolume %d is not the concatenation of its chunks 0, 1, 2, ... in order" % (c, s), "%s:%s" % loc)
            out = [fn for fn, b in res.items() if b is None][0]
            # deletions come after the data is safe
            wr = [j for j, e in enumerate(ev) if e.what == "h5" and e.args[0] == out][-1]
            for j, e in enumerate(ev):
                for p in deletes(e) or ():
                    if j < wr and any(fnmatch.fnmatchcase(x, p) for x in mine):
                        raise Fail("a chunk of subvolume %d is deleted before the collated file is written" % s, locs(e))
        for e in ev:
            for p in deletes(e) or ():
                if any(fnmatch.fnmatchcase(x, p) for x in files):
                    raise Fail("the collated file is deleted", locs(e))
                if not any(fnmatch.fnmatchcase(x, p) for x in got):
                    raise Fail("the script deletes %s, which it did not read" % p, locs(e))

    ctx.ob("unchunk script concatenates exactly the chunks of each subvolume, in order", unchunk)


def builtin_is(v, name):
    p = getattr(v, "path", None)
    return isinstance(p, str) and p.split(".")[-1] == name
