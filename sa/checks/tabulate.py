"""P36-P37: tabulation of the SMDPL targets and their loader."""
import posixpath

from .scripts import *  # noqa
from .scripts import stub, must, same_val, locs, World, deletes
from ..core import prop, Ctx, Fail, Undecided, diff
from ..objs import H5Read, H5Write
from ..values import NT, NTCls, Arr, PyObj, SymList, scalar, as_arr, ixvars, to_term, opq
from .. import terms as tm, values as V
import fnmatch

SM = "scripts.diffmahpop_tabulation.smdpl_diffmahpop_utils"
FIELDS = ("logm0", "logtc", "early_index", "late_index", "t_peak")
NS = sz("snaps")
T0S = 13.7976158


def table():
    return {k: vec("c_" + k, H) for k in FIELDS + ("loss",)}


def mock(w, seen, upid):
    """the SFH catalogue reader"""

    def load(it, a, k):
        seen.append((a, k))
        props = a[2] if len(a) > 2 else k.get("galprops")
        cols = dict(upid_history=upid, halo_id=vec("hid", H))
        if not isinstance(props, list):
            raise Undecided("computed list of catalogue columns")
        return PyObj("catalogue", getitem=lambda it, x: cols[x] if x in props and x in cols else prog_missing(x))

    w.it.ext["umachine_pyio.load_mock.load_mock_from_binaries"] = load


def prog_missing(x):
    raise Fail("the column %s is used but was not loaded" % x)


def select(ctx, v, msk):
    it = ctx.interp()
    return it.getitem(v, msk)


def grid(ctx, t0, nt, nm):
    it = ctx.interp()
    ts = it.tolist(ctx.call(SM, "get_t_obs_table", t0, nt))
    return [(t, it.tolist(ctx.call(SM, "lgmarr_table_from_t_obs_kern", t, n_m=nm))) for t in ts]


def clean_params(ctx, cls):
    """parameters of the halos that were fitted"""
    d = table()
    lam = V.as_arr(d["loss"])
    msk = Arr(lam.axes, {k: tm.not_(tm.lt(x, tm.ZERO)) for k, x in lam.data.items()})
    return NT(cls, [select(ctx, d[f], msk) for f in cls.fields]), msk


def opened(w, tree):
    rd = H5Read(tree)
    w.it.ext["h5py.File"] = rd.open
    return rd


def same(name, got, want):
    ds = list(diff(got, want))
    hard = [d for d in ds if not d[4] - {"nth", "count", "argmin"}]
    if hard:
        p, g, w, case, _ = hard[0]
        raise Fail("%s%s is %s, required %s%s" % (name, p, sh(g), sh(w), "" if case is None else " (when %s)" % case))
    if ds:
        raise Undecided("%s%s passes through %s" % (name, ds[0][0], ", ".join(sorted(ds[0][4]))))


def shuffled(xs):
    """a directory listing comes in no particular order"""
    xs = sorted(xs)
    return xs[3:] + xs[:3]


@prop("P36", 9)
def p36(ctx):
    ctx.rule("the SMDPL tabulation is analysed on a symbolic halo table: the fitted halos kept, the rows of every (mass, time) bin, the split into centrals and satellites, the columns and "
             "names of the text files, their collation and deletion, and the means and scatters are compared, element by element, with reference definitions")
    P = ctx.get(DK, "DiffmahParams")
    upid = arr("upid", H, NS)

    def load():
        w = World(ctx, SM, {})
        rd, seen = opened(w, table()), []
        mock(w, seen, upid)
        r = ctx.run(w.it, ctx.get(SM, "load_diffmah_subvolume"), 7, n_subvol_tot=576, diffmah_drn="/FITS", sfhcat_drn="/CAT")
        want, msk = clean_params(ctx, P)
        if not isinstance(r, (tuple, list)) or len(r) != 4:
            raise Undecided("load_diffmah_subvolume returns %s" % type(r).__name__)
        same("the parameters of the halos kept", r[1], want)
        same("t_peak of the halos kept", r[2], want.get("t_peak"))
        same("the host history of the halos kept", r[3], select(ctx, upid, msk))
        fn = [x[0] for x in rd.opened]
        if fn != ["/FITS/subvol_007_diffmah_fits.h5"]:
            raise Fail("subvolume 7 of 576 is read from %s, required /FITS/subvol_007_diffmah_fits.h5" % fn)
        if len(seen) != 1 or list(seen[0][0][:2]) != [[7], "/CAT"]:
            raise Fail("the catalogue is read with %s, required subvolume 7 of /CAT" % (seen,))

    ctx.ob("a subvolume's fitted halos are kept, with their own parameters and hosts", load)

    def target():
        lm = arr("lm", H, 2)
        p, tp, up = nt(P, "p_", H), vec("tp", H), vec("up", H)
        r = ctx.call(SM, "get_target_mah_params", lm, sca("lgm"), p, tp, up, lgm_obs_bin_width=sca("width"))
        last = V.take(lm, 1, 1)
        d = tm.sub(last.data[()], tm.sym("lgm"))
        msk = Arr(last.axes, {(): tm.lt(tm.absv(d), tm.sym("width"))})
        same("the parameters of the bin", r[0], NT(P, [select(ctx, x, msk) for x in p.vals]))
        same("t_peak of the bin", r[1], select(ctx, tp, msk))
        same("the hosts of the bin", r[2], select(ctx, up, msk))

    ctx.ob("a bin holds exactly the halos within its width, row by row", target)

    def gen():
        w = World(ctx, SM, {})
        p, tp = nt(P, "p_", H), field(nt(P, "p_", H), "t_peak")
        args = []

        def ld(it, v):
            args.append(list(v.values()))
            return (PyObj("data"), p, tp, upid)

        stub(ctx, w.it, SM, "load_diffmah_subvolume", ld)
        tt = vec("t", NS)
        files = []
        w.it.ext["numpy.loadtxt"] = lambda it, a, k: (files.append(a[0]), tt)[1]
        r = ctx.run(w.it, ctx.get(SM, "generate_diffmahpop_targets_for_subvol"), 7, n_subvol_tot=500, diffmah_drn="/FITS", sfhcat_drn="/CAT", n_m=2, n_t=2)
        if args != [[7, 500, "/FITS", "/CAT"]]:
            raise Fail("load_diffmah_subvolume is called with %s, required %s" % (args, [7, 500, "/FITS", "/CAT"]))
        if files != ["/CAT/smdpl_cosmic_time.txt"]:
            raise Fail("the snapshot times are read from %s" % files)
        t0 = scalar(tm.sym("t", tm.sub(NS, tm.ONE)))
        items = [(x.cond, x.value) for x in r.items] if hasattr(r, "items") else [(tm.TRUE, x) for x in r]
        g = [(t, m) for t, ms in grid(ctx, t0, 2, 2) for m in ms]
        if len(items) != len(g):
            raise Fail("%d bins are produced for a grid of %d" % (len(items), len(g)))
        width = ctx.default(SM, "get_target_mah_params", "lgm_obs_bin_width")
        for (c, v), (t, m) in zip(items, g):
            msk = V.as_arr(ctx.spec("smdpl.in_bin", p, t, t0, m, width))
            want = [select(ctx, x, msk) for x in p.vals]
            n = V.size_term(want[0].axes[0])
            k = ctx.spec("smdpl.nearest", t, tt)
            up = select(ctx, ctx.interp().getitem(upid, (V.SliceV(None, None, None), k)), msk)
            same("lgm_obs of the bin", v[0], m)
            same("t_obs of the bin", v[1], t)
            same("the parameters of the bin", v[2], NT(P, want))
            same("t_peak of the bin", v[3], want[P.fields.index("t_peak")])
            same("the hosts of the bin at t_obs", v[4], up)
            must("the condition to produce a bin", ind(c), ind(tm.lt(tm.ZERO, n)))

    ctx.ob("every non-empty (mass, time) bin is produced, with masses and hosts at its time", gen)

    def gridob():
        nt_, t0 = 3, sca("t0")
        ts = V.as_arr(ctx.call(SM, "get_t_obs_table", t0, nt_))
        lo = to_term(ctx.get(SM, "T_OBS_TARGET_MIN"))
        for j in range(3):
            must("time %d of 3" % j, V.take(ts, 0, j).data[()], tm.add(lo, tm.scale(tm.Fr(j, 2), tm.sub(tm.sym("t0"), lo))))
        ts = V.as_arr(ctx.call(SM, "get_t_table_for_t_obs", t0, nt_))
        lo = to_term(ctx.get(SM, "T_TABLE_MIN"))
        for j in range(3):
            must("history time %d of 3" % j, V.take(ts, 0, j).data[()], tm.add(lo, tm.scale(tm.Fr(j, 2), tm.sub(tm.sym("t0"), lo))))

    ctx.ob("time grids are even, end at the requested time and have the requested size", gridob)

    state = {}

    def loop():
        w = World(ctx, SM, {})
        calls = []

        def bins(it, v):
            d = dict(v)
            calls.append(d)
            s = list(d.values())[0]
            out = []
            for t, ms in grid(ctx, scalar(C(T0S)), 2, 2):
                for m in ms:
                    q = "s%s_%s_%s" % (s, V.as_arr(t).data[()].id, V.as_arr(m).data[()].id)
                    out.append((m, t, nt(P, q + "_", H), vec(q + "_t_peak", H), vec(q + "_upid", H)))
            state.setdefault("bins", {})[s] = out
            return out

        stub(ctx, w.it, SM, "generate_diffmahpop_targets_for_subvol", bins)
        col = []
        stub(ctx, w.it, SM, "collate_subvolume_samples", lambda it, v: (col.append(list(v.values())), it.event("io", "collate", ()))[0])
        w.it.ext["numpy.savetxt"] = lambda it, a, k: w.log(it, "savetxt", a, k)
        ctx.run(w.it, ctx.get(SM, "smdpl_diffmahpop_subvolume_loop"), "/OUT", diffmah_drn="/FITS", sfhcat_drn="/CAT", istart=3, iend=5, n_m=2, n_t=2)
        got = [list(d.values())[0] for d in calls]
        if got != [3, 4]:
            raise Fail("the subvolumes %s are processed for istart=3, iend=5" % got)
        for d in calls:
            for k, x in (("diffmah_drn", "/FITS"), ("sfhcat_drn", "/CAT"), ("n_m", 2), ("n_t", 2)):
                if k in d and d[k] != x:
                    raise Fail("the option %s = %s is passed as %s" % (k, x, d[k]))
        ev = [e for e in w.it.events if e.kind == "io"]
        if len(col) != 1 or ev[-1].what != "collate" or ev[-1].path:
            raise Fail("the samples are not collated once, after all subvolumes")
        c = col[0]
        if c[0] != "/OUT" or c[2:] != [2, 2, 3, 5]:
            raise Fail("the collation is called with %s, required /OUT, t0, 2, 2, 3, 5" % (c,))
        must("t0 of the collation", to_term(c[1]), C(T0S))
        hdrs = set()
        files = {}
        for e in ev[:-1]:
            if e.what != "savetxt":
                continue
            a, k = e.args
            if not isinstance(a[0], str):
                raise Undecided("computed name of a sample file")
            if a[0] in files:
                raise Fail("the file %s is written twice" % a[0], locs(e))
            files[a[0]] = (e, a, k)
        cap = ctx.get(SM, "N_HALOS_PER_SUBVOL")
        n = 0
        for s in (3, 4):
            for m, t, p, tp, up in state["bins"][s]:
                for cs in ("cens", "sats"):
                    n += 1
                    fn = "/OUT/subvol_%d_lgm_%.2f_t_%.2f_mah_params.%s.txt" % (s, tm.fval(to_term(m)), tm.fval(to_term(t)), cs)
                    if fn not in files:
                        raise Fail("no file %s is written; files: %s" % (fn, sorted(files)[:4]))
                    e, a, k = files[fn]
                    u = V.as_arr(up)
                    msk = Arr(u.axes, {q: (tm.eq(x, C(-1)) if cs == "cens" else tm.not_(tm.eq(x, C(-1)))) for q, x in u.data.items()})
                    cols = [select(ctx, x, msk) for x in p.vals]
                    cnt = V.size_term(cols[0].axes[0])
                    must("the condition to write the %s of a bin" % cs, ind(tm.and_(*e.path)), ind(tm.lt(tm.ZERO, cnt)))
                    fmt = k.get("fmt", a[2] if len(a) > 2 else "%.18e")
                    if not isinstance(fmt, str):
                        raise Undecided("computed number format")
                    q = None
                    try:
                        q = float(fmt % 12.34567)
                    except (TypeError, ValueError):
                        pass
                    if q is None or abs(q - 12.34567) > 5e-3:
                        raise Fail("the values are written with the format %r, which loses their digits" % fmt, locs(e)) if q is not None else Undecided("number format %r" % fmt)
                    h = k.get("header", "")
                    if not isinstance(h, str):
                        raise Undecided("computed header")
                    names = h.split()
                    it = ctx.interp()
                    data = V.as_arr(a[1])
                    if data.axes is None or not isinstance(data.axes[1], int):
                        raise Undecided("the table written is %s" % sh(to_term(a[1])))
                    if len(names) != data.axes[1]:
                        raise Fail("%d columns are written under the header %r" % (data.axes[1], h), locs(e))
                    for j, nm in enumerate(names):
                        if nm not in P.fields:
                            raise Fail("unknown column %s" % nm, locs(e))
                        src = [tp] if j >= len(P.fields) else [p.get(nm)]
                        g = V.take(data, 1, j)
                        want = it.getitem(select(ctx, src[0], msk), V.SliceV(None, cap, None))
                        same("the column %s of the %s" % (nm, cs), g, want)
                    if tuple(names[: len(P.fields)]) != P.fields:
                        raise Fail("the columns are %s, read back as %s" % (names, P.fields), locs(e))
        if len(files) != n:
            raise Fail("%d sample files are written, required %d" % (len(files), n))
        state["files"] = sorted(files)
        state["ncol"] = len(names)

    ctx.ob("every bin's centrals and satellites are written to their own file under matching columns", loop)

    def collate(a=3, b=4, lo=3, hi=5):
        if "files" not in state:
            raise Undecided("the sample files are unknown")
        state["src"] = {}
        # one bin has no file, and an earlier collation's output lies next to them
        ex = [f for f in state["files"] if not ("subvol_4_" in f and f.endswith("sats.txt"))]
        ex = shuffled([f.replace("subvol_3_", "subvol_%d_" % a).replace("subvol_4_", "subvol_%d_" % b) for f in ex])
        w = World(ctx, SM, {}, existing=ex)
        w.it.ext["numpy.save"] = lambda it, a, k: w.log(it, "save", a[0], a[1])
        nc = state["ncol"]

        def readtxt(it, a, k):
            if not isinstance(a[0], str) or a[0] not in ex:
                raise Fail("the file %s does not exist" % (a[0],))
            w.log(it, "read", a[0])
            return opq(tm.atom("filetext", to_term(a[0])))

        w.it.ext["numpy.loadtxt"] = readtxt
        ctx.run(w.it, ctx.get(SM, "collate_subvolume_samples"), "/OUT", scalar(C(T0S)), 2, 2, lo, hi)
        ev = [e for e in w.it.events if e.kind == "io"]
        mk = [e for e in ev if e.what == "mkdir"]
        out = {}
        for j, e in enumerate(ev):
            if e.what == "save":
                if not isinstance(e.args[0], str):
                    raise Undecided("computed name of a collated file")
                if e.args[0] in out:
                    raise Fail("%s is written twice" % e.args[0], locs(e))
                out[e.args[0]] = (j, V.as_arr(e.args[1]), e)
        d = {posixpath.dirname(x) for x in out}
        if len(d) != 1 or not mk or mk[0].args[0] not in d:
            raise Fail("the collated files are written to %s, the directory created is %s" % (sorted(d), [e.args[0] for e in mk]))
        d = d.pop()
        for f in ex:
            bn = posixpath.basename(f).split("_", 2)[2][: -len(".txt")]
            g = posixpath.join(d, bn)
            o = out.get(g) or out.get(g + ".npy")
            if o is None:
                raise Fail("the samples of %s are collated in no file %s" % (f, g))
            state.setdefault("src", {}).setdefault(g, (set(), o))[0].add(f)
        for g, (fs, (j, a, e)) in state["src"].items():
            src = [p.args[0] for p in pieces(to_term(a), nc)]
            if sorted(src) != sorted(fs):
                raise Fail("%s contains the samples of %s, required %s" % (g, sorted(src), sorted(fs)), locs(e))
        if len(out) != len(state["src"]):
            raise Fail("the files %s belong to no bin" % sorted(set(out) - set(state["src"])))
        gone = set()
        for j, e in enumerate(ev):
            for pat in deletes(e) or ():
                hit = [f for f in ex if fnmatch.fnmatchcase(f, pat)]
                gone |= set(hit)
                if hit and j < max(o[0] for g, (fs, o) in state["src"].items() if fs & set(hit)):
                    raise Fail("%s is deleted before it is collated" % hit[0], locs(e))
                for g in out:
                    if fnmatch.fnmatchcase(g + ".npy", pat) or fnmatch.fnmatchcase(g, pat):
                        raise Fail("the pattern %s deletes the collated file %s" % (pat, g), locs(e))
                    if d.startswith(pat.rstrip("*")) and fnmatch.fnmatchcase(d, pat):
                        raise Fail("the pattern %s deletes the output directory" % pat, locs(e))
        left = [f for f in ex if f not in gone]
        if left:
            raise Fail("%s is left behind: the next tabulation in the same directory would collate it again" % left[0])
        state["names"] = sorted(out)

    ctx.ob("collation concatenates every bin's samples of all subvolumes before deleting them", collate)
    ctx.ob("collation of subvolumes 0 and 12", collate, 0, 12, 0, 13)

    def means(rescale):
        if "names" not in state:
            raise Undecided("the collated files are unknown")
        ex = shuffled([n if n.endswith(".npy") else n + ".npy" for n in state["names"]])
        w = World(ctx, SM, {}, existing=ex)
        nc = state["ncol"]
        N = {f: 3 + (j % 3 != 1) for j, f in enumerate(ex)}  # some bins have too few halos

        def load(it, a, k):
            if a[0] not in ex:
                raise Fail("the file %s does not exist" % (a[0],))
            n = N[a[0]]
            return Arr((n, nc), {(i, j): tm.sym(a[0], C(j), C(i)) for i in range(n) for j in range(nc)})

        w.it.ext["numpy.load"] = load
        r = ctx.run(w.it, ctx.get(SM, "tabulate_target_means_vars"), posixpath.dirname(ex[0]), nh_min=3, n_t_target=2, rescale=rescale)
        return w, r, [f for f in ex if N[f] > 3], nc

    def tab(rescale):
        w, r, ex, nc = means(rescale)
        if not isinstance(r, (tuple, list)) or len(r) != 2:
            raise Undecided("tabulate_target_means_vars returns %s" % type(r).__name__)
        for d, cs in zip(r, ("cens", "sats")):
            fs = [f for f in ex if f.endswith(cs + ".npy")]
            for k in ("lgm_obs", "t_obs", "mean_log_mah", "std_log_mah", "frac_peaked", "t_table"):
                if k not in d:
                    raise Fail("the targets of %s have no column %s" % (cs, k))
                a = V.as_arr(d[k])
                if a.axes is None:
                    raise Undecided("the column %s is %s" % (k, sh(to_term(d[k]))))
                if a.axes[0] != len(fs):
                    raise Fail("the column %s has %s rows for %d files" % (k, a.axes[0], len(fs)))
            todo = {tuple(float(posixpath.basename(f).split("_")[q]) for q in (1, 3)): f for f in fs}
            for j in range(len(fs)):
                # the order of the rows is that of the directory listing
                row = {k: V.take(V.as_arr(d[k]), 0, j) for k in d}
                key = [T0(row[k]) for k in ("lgm_obs", "t_obs")]
                if not all(tm.is_c(x) for x in key):
                    raise Undecided("row %d is of the bin %s" % (j, [sh(x) for x in key]))
                key = tuple(float(tm.fval(x)) for x in key)
                near = [k for k in todo if abs(k[0] - key[0]) + abs(k[1] - key[1]) < 1e-9]
                if not near:
                    raise Fail("row %d of the %s is of the bin lgm_obs=%s, t_obs=%s: repeated, or none of the sampled bins" % (j, cs, key[0], key[1]))
                f = todo.pop(near[0])
                lgm, tob = near[0]
                tt = V.as_arr(ctx.call(SM, "get_t_table_for_t_obs", scalar(C(tob)), 2))
                same("t_table of %s" % f, row["t_table"], tt)
                p = NT(P, [Arr((4,), {(i,): tm.sym(f, C(q), C(i)) for i in range(4)}) for q in range(5)])
                hist = [V.as_arr(ctx.spec("kernel.logm", p, V.take(tt, 0, q), ctx.spec("tabulate.lgt0", T0S))) for q in range(2)]
                if rescale:
                    last = hist[-1]
                    hist = [Arr(h.axes, {x: tm.add(tm.sub(y, last.data[x]), C(lgm)) for x, y in h.data.items()}) for h in hist]
                for q in range(2):
                    for k, fn in (("mean_log_mah", "mean"), ("std_log_mah", "std")):
                        want = T0(ctx.spec("tabulate." + fn, hist[q]))
                        must("%s of %s" % (k, f), V.take(row[k], 0, q).data[()], want)
                    must("frac_peaked of %s" % f, V.take(row["frac_peaked"], 0, q).data[()], T0(ctx.spec("tabulate.frac_peaked", p.get("t_peak"), V.take(tt, 0, q))))

    ctx.ob("target means, scatters and peaked fractions are those of each bin's halos (rescaled)", tab, True)
    ctx.ob("target means, scatters and peaked fractions are those of each bin's halos (as is)", tab, False)

    def write():
        w = World(ctx, SM, {})
        cen, sat = {"a": vec("ca", H), "b": vec("cb", H)}, {"a": vec("sa", H), "c": vec("sc", H)}
        drn = []
        stub(ctx, w.it, SM, "tabulate_target_means_vars", lambda it, v: (drn.append(list(v.values())[0]), (cen, sat))[1])
        hs = {}

        def op(it, a, k):
            h = hs[a[0]] = H5Write()
            return h.open(it, a, k)

        w.it.ext["h5py.File"] = op
        ctx.run(w.it, ctx.get(SM, "write_mean_variance_to_disk"), "/IN", "/OUT/cens.h5", "/OUT/sats.h5")
        if drn != ["/IN"]:
            raise Fail("the targets are tabulated from %s" % drn)
        for fn, want in (("/OUT/cens.h5", cen), ("/OUT/sats.h5", sat)):
            if fn not in hs:
                raise Fail("the file %s is not written" % fn)
            got = hs[fn].data
            if set(got) != set(want):
                raise Fail("%s has the columns %s, required %s" % (fn, sorted(got), sorted(want)))
            for k in want:
                if got[k][2]:
                    raise Undecided("conditional column")
                same("the column %s of %s" % (k, fn), got[k][0], want[k])

    ctx.ob("the targets of centrals and satellites are written to their own files", write)

    def main(argv, want):
        w = World(ctx, "scripts.diffmahpop_tabulation.measure_smdpl_diffmahpop", argv)
        calls = []
        stub(ctx, w.it, SM, "smdpl_diffmahpop_subvolume_loop", lambda it, v: calls.append(dict(v)))
        w.main()
        if len(calls) != 1:
            raise Fail("the tabulation is called %d times" % len(calls))
        for k, x in want.items():
            g = list(calls[0].values())[0] if k == "outdrn" else calls[0].get(k, NotImplemented)
            if g is NotImplemented:
                raise Undecided("the tabulation has no argument %s" % k)
            if g != x or isinstance(x, int) and isinstance(g, float):
                raise Fail("the option %s = %r reaches the tabulation as %r" % (k, x, g))

    ctx.ob("the script passes every option to the tabulation", main, dict(outdrn="/O", istart="3", iend="9", diffmah_drn="/F", sfhcat_drn="/C", n_m="5", n_t="7"),
           dict(outdrn="/O", istart=3, iend=9, diffmah_drn="/F", sfhcat_drn="/C", n_m=5, n_t=7))
    ctx.ob("the script's defaults process every subvolume", main, dict(outdrn="/O"), dict(outdrn="/O", istart=0, iend=576))


def pieces(t, nc):
    """the text files whose rows a table of nc columns consists of"""
    if t.op == "fn" and t.args[0] == "call:reshape" or (t.op == "fn" and t.args[0] in ("reshape", "method.reshape")):
        sh_ = [x for x in t.args[2:]]
        for x in sh_:
            if x.op in ("tuple", "list") and len(x.args) == 2 and tm.is_c(x.args[1]) and tm.fval(x.args[1]) != nc:
                raise Fail("tables of %d columns are reshaped to %s" % (nc, sh(x)))
        return pieces(t.args[1], nc)
    return [q for q in parts2(t, nc)]


def parts2(t, nc):
    if t.op == "fn" and t.args[0] == "filetext":
        return [t.args[1]]
    if t.op == "fn" and t.args[0] in ("concat", "vconcat"):
        if len(t.args) > 2 and not (tm.is_c(t.args[2]) and tm.fval(t.args[2]) == 0):
            raise Fail("the samples are concatenated along axis %s" % sh(t.args[2]))
        x = t.args[1]
        if x.op in ("tuple", "list"):
            return [q for y in x.args for q in pieces(y, nc)]
    raise Undecided("the collated table is %s" % sh(t))


# ------------------------------------------------------------------------ P37
FD = "diffmah.diffmahpop_kernels.load_diffmahpop_fitdata"


class Columns:
    """a table of named columns"""

    def __init__(self, it, cols):
        self.cols = {k: V.as_arr(v) for k, v in cols.items()}
        n = {a.axes[0] for a in self.cols.values()}
        if len(n) != 1:
            raise Fail("the columns of a table have lengths %s" % sorted(map(str, n)))
        self.n = n.pop()
        self.obj = PyObj("table", getitem=self.getitem, setitem=self.setitem, iter=None, contains=lambda it, k: k in self.cols,
                         methods={"__len__": lambda it, a, k: self.n, "keys": lambda it, a, k: list(self.cols)}, attrs={"colnames": lambda it: list(self.cols)})
        self.obj.columns = self

    def getitem(self, it, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise V.ProgError("the table has no column %s" % k, it.loc)
            return self.cols[k]
        return Columns(it, {c: it.getitem(a, k) for c, a in self.cols.items()}).obj

    def setitem(self, it, k, v):
        if not isinstance(k, str):
            raise Undecided("a row of a table is assigned")
        a = V.as_arr(v)
        if a.axes is None:
            raise Undecided("the column %s is %s" % (k, sh(a.t)))
        if not a.axes:
            a = Arr((self.n,), {(i,): a.data[()] for i in range(self.n)})
        if a.axes[0] != self.n:
            raise V.ProgError("a column of length %s is added to a table of length %s" % (a.axes[0], self.n), it.loc)
        self.cols[k] = Arr(a.axes, dict(a.data))


def const(xs):
    return Arr((len(xs),), {(i,): C(x) for i, x in enumerate(xs)})


@prop("P37", 4)
def p37(ctx):
    ctx.rule("the target loader is analysed on tables of a few bins with symbolic histories and symbolic samples: the bins kept, the sampled parameters of every bin and the histories "
             "computed from them must equal the reference definitions, for centrals and satellites")
    nT, NSAMP = 2, 2
    lg = dict(cens=[11.0, 12.5, 14.75, 13.0, 12.0], sats=[11.5, 12.25, 13.75, 13.25, 12.0])
    to = dict(cens=[2.0, 3.0, 5.0, 6.0, 9.0], sats=[3.25, 2.25, 5.5, 6.5, 8.0])
    nrow = dict(cens=[3, 3, 3, 1, 2], sats=[2, 3, 3, 4, 1])
    keep = {cs: [j for j in range(5) if to[cs][j] > 2.5 and lg[cs][j] < (14.5 if cs == "cens" else 13.5) and nrow[cs][j] >= NSAMP] for cs in lg}

    def src(cs):
        lab = "mean_" + cs
        d = dict(lgm_obs=const(lg[cs]), t_obs=const(to[cs]))
        for k in ("mean_log_mah", "std_log_mah", "frac_peaked", "t_table"):
            d[k] = Arr((5, nT), {(i, j): tm.sym("%s_%s" % (k, cs), C(i), C(j)) for i in range(5) for j in range(nT)})
        return d

    def name(cs, j):
        return "/DRN/lgm_%.2f_t_%.2f_mah_params.%s.npy" % (lg[cs][j], to[cs][j], cs)

    def run(**limits):
        w = World(ctx, FD, {})
        it = w.it
        opened_ = []

        def h5(it, a, k):
            opened_.append(a[0])
            cs = {"/DRN/mean_var_cens.h5": "cens", "/DRN/mean_var_sats.h5": "sats"}.get(a[0])
            if cs is None:
                raise Undecided("the file %s is read" % (a[0],))
            return H5Read(src(cs)).open(it, a, k)

        it.ext["h5py.File"] = h5
        it.ext["astropy.table.Table"] = lambda it, a, k: Columns(it, a[0]).obj

        def load(it, a, k):
            for cs in lg:
                for j in range(5):
                    if a[0] == name(cs, j):
                        return Arr((nrow[cs][j], 5), {(i, c): tm.sym("s_%s" % cs, C(j), C(i), C(c)) for i in range(nrow[cs][j]) for c in range(5)})
            raise Fail("the samples are read from %s, which no bin is written to" % (a[0],), "%s:%s" % it.loc)

        it.ext["numpy.load"] = load

        def choice(it, a, k):
            d = dict(zip(("a", "size", "replace"), a))
            d.update(k)
            if d.get("replace", True) is not False:
                raise Fail("samples are drawn with replacement", "%s:%s" % it.loc)
            n = d["a"] if isinstance(d["a"], int) else None
            if n is None:
                x = V.as_arr(d["a"])
                n = len(x.data)
                for i in range(n):
                    must("the population that is sampled", x.data[(i,)], C(i))
            if d.get("size") != NSAMP:
                raise Fail("%s samples are drawn, required %d" % (d.get("size"), NSAMP), "%s:%s" % it.loc)
            return const([n - 1, 0])

        it.ext["numpy.random.choice"] = choice
        r = ctx.run(it, ctx.get(FD, "load_diffmahpop_targets"), "/DRN", n_sample_min=NSAMP, **limits)
        if not isinstance(r, (tuple, list)) or len(r) != 2 or not all(hasattr(x, "columns") for x in r):
            raise Undecided("load_diffmahpop_targets returns no pair of tables")
        return dict(zip(("cens", "sats"), [x.columns for x in r]))

    r = ctx.ob("load_diffmahpop_targets is analysable", run)
    # other limits, each of its own population
    for lim in (dict(cens=(3.5, 12.9), sats=(2.0, 14.0)), dict(cens=(1.0, 15.0), sats=(6.0, 13.5)), dict(cens=(3.0, 14.75), sats=(2.25, 13.25)), dict(cens=(2.0, 13.0), sats=(5.5, 13.75))):
        def cut(lim=lim):
            t = run(t_obs_min_cen=lim["cens"][0], t_obs_min_sat=lim["sats"][0], lgm_obs_max_cen=lim["cens"][1], lgm_obs_max_sat=lim["sats"][1])
            for cs in lg:
                want = [C(lg[cs][j]) for j in range(5) if to[cs][j] > lim[cs][0] and lg[cs][j] < lim[cs][1] and nrow[cs][j] >= NSAMP]
                got = list(t[cs].cols["lgm_obs"].data.values())
                if got != want:
                    raise Fail("with limits %s the bins lgm_obs = %s of %s are kept, required %s" % (lim, [sh(x) for x in got], cs, [sh(x) for x in want]))

        ctx.ob("the limits %s apply each to its own population" % lim, cut)
    if r is None:
        return

    def col(cs, k):
        if k not in r[cs].cols:
            raise Fail("the targets of %s have no column %s" % (cs, k))
        return r[cs].cols[k]

    def rows(cs):
        got = [x for x in col(cs, "lgm_obs").data.values()]
        want = [C(lg[cs][j]) for j in keep[cs]]
        if got != want:
            raise Fail("the bins lgm_obs = %s of %s are kept, required %s" % ([sh(x) for x in got], cs, [sh(x) for x in want]))
        s = src(cs)
        for k in s:
            for a, j in enumerate(keep[cs]):
                same("the column %s of bin %d (%s)" % (k, j, cs), V.take(col(cs, k), 0, a), V.take(s[k], 0, j))

    def samples(cs):
        for a, j in enumerate(keep[cs]):
            for c, f in enumerate(FIELDS):
                x = V.take(col(cs, f + "_samples"), 0, a)
                if x.axes != (NSAMP,):
                    raise Fail("%s_samples has shape %s" % (f, x.axes))
                for q, i in enumerate((nrow[cs][j] - 1, 0)):
                    must("%s of sample %d of bin %d (%s)" % (f, q, j, cs), x.data[(q,)], tm.sym("s_%s" % cs, C(j), C(i), C(c)))

    def hist(cs):
        P = ctx.get(DK, "DiffmahParams")
        s = src(cs)
        for a, j in enumerate(keep[cs]):
            for q, i in enumerate((nrow[cs][j] - 1, 0)):
                p = NT(P, [scalar(tm.sym("s_%s" % cs, C(j), C(i), C(FIELDS.index(f)))) for f in P.fields])
                h = []
                for t in range(nT):
                    h.append(T0(ctx.spec("kernel.logm", p, scalar(s["t_table"].data[(j, t)]), ctx.spec("tabulate.lgt0", 13.79))))
                for t in range(nT):
                    g = V.take(V.take(V.take(col(cs, "log_mah_samples"), 0, a), 0, q), 0, t)
                    must("the history of sample %d of bin %d (%s)" % (q, j, cs), T0(g), h[t])
                    g = V.take(V.take(V.take(col(cs, "log_mah_rescaled_samples"), 0, a), 0, q), 0, t)
                    must("the rescaled history of sample %d of bin %d (%s)" % (q, j, cs), T0(g), tm.add(tm.sub(h[t], h[-1]), C(lg[cs][j])))

    def resc(cs):
        s = src(cs)["mean_log_mah"]
        for a, j in enumerate(keep[cs]):
            for t in range(nT):
                g = V.take(V.take(col(cs, "mean_log_mah_rescaled"), 0, a), 0, t)
                must("the rescaled mean history of bin %d (%s)" % (j, cs), T0(g), tm.add(tm.sub(s.data[(j, t)], s.data[(j, nT - 1)]), C(lg[cs][j])))

    def counts(cs):
        for a, j in enumerate(keep[cs]):
            must("n_samples of bin %d (%s)" % (j, cs), T0(V.take(col(cs, "n_samples"), 0, a)), C(nrow[cs][j]))

    for cs in lg:
        ctx.ob("the bins in range with enough samples are kept, with their own columns (%s)" % cs, rows, cs)
        ctx.ob("the number of samples of a bin is that of its file (%s)" % cs, counts, cs)
        ctx.ob("the samples of a bin are rows of its own file, parameter by parameter (%s)" % cs, samples, cs)
        ctx.ob("the sampled histories are those of the sampled parameters, rescaled to the bin's mass (%s)" % cs, hist, cs)
        ctx.ob("the mean history is rescaled to the bin's mass at its last time (%s)" % cs, resc, cs)
