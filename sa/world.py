"""The surroundings of a script: command line, files, MPI ranks, shell.
Everything a script does to them is logged in the interpreter's event list
(kind "io" / "mpi"), nothing happens."""
import ast
import fnmatch
import shlex

from . import terms as tm
from .interp import Frame, Interp, Model, Module
from .values import *  # noqa
from .values import ProgError, PyObj, Unsupported
from .core import Fail, Undecided

NOARG = object()


def builtin_name(v):
    p = getattr(v, "path", None)
    return p.split(".")[-1] if isinstance(p, str) else None


class Parser:
    def __init__(self, world):
        self.w, self.declared = world, {}
        m = {n: (lambda it, a, k, n=n: getattr(self, n)(it, a, k)) for n in ("add_argument", "parse_args", "parse_known_args")}
        self.obj = PyObj("parser", methods=m)

    def add_argument(self, it, a, k):
        if not a or not all(isinstance(x, str) for x in a):
            raise Unsupported("computed argument name", it.loc)
        opt = a[0].startswith("-")
        d = k.get("dest")
        if d is None:
            long = [x for x in a if x.startswith("--")]
            d = (long or list(a))[0].lstrip("-").replace("-", "_") if opt else a[0]
        if d in self.declared:
            raise ProgError("the argument %s is declared twice" % d, it.loc)
        self.declared[d] = dict(k, opt=opt, names=a, loc=it.loc)
        return None

    def conv(self, it, d, k, s):
        t = k.get("type")
        if t is None:
            return s
        n = builtin_name(t)
        if n == "int":
            try:
                return int(s)
            except ValueError:
                raise Undecided("the scenario passes %r to -%s" % (s, d))
        if n == "float":
            return float(s)
        if n == "str":
            return s
        if n == "bool":
            return bool(s)
        raise Unsupported("argument type %s" % (t,), k["loc"])

    def parse_args(self, it, a, k):
        if a or k:
            raise Unsupported("parse_args of a given list", it.loc)
        given = dict(self.w.argv)
        at = {}
        for d, kw in self.declared.items():
            act = kw.get("action")
            if d in given:
                s = given.pop(d)
                if act in ("store_true", "store_false"):
                    at[d] = act == "store_true"
                elif act not in (None, "store"):
                    raise Unsupported("argument action %s" % (act,), kw["loc"])
                else:
                    at[d] = self.conv(it, d, kw, s)
                    ch = kw.get("choices")
                    if ch is not None and isinstance(ch, (list, tuple)) and at[d] not in ch:
                        raise Undecided("the scenario's %s = %r is not among the choices" % (d, s))
            elif not kw["opt"] and kw.get("nargs") not in ("?", "*") or kw.get("required") is True:
                raise Undecided("the command line requires the argument %s, unknown to the scenario" % d)
            elif act in ("store_true", "store_false"):
                at[d] = kw.get("default", act == "store_false")
            else:
                v = kw.get("default")
                at[d] = self.conv(it, d, kw, v) if isinstance(v, str) else v
        if given:
            raise Undecided("the command line has no argument %s" % sorted(given))
        return PyObj("args", attrs=at, closed=True)

    def parse_known_args(self, it, a, k):
        raise Unsupported("parse_known_args", it.loc)


MPI_NAMES = {"send": ("obj", "dest", "tag"), "recv": ("buf", "source", "tag"), "bcast": ("obj", "root"), "Barrier": (), "barrier": (), "scatter": ("sendobj", "root"),
             "gather": ("sendobj", "root"), "allgather": ("sendobj",), "reduce": ("sendobj", "op", "root"), "allreduce": ("sendobj", "op")}


class World:
    """one process of a script run"""

    def __init__(self, ctx, name, argv, rank=0, size=1, existing=(), reduced=None):
        self.ctx, self.name, self.argv, self.rank, self.size = ctx, name, dict(argv), rank, size
        self.existing = list(existing)
        self.reduced = reduced or (lambda it, op, d: opq(tm.atom("mpi." + op, to_term(d.get("sendobj")))))
        it = self.it = ctx.interp()
        it.ext["argparse.ArgumentParser"] = lambda it, a, k: Parser(self).obj
        it.ext["open"] = self.open
        it.extval["mpi4py.MPI.COMM_WORLD"] = self.comm()
        it.ext["os.makedirs"] = lambda it, a, k: self.log(it, "mkdir", a[0], k.get("exist_ok", a[2] if len(a) > 2 else False))
        it.ext["os.mkdir"] = lambda it, a, k: self.log(it, "mkdir", a[0], False)
        for n in ("os.path.isfile", "os.path.exists", "os.path.isdir"):
            it.ext[n] = lambda it, a, k: True
        for n in ("numpy.genfromtxt", "numpy.loadtxt"):
            it.ext[n] = self.readtxt
        it.ext["glob.glob"] = self.glob
        for n in ("os.system", "subprocess.os.system", "subprocess.check_output", "subprocess.run", "subprocess.call", "subprocess.check_call"):
            it.ext[n] = lambda it, a, k: self.log(it, "sh", a[0], k)
        for n in ("os.remove", "os.unlink", "subprocess.os.remove", "subprocess.os.unlink"):
            it.ext[n] = lambda it, a, k: self.log(it, "rm", a[0])
        it.ext["time.time"] = lambda it, a, k: opq(tm.sym("time%d" % len(it.events)))
        it.ext["gc.collect"] = lambda it, a, k: None
        it.ext["print"] = lambda it, a, k: None
        self.nread = 0

    def log(self, it, what, *args):
        it.event("io", what, args)
        return None

    # ------------------------------------------------------------------- MPI
    def comm(self):
        def m(name):
            def f(it, a, k):
                d = dict(zip(MPI_NAMES[name], a))
                d.update(k)
                it.event("mpi", "barrier" if name == "Barrier" else name, (d,))
                if name in ("Barrier", "barrier"):
                    return None
                return self.reduced(it, name, d)

            return f

        return PyObj("comm", attrs={"rank": self.rank, "size": self.size},
                     methods={n: m(n) for n in MPI_NAMES} | {"Get_rank": lambda it, a, k: self.rank, "Get_size": lambda it, a, k: self.size})

    # ----------------------------------------------------------------- files
    def open(self, it, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        name = a[0]
        if not isinstance(mode, str):
            raise Unsupported("computed file mode", it.loc)
        if "w" not in mode and "a" not in mode and "x" not in mode:
            raise Unsupported("text file opened for reading", it.loc)
        it.event("io", "open", (name, mode))

        def write(it, a, k):
            it.event("io", "write", (name, a[0]))
            return None

        def close(it, a, k):
            it.event("io", "close", (name,))
            return None

        def writelines(it, a, k):
            xs = it.iterable(a[0])
            if not isinstance(xs, (list, tuple)):
                raise Unsupported("writelines of an unknown list", it.loc)
            for x in xs:
                write(it, [x], {})

        return PyObj("file", methods={"write": write, "close": close, "__exit__": close, "writelines": writelines, "flush": lambda it, a, k: None})

    def readtxt(self, it, a, k):
        it.event("io", "read", (a[0], dict(k)))
        return opq(tm.atom("filetext", to_term(a[0])))

    def glob(self, it, a, k):
        if not isinstance(a[0], str):
            raise Unsupported("computed file pattern", it.loc)
        it.event("io", "glob", (a[0],))
        return [f for f in self.existing if fnmatch.fnmatchcase(f, a[0])]

    # ------------------------------------------------------------------- run
    def main(self):
        """execute the module as a script"""
        prog = self.ctx.prog
        m0 = prog.module(self.name)
        if m0 is None:
            from .interp import MissingAnchor

            raise MissingAnchor("script %s does not exist" % self.name)
        m = Module(m0.name, m0.path, m0.relpath, m0.pkg)
        m.tree = m0.tree
        m.frame.vars.update(__name__="__main__", __file__=m0.frame.vars["__file__"])
        it = self.it
        it.stack.append(m.frame)
        try:
            it.exec_stmts(m.tree.body, m.frame)
        finally:
            it.stack.pop()
            for e in it.events:
                if e.kind == "enter":
                    self.ctx.funcs[e.what] = self.ctx.funcs.get(e.what, 0) + 1
        self.ctx.funcs[self.name + ".__main__"] = self.ctx.funcs.get(self.name + ".__main__", 0) + 1
        return m.frame.vars, it.events


def deletes(e):
    """file patterns removed by an event, None when it is not a deletion"""
    if e.kind != "io" or e.what not in ("sh", "rm"):
        return None
    x = e.args[0]
    if e.what == "rm":
        if not isinstance(x, str):
            raise Undecided("computed file name in a deletion")
        return [x]
    if isinstance(x, (list, tuple)):
        w = list(x)
    elif isinstance(x, str):
        w = shlex.split(x)
    else:
        raise Undecided("computed shell command")
    if not all(isinstance(q, str) for q in w):
        raise Undecided("computed shell command")
    if not w or w[0] != "rm":
        raise Undecided("shell command %r" % (x,))
    return [q for q in w[1:] if not q.startswith("-")]
