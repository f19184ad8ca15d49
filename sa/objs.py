"""Stand-ins for library objects: an HDF5 file, a text file, an MPI
communicator, a command line.  They record what the program does with them and
hand back symbolic contents."""
from . import terms as tm
from .values import *  # noqa
from .values import ProgError, Unsupported
from .interp import Model


def pyslice_key(k):
    return k is Ellipsis or k == ()


def badkey(it, k):
    if is_num(k) or k is None or (isinstance(k, Arr) and k.axes is not None):
        raise ProgError("an HDF5 object is looked up by a number or an array", it.loc)
    raise Unsupported("computed HDF5 path", it.loc)


class H5Read:
    """an existing HDF5 file; tree: nested dict, leaves are arrays"""

    def __init__(self, tree, attrs=None, fn=None):
        self.tree, self.attrs = tree, attrs or {}
        self.opened = []

    def open(self, it, args, kw):
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        self.opened.append((args[0], mode, it.loc))
        if mode not in ("r", "r+", "a"):
            raise ProgError("the file to be read is opened with mode %r, which truncates it" % (mode,), it.loc)
        return self.node(self.tree, "hdf", root=True)

    def node(self, d, path, root=False):
        if not isinstance(d, dict):
            return self.dataset(d, path)
        groups = {k: d[k] for k in sorted(d)}  # a file lists its members by name

        def getitem(it, k):
            if isinstance(k, bytes):
                k = k.decode()
            if not isinstance(k, str):
                badkey(it, k)
            cur, p = groups, path
            for part in [x for x in k.split("/") if x]:
                if not isinstance(cur, dict) or part not in cur:
                    raise ProgError("HDF5 path %s/%s does not exist" % (p, part), it.loc)
                cur = cur[part]
                p += "/" + part
            return self.node(cur, p)

        def contains(it, k):
            try:
                getitem(it, k)
                return True
            except ProgError:
                return False

        return PyObj(
            path,
            attrs={"attrs": dict(self.attrs), "name": path},
            methods={
                "keys": lambda it, a, k: list(groups),
                "items": lambda it, a, k: [(x, self.node(y, path + "/" + x)) for x, y in groups.items()],
                "values": lambda it, a, k: [self.node(y, path + "/" + x) for x, y in groups.items()],
                "close": lambda it, a, k: None,
                "get": lambda it, a, k: getitem(it, a[0]) if contains(it, a[0]) else (a[1] if len(a) > 1 else None),
            },
            getitem=getitem,
            iter=lambda it: list(groups),
            contains=contains,
        )

    def dataset(self, a, path):
        a = as_arr(a)
        at = {"shape": lambda it: it.getattr(a, "shape"), "size": lambda it: it.getattr(a, "size"), "ndim": lambda it: len(a.axes), "dtype": Ext("dtype"), "name": path}

        def getitem(it, k):
            if pyslice_key(k):
                return Arr(a.axes, dict(a.data))
            return it.getitem(Arr(a.axes, dict(a.data)), k)

        return PyObj(path, term=tm.sym("h5:" + path), attrs=at, methods={"__len__": lambda it, x, k: it.pynum(scalar(size_term(a.axes[0]))), "__array__": lambda it, x, k: Arr(a.axes, dict(a.data))}, getitem=getitem, iter=lambda it: it.iterable(a))


class H5Write:
    """a new HDF5 file; .data maps path -> (value, location, path condition)"""

    def __init__(self):
        self.data, self.attrs, self.opened, self.order = {}, {}, [], []

    def open(self, it, args, kw):
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        self.opened.append((args[0], mode, it.loc))
        if mode not in ("w", "a", "w-", "x", "r+"):
            raise ProgError("the file to be written is opened with mode %r" % (mode,), it.loc)
        return self.group("")

    def put(self, it, k, v):
        if isinstance(k, bytes):
            k = k.decode()
        if not isinstance(k, str):
            badkey(it, k)
        if k in self.data:
            raise ProgError("HDF5 dataset %s is created twice" % k, it.loc)
        self.data[k] = (v, it.loc, tuple(it.path))
        self.order.append(k)

    def group(self, pre):
        def create_dataset(it, a, k):
            a = list(a)
            name = a[0] if a else k["name"]
            if "data" in k:
                v = k["data"]
            elif len(a) > 3:
                v = a[3]
            else:
                raise Unsupported("dataset without data", it.loc)
            self.put(it, pre + name, v)
            return None

        def attrset(it, k, v):
            s = strings(v)
            if isinstance(v, Arr) and s is not None and any(isinstance(x, str) for x in s) and not objdtype(v.t):
                raise ProgError("an HDF5 attribute cannot hold a numpy array of unicode strings", it.loc)
            self.attrs[pre + k] = v

        return PyObj(
            "hdf" + pre,
            attrs={"attrs": PyObj("attrs", setitem=attrset)},
            methods={
                "create_dataset": create_dataset,
                "create_group": lambda it, a, k: self.group(pre + a[0] + "/"),
                "require_group": lambda it, a, k: self.group(pre + a[0] + "/"),
                "close": lambda it, a, k: None,
                "flush": lambda it, a, k: None,
            },
            setitem=lambda it, k, v: self.put(it, pre + k if isinstance(k, str) else k, v),
            getitem=lambda it, k: self.group(pre + k + "/"),
        )


def objdtype(t):
    return t.op == "fn" and t.args[0] == "astype" and str(to_term(t.args[2]).args[0]).split(".")[-1] in ("object", "object_", "O")


def strings(v):
    """the python strings of an array of strings; None if it is not one"""
    if isinstance(v, PyObj) and v.name in ("string array", "bytes array"):
        return v.iter(None)
    if isinstance(v, NT):
        v = v.vals
    if isinstance(v, (list, tuple)):
        return list(v) if all(isinstance(x, (str, bytes)) for x in v) else None
    if isinstance(v, Arr) and v.axes is None:
        t, conv = v.t, None
        while t.op == "fn" and t.args[0] == "astype" and len(t.args) == 3:
            conv = conv or t.args[2]
            t = t.args[1]
        if t.op == "tuple" and all(x.op in ("str", "bytes") for x in t.args):
            xs = [x.args[0] for x in t.args]
            if conv is None:
                return xs
            if isinstance(conv, str):
                conv = tm.mk("str", conv)
            if conv.op == "str" and conv.args[0].startswith("S"):
                n = conv.args[0][1:]
                xs = [x.encode() if isinstance(x, str) else x for x in xs]
                return [x[: int(n)] for x in xs] if n.isdigit() else xs
            if conv.op == "ext" and conv.args[0].split(".")[-1] in ("bytes_", "string_", "bytes"):
                return [x.encode() if isinstance(x, str) else x for x in xs]
            if conv.op == "ext" and conv.args[0].split(".")[-1] in ("str", "object", "str_", "object_"):
                return [x if isinstance(x, str) else x.decode() for x in xs]
    return None


def strarr(xs):
    """array of strings as read back from an HDF5 attribute"""
    xs = list(xs)

    def astype(it, a, k):
        t = a[0] if a else k.get("dtype")
        if isinstance(t, Ext) and t.path.split(".")[-1] in ("str", "str_", "object"):
            return strarr([x.decode() if isinstance(x, bytes) else x for x in xs])
        if isinstance(t, str) and t[:1] in "UT":
            return strarr([x.decode() if isinstance(x, bytes) else x for x in xs])
        raise Unsupported("astype of an array of strings", it.loc)

    return PyObj(
        "string array",
        term=tm.mk("tuple", *[to_term(x) for x in xs]),
        attrs={"size": len(xs), "shape": (len(xs),), "ndim": 1},
        methods={"tolist": lambda it, a, k: list(xs), "astype": astype, "__len__": lambda it, a, k: len(xs)},
        getitem=lambda it, k: xs[k] if isinstance(k, int) and -len(xs) <= k < len(xs) else it.getitem(list(xs), k),
        iter=lambda it: list(xs),
    )


def reopened(w):
    """the file written to w, opened for reading"""
    attrs = {}
    for k, v in w.attrs.items():
        s = strings(v)
        attrs[k] = v if s is None else strarr(s)
    tree = {}
    for k, (v, loc, path) in w.data.items():
        d = tree
        parts = [x for x in k.split("/") if x]
        for x in parts[:-1]:
            d = d.setdefault(x, {})
        d[parts[-1]] = v
    return H5Read(tree, attrs)
