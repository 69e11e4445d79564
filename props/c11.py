"""C11: what is saved in a hierarchical file (hspy, zspy) is read back.

Names are arbitrary: a name of the user is an atom of which only what `Name` states is known (it is not
empty, has none of the reserved prefixes, differs from other atoms).  Items of each kind are written by the
real `dict2group` and read back by the real `_group2dict`; a nested dictionary is written and read by the
same pair through its contract (the group holds exactly that dictionary), which is the induction over the
nesting.  The file library is replaced by a group with named attributes and members.
"""
import os
import re

from .common import *

ID = "C11"
H = "rsciio/_hierarchical.py"

RESERVED = ("_list_", "_tuple_", "_bs_", "_sig_", "_datetime_", "_hspy_AxesManager_", "_ragged_shapes_")
A0, A1 = "\ue000", "\ue001"
TOK = re.compile("(%s[^%s]*%s)" % (A0, A1, A1))


class Name(str):
    """text with atoms (arbitrary names); an operation whose result would depend on an atom is refused"""

    def __new__(cls, s):
        return str.__new__(cls, str.__str__(s) if isinstance(s, Name) else s)

    def parts(self):
        return [p for p in TOK.split(str.__str__(self)) if p]

    def __add__(self, o):
        return Name(str.__add__(self, o))

    def __radd__(self, o):
        return Name(str.__add__(o, self))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        s = self.parts()
        lit = ""
        for q in s:
            if q[0] == A0:
                if lit.startswith(p):
                    return True
                if not p.startswith(lit):
                    return False
                rest = p[len(lit):]
                if lit == "" and any(r.startswith(rest) or rest.startswith(r) for r in RESERVED):
                    return False
                raise Unsupported("startswith(%r) depends on an arbitrary name" % p)
            lit += q
        return lit.startswith(p)

    def endswith(self, p):
        raise Unsupported("endswith on an arbitrary name")

    def find(self, sub):
        lit = ""
        for q in self.parts():
            if q[0] == A0:
                if sub in lit:
                    return lit.index(sub)
                raise Unsupported("find(%r) depends on an arbitrary name" % sub)
            lit += q
        return lit.find(sub)

    def index(self, sub):
        r = self.find(sub)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def replace(self, a, b, *n):
        for q in self.parts():
            if q[0] == A0:
                raise Unsupported("replace in an arbitrary name")
        return str.replace(self, a, b, *n)

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.stop is not None or k.step not in (None, 1):
            raise Unsupported("part of an arbitrary name")
        k = k.start or 0
        if k < 0:
            raise Unsupported("part of an arbitrary name")
        out = ""
        done = False
        for q in self.parts():
            if done or k == 0:
                out += q
                done = True
            elif q[0] == A0:
                raise Unsupported("slice cuts an arbitrary name")
            elif len(q) > k:
                out += q[k:]
                done = True
            else:
                k -= len(q)
        return Name(out)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if str.__eq__(self, o):
            return True
        a, b = self.parts(), Name(o).parts()
        if len(a) == 1 and len(b) == 1 and (a[0][0] == A0 or b[0][0] == A0):
            return False       # distinct atoms; an atom is not a reserved literal
        if any(q[0] == A0 for q in a) and not any(q[0] == A0 for q in b):
            # prefix + atom against a literal: different unless the literal has that prefix
            if a[0][0] != A0 and not b[0].startswith(a[0]):
                return False
        if [q[0] == A0 for q in a] == [q[0] == A0 for q in b] and a[-1][0] == A0:
            return False       # same form, different prefix or atom (prefixes are never prefixes of each other + digits)
        return False if a[0][0] != A0 or b[0][0] != A0 else str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__

    def __contains__(self, s):
        if any(q[0] == A0 for q in self.parts()):
            return NotImplemented
        return str.__contains__(self, s)

    def __lt__(self, o):
        raise Unsupported("order of arbitrary names")

    __gt__ = __le__ = __ge__ = __lt__

    def __len__(self):
        if any(q[0] == A0 for q in self.parts()):
            raise Unsupported("length of an arbitrary name")
        return str.__len__(self)

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported("characters of an arbitrary name")

    for _n in ("split", "strip", "lstrip", "rstrip", "lower", "upper", "isdigit", "title", "casefold", "partition",
               "removeprefix", "removesuffix", "count", "rfind", "encode", "translate", "zfill"):
        exec("def %s(self, *a, **k):\n raise Unsupported('str.%s on an arbitrary name')" % (_n, _n))


def atom(tag):
    return Name(A0 + tag + A1)


def norm(k):
    k = str.__str__(k)
    return Name(k) if A0 in k else k


class Leaf:
    """an arbitrary value of a kind the code does not look into"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "<%s>" % self.tag


class Text(Name):
    """an arbitrary text value"""

    def __new__(cls, tag):
        return str.__new__(cls, A0 + tag + A1)

    def __contains__(self, s):
        if s == "\x00":
            key = ("nul", str.__str__(self))
            g = C().ghost
            if key not in g:
                g[key] = bool(fresh_bool("has_null"))
            return g[key]
        raise Unsupported("search in an arbitrary text")


class Blob(bytes):
    """arbitrary binary string"""

    def __new__(cls, tag):
        o = bytes.__new__(cls, b"blob")
        o.tag = tag
        return o

    def decode(self, *a, **k):
        g = C().ghost
        if "utf8" not in g:
            g["utf8"] = bool(fresh_bool("valid_utf8"))
        if not g["utf8"]:
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
        return Text("text of " + self.tag)

    def index(self, sub, *a):
        if sub != b"\x00":
            raise Unsupported("bytes.index")
        if b"\x00" in self:
            return 0
        raise ValueError("subsection not found")

    def find(self, sub, *a):
        return 0 if sub in self else -1

    def __contains__(self, s):
        if s in (b"\x00", 0):
            return "\x00" in Text("text of " + self.tag)
        raise Unsupported("search in an arbitrary binary string")


class Void:
    """numpy.void holding a binary string"""

    def __init__(self, v):
        self.v = v

    def tobytes(self):
        return self.v


class Dt:
    def __init__(self, char):
        self.char = char
        self.metadata = None


class Dset:
    """a stored array"""
    serial_ = 0

    def __init__(self, value, char="d"):
        self.value, self.dtype = value, Dt(char)
        self.shape, self.chunks, self.attrs = (3,), (1,), Attrs()

    def tolist(self):
        return self.value

    def __setitem__(self, k, v):
        if k != slice(None):
            raise Unsupported("partial assignment of a dataset")
        self.value = v


class Vec:
    """numpy's array of the values of a list: kind is how numpy sees them"""

    def __init__(self, value, kind):
        self.value, self.kind = value, kind
        self.dtype = {"num": np.dtype("f8"), "str": np.dtype("U5"), "obj": np.dtype("O"), "2d": np.dtype("f8")}[kind]
        self.ndim = 2 if kind == "2d" else 1
        self.shape = (len(value),)

    def __getitem__(self, k):
        if k != slice(None):
            raise Unsupported("part of an array of values")
        return self

    def tolist(self):
        return list(self.value)


class Attrs(dict):
    def _k(self, k):
        return norm(k)

    def __setitem__(self, k, v):
        if isinstance(v, (list, dict, tuple, Vec, Dset)):
            raise Unsupported("container as attribute")
        if isinstance(v, Text) and ("nul", str.__str__(v)) in C().ghost and C().ghost[("nul", str.__str__(v))]:
            raise ValueError("VLEN strings do not support embedded NULLs")
        dict.__setitem__(self, norm(k), v)

    def __getitem__(self, k):
        return dict.__getitem__(self, norm(k))

    def __contains__(self, k):
        return dict.__contains__(self, norm(k))

    def items(self):
        return [(norm(k), v) for k, v in dict.items(self)]


class Group:
    """a group of the file: attributes and members"""

    def __init__(self, name="/"):
        self.attrs, self.members, self.name = Attrs(), {}, name
        self.tree = None       # a dictionary stored here under contract

    def keys(self):
        # in an order the code cannot rely on
        return [norm(k) for k in reversed(list(self.members))]

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return norm(k) in self.members

    def __getitem__(self, k):
        return self.members[norm(k)]

    def __delitem__(self, k):
        del self.members[norm(k)]

    def values(self):
        return [self.members[k] for k in self.keys()]

    def create_group(self, k):
        expect(norm(k) not in self.members, "a new group has a new name")
        self.members[norm(k)] = Group(k)
        return self.members[norm(k)]

    def require_group(self, k):
        if norm(k) not in self.members:
            return self.create_group(k)
        return self.members[norm(k)]

    def create_dataset(self, k, shape=None, data=None, **kw):
        expect(norm(k) not in self.members, "a new dataset has a new name")
        d = Dset(None)
        if data is not None:
            d.value = data
        self.members[norm(k)] = d
        return d


def models():
    def array(v, *a, **k):
        if isinstance(v, Dset):
            return v.value
        if isinstance(v, Vec):
            return v
        if isinstance(v, Leaf):
            return v
        if isinstance(v, (list, tuple)) and v and isinstance(v[0], list):
            return Vec(v, "2d")
        if isinstance(v, (list, tuple)):
            kinds = {("str" if isinstance(x, str) else "num" if isinstance(x, Leaf) and x.tag.startswith("num") else "obj")
                     for x in v}
            if kinds == {"str"} or kinds == {"num"}:
                return Vec(list(v), kinds.pop())
            if C().fork(fresh_bool("ragged").e):
                raise ValueError("inhomogeneous shape")
            return Vec(list(v), "obj")
        raise Unsupported("np.array(%r)" % (v,))
    return dict(array=array, void=Void)


def load():
    from unittest import mock
    over = {"is_dask_array": lambda x: False}
    m = load_module(H, over, np_over=models())
    return m


def is_group(g):
    return isinstance(g, Group)


class H5:
    """h5py as far as the reader uses it"""
    @staticmethod
    def check_string_dtype(dt):
        return None


def pair(m):
    """writer and reader whose recursion is under contract"""
    w = object.__new__(m.HierarchicalWriter)
    r = object.__new__(m.HierarchicalReader)
    w.Dataset = r.Dataset = Dset
    w.Group = r.Group = Group
    w._unicode_kwds = {}
    m.h5py = H5
    top = {}

    def write(d, g, **k):
        if top.get("w") is None:
            top["w"] = True
            return type(w).dict2group(w, d, g, **k)
        g.tree = dict(d)

    def read(g, dictionary=None, lazy=False):
        if top.get("r") is None:
            top["r"] = True
            return type(r)._group2dict(r, g, dictionary, lazy=lazy) if dictionary is not None else \
                type(r)._group2dict(r, g, lazy=lazy)
        expect(g.tree is not None, "a group that was written is read")
        d = {} if dictionary is None else dictionary
        d.update(g.tree)
        return d

    def overwrite(group, data, key, *a, **k):
        group.members.pop(norm(key), None)
        group.members[norm(key)] = Dset(data)
    w.dict2group, r._group2dict = write, read
    w.overwrite_dataset = overwrite
    return w, r


class Arr(Leaf):
    pass


def value_of(kind, t):
    """a value of the kind (fresh for each call)"""
    if kind == "number":
        return Leaf("num " + t)
    if kind == "None":
        return None
    if kind == "text":
        return Text("text " + t)
    if kind == "binary":
        return Blob(t)
    if kind == "array":
        return np.zeros(2)
    if kind == "stored array":
        return Dset(Leaf("array"))
    if kind == "dictionary":
        return {atom("sub " + t): Leaf("num sub " + t)}
    seq, what, n = kind
    el = []
    for i in range(n):
        u = "%s.%d" % (t, i)
        if what == "numbers":
            el.append(Leaf("num " + u))
        elif what == "texts":
            el.append(Text("el " + u))
        elif what == "lists":
            el.append([Leaf("num " + u)])
        else:
            el.append([{atom("sub " + u): Leaf("num sub" + u)}, None, Text("mix " + u), Leaf("obj " + u),
                       (Leaf("num x" + u),)][i % 5])
    return el if seq == "list" else tuple(el)


def kname(kind):
    return kind if isinstance(kind, str) else "%s of %d %s" % (kind[0], kind[2], kind[1])


def same(want, got):
    if isinstance(want, Blob):
        if isinstance(got, Blob):
            return got is want
        return isinstance(got, Name) and str.__str__(got) == str.__str__(Text("text of " + want.tag))
    if isinstance(want, (list, tuple)):
        if isinstance(got, Vec):
            got = got.value
        return type(got) is type(want) and len(got) == len(want) and all(same(a, b) for a, b in zip(want, got))
    if isinstance(want, dict):
        return isinstance(got, dict) and list(want) == list(got) and all(same(want[k], got[k]) for k in want)
    if isinstance(want, Dset):
        return got is want
    if isinstance(want, str):
        return isinstance(got, str) and str.__str__(want) == str.__str__(got)
    return got is want


KINDS = ["number", "None", "text", "binary", "array", "stored array", "dictionary"] + \
    [(s, w, n) for s in ("list", "tuple") for w, n in
     [("numbers", 0), ("numbers", 1), ("numbers", 3), ("texts", 1), ("texts", 2), ("lists", 2), ("lists", 12),
      ("mixed values", 1), ("mixed values", 3), ("mixed values", 10), ("mixed values", 11), ("mixed values", 101)]]


def item(kind, lazy):
    def run():
        m = load()
        w, r = pair(m)
        g = Group()
        names = [atom("a"), atom("key"), atom("b")]
        vals = [Leaf("num before"), value_of(kind, "v"), Text("after")]
        keep = {n: v for n, v in zip(names, vals)}
        d = dict(keep)
        w.dict2group(d, g)
        expect(list(d) == names and all(d[n] is keep[n] for n in names), "the dictionary of the user is left alone")
        if lazy:
            import unittest.mock as mock
            import dask.array
            with mock.patch.object(dask.array, "from_array", lambda a, chunks=None, **k: a):
                got = r._group2dict(g, lazy=True)
        else:
            got = r._group2dict(g, lazy=False)
        expect(sorted(map(str.__str__, got)) == sorted(map(str.__str__, names)), "the same names are read")
        for n, v in zip(names, vals):
            x = {str.__str__(k): q for k, q in got.items()}.get(str.__str__(n))
            if n is names[1] and kind == "array":
                expect(x is v or isinstance(x, Dset) and x.value is v, "value of the item")
            elif n is names[1] and kind == "stored array":
                expect(x is v or x is v.value, "value of the item")
            else:
                expect(same(v, x), "value of the item")
        if lazy is False and kind == "binary" and isinstance(got[names[1]], str):
            expect(not C().ghost.get(("nul", str.__str__(Text("text of v"))), False), "text holds no null character")
    return run


F = [H + ":HierarchicalWriter.dict2group", H + ":HierarchicalWriter.parse_structure", H + ":HierarchicalReader._group2dict"]
CONTRACTS = []
for _k in KINDS:
    for _lazy in (False, True) if _k in ("array", "dictionary") or not isinstance(_k, str) and _k[2] < 4 else (False,):
        CONTRACTS.append(Contract("item: %s%s" % (kname(_k), ", lazy" if _lazy else ""), item(_k, _lazy), F))


def signal(nax, title):
    """the parts of a signal go to their own places and come back from there"""
    def run():
        m = load()
        w, r = pair(m)
        stored = {}

        def write(d, g, **k):
            g.tree = dict(g.tree or {}, **d)     # what a group held before stays

        def read(g, dictionary=None, lazy=False):
            expect(isinstance(g, Group) and g.tree is not None, "a group that was written is read")
            d = {} if dictionary is None else dictionary
            d.update(g.tree)
            return d
        w.dict2group, r._group2dict = write, read
        data = Dset(Leaf("data"))
        data.shape = (4,) * nax
        seen = {}

        def overwrite(group, x, key, signal_axes=None, chunks=None, **k):
            seen["axes"] = signal_axes
            seen["chunks"] = chunks
            group.members[norm(key)] = x
        w.overwrite_dataset = overwrite
        nav = [i % 3 != 2 for i in range(nax)]
        sig = {
            "data": data,
            "axes": [{"name": Text("axis %d" % i), "scale": Leaf("num s%d" % i), "navigate": nav[i]} for i in range(nax)],
            "metadata": {"General": {"title": title}, "x": Leaf("num md")},
            "original_metadata": {"y": Leaf("num om")},
            "learning_results": {"z": Leaf("num lr")},
            "attributes": {"q": Leaf("num at")},
            "models": {}, "package_info": {"package": Text("p"), "package_version": Text("v")},
        }
        from packaging.version import Version
        g = Group("/Experiments/t")
        w.file = Group()
        ch = Leaf("chunks")
        for i in range(0, nax, 2):               # an axis written earlier, of another type
            g.require_group("axis-%d" % i).tree = {"old": Leaf("num old"), "scale": Leaf("num old s")}
        w.write_signal(sig, g, chunks=ch, show_progressbar=False)
        expect(list(seen["axes"]) == [i for i in range(nax) if not nav[i]] and seen["chunks"] is ch,
               "chunks asked for and signal axes of the data")
        r.version = m.default_version
        r._read_array = lambda group, key: group.members[key]
        m.np = m.np
        for lazy in (True,):
            m.is_dask_array = lambda x: True
            e = r.group2signaldict(g, lazy)
            expect(e["data"] is data, "data")
            expect(len(e["axes"]) == nax and all(sorted(e["axes"][i]) == ["name", "navigate", "scale"] and e["axes"][i]["name"] is sig["axes"][i]["name"]
                   and e["axes"][i]["scale"] is sig["axes"][i]["scale"]
                   and e["axes"][i]["navigate"] == nav[i] for i in range(nax)), "axes in their order")
            expect(e["metadata"]["x"] is sig["metadata"]["x"] and e["metadata"]["General"]["title"] ==
                   ("" if title == "__unnamed__" else title), "metadata")
            expect(e["original_metadata"] == sig["original_metadata"], "original metadata")
            at = dict(e["attributes"])
            expect(at.pop("_lazy") is lazy and at.pop("learning_results") == sig["learning_results"]
                   and at == sig["attributes"], "learning results and attributes")
            expect(e["package"] is sig["package_info"]["package"] and
                   e["package_version"] is sig["package_info"]["package_version"], "package")
    return run


for _n in (0, 1, 2, 3, 4, 11):
    CONTRACTS.append(Contract("signal with %d axes" % _n, signal(_n, "t"),
                              [H + ":HierarchicalWriter.write_signal", H + ":HierarchicalReader.group2signaldict"]))
CONTRACTS.append(Contract("signal without title", signal(1, "__unnamed__"),
                          [H + ":HierarchicalWriter.write_signal", H + ":HierarchicalReader.group2signaldict"]))


# --- ragged data and whole arrays


class Ragged:
    """array of arrays of arbitrary size; the loop over its places is taken at one arbitrary place, writing
    anywhere else is refused"""
    here = (atom("place"),)

    def __init__(self, shape, dtype=object):
        self.shape, self.dtype, self.ndim, self.value = shape, np.dtype(dtype), 2, None
        self.set = False

    def __getitem__(self, i):
        expect(i is self.here and self.set, "the item of the same place")
        return self.value

    def __setitem__(self, i, v):
        expect(i is self.here, "the item of the same place is written")
        self.value, self.set = v, True


def ragged(nd, kind):
    def run():
        m = load_module(H, {"is_dask_array": lambda x: False})
        shape = (atom("shape"),)

        def empty(shape=None, dtype=None, **k):
            expect(shape is sh, "one item per place")
            return Ragged(shape, dtype)

        def ndindex(*s):
            expect(len(s) == 1 and s[0] is sh, "every place once")
            return [Ragged.here]
        sh = shape
        m = load_module(H, {"is_dask_array": lambda x: False}, np_over=dict(empty=empty, ndindex=ndindex))
        x = Ragged(sh)
        dims = tuple(fresh_int("n%d" % i, 0) for i in range(nd))
        a = SymArr.fresh("item", dims, np.dtype(kind), inp=True)
        x[Ragged.here] = a
        for hdf5 in (False, True):
            flat, shapes = m.flatten_data(x, is_hdf5=hdf5)
            one = flat[Ragged.here]
            expect(one.ndim == 1, "stored as one dimension")
            back = m.unflatten_data(flat, shapes, is_hdf5=hdf5)
            got = back[Ragged.here]
            expect(got.dtype == a.dtype and got.ndim == nd, "type and dimensions")
            for i in range(nd):
                prove(ie(got.shape[i]) == ie(dims[i]), "shape of the item")
            ix = tuple(fresh_int("i%d" % i, 0) for i in range(nd))
            for i in range(nd):
                assume(ix[i] < dims[i])
            row = ie(ix[0])
            for i in range(1, nd):
                prove((row * dims[i].e + ix[i].e) / dims[i].e == row, "place of the item in a row")
                row = row * dims[i].e + ix[i].e
            prove(got.expr(*[ie(i) for i in ix]) == a.expr(*[ie(i) for i in ix]), "values of the item")
    return run


for _nd in (1, 2, 3):
    CONTRACTS.append(Contract("ragged item of %d dimensions" % _nd, ragged(_nd, "f8"),
                              [H + ":flatten_data", H + ":unflatten_data"]))


class Whole:
    """an array written or read as a whole"""

    def __init__(self, tag, dtype, shape=None, flags_c=True):
        self.tag, self.dtype, self.shape = tag, np.dtype(dtype), shape or (atom("shape " + tag),)
        self.ndim, self.flags = 2, type("Fl", (), {"c_contiguous": flags_c})()
        self.chunks = ("chunks of " + tag,)
        self.lazy = False

    def rechunk(self, c):
        w = Whole(self.tag, self.dtype, self.shape)
        w.chunks, w.ndim, w.of, w.lazy = c, self.ndim, self, self.lazy
        return w


class File(Group):
    """a group in which a dataset of the name may already be there, with the same or another type"""

    def __init__(self, key, other):
        Group.__init__(self)
        self.calls = []
        if other is not None:
            self.members[norm(key)] = other

    def require_dataset(self, key, shape=None, dtype=None, exact=None, chunks=None, **kw):
        expect(exact is True, "an older dataset of another type is not taken")
        old = self.members.get(norm(key))
        if old is not None:
            if not (old.shape is shape and old.dtype == dtype):
                raise TypeError("Shapes do not match")
            return old
        d = Whole("stored", dtype, shape)
        d.chunks_asked = chunks
        self.members[norm(key)] = d
        return d


def whole(dtype, dask, old):
    def run():
        m = load_module(H, {"is_dask_array": lambda x: dask})
        data = Whole("data", dtype)
        other = None if old is None else Whole("older", dtype if old == "same" else "i1",
                                               data.shape if old == "same" else (atom("older shape"),))
        key, ch = atom("key"), ("asked",)
        g = File(key, other)
        done = []

        class W(m.HierarchicalWriter):
            @staticmethod
            def _store_data(data, dset, group, key, chunks, show_progressbar=True):
                done.append((data, dset))

            @staticmethod
            def _get_object_dset(group, data, key, chunks, dtype=None, **kw):
                d = Whole("object", "O", data.shape)
                group.members[norm(key)] = d
                return d
        flat, shapes = Whole("flat", "O", data.shape), Whole("shapes", "O", data.shape)

        def flatten(x, is_hdf5=False):
            expect(x is data and is_hdf5 is W._is_hdf5, "the data are flattened")
            return flat, shapes
        m.flatten_data = flatten
        import unittest.mock as mock
        import dask.array

        def gufunc(f, sig, x, **k):
            expect(sig == "()->(),()" and f is flatten, "item by item")
            return f(x, is_hdf5=k["is_hdf5"])
        with mock.patch.object(dask.array, "apply_gufunc", gufunc):
            W.overwrite_dataset(g, data, key, chunks=ch, show_progressbar=False)
        expect(len(done) == 1, "written once")
        src, dst = done[0]
        if np.dtype(dtype) == object:
            expect(src[0] is flat and src[1] is shapes and len(src) == 2, "the flat data and the shapes are written")
            expect(dst[0] is g.members[norm(key)] and dst[1] is g.members[norm("_ragged_shapes_" + key)],
                   "under the name and the name of the shapes")
            # read back
            w, r = pair(m)
            def from_array(x, chunks=None):
                expect(chunks == dst[0].chunks, "one item of the data and its shape are in the same chunk")
                y = Whole("lazy", "O")
                y.of, y.chunks = x, chunks
                return y

            def undo(f, sig, x, y, **k):
                expect(f is m.unflatten_data and sig == "(),()->()" and x.of is dst[0] and y.of is dst[1]
                       and k["is_hdf5"] is r._is_hdf5, "each item gets its own shape back")
                return "read"
            with mock.patch.object(dask.array, "apply_gufunc", undo), mock.patch.object(dask.array, "from_array", from_array):
                expect(r._read_array(g, key) == "read", "ragged data are read back")
        else:
            d = g.members[norm(key)]
            expect(src is data and dst is d, "the data are written under the name")
            expect(d.shape is data.shape and d.dtype == data.dtype, "with their shape and type")
            w, r = pair(m)
            expect(r._read_array(g, key) is d, "the dataset is read back")
    return run


for _dt in ("f8", "i2", "S4", "O"):
    for _dask in (False, True):
        for _old in (None, "same", "other"):
            if _dt != "O" or _old is None:
                CONTRACTS.append(Contract("array %s%s, %s dataset" % (_dt, " lazy" if _dask else "", _old or "new"),
                                          whole(_dt, _dask, _old),
                                          [H + ":HierarchicalWriter.overwrite_dataset", H + ":HierarchicalReader._read_array"]))


def store(fmt, n, lazy):
    """each array is stored in its own dataset"""
    def run():
        rel = "rsciio/%s/_api.py" % fmt
        import contextlib
        m = load_module(rel, {"is_dask_array": lambda x: x.lazy,
                              "get_progress_bar_context_manager": lambda p: contextlib.nullcontext})
        cls = m.HyperspyWriter if fmt == "hspy" else m.ZspyWriter

        class D:
            def __init__(self, i, like):
                self.got, self.chunks = [], like.chunks if C().fork(fresh_bool("same_chunks").e) else ("other", i)

            def write_direct(self, x):
                expect(x.flags.c_contiguous and x.shape != (0,), "numpy writes contiguous, non empty data directly")
                self.got.append(x)

            def __setitem__(self, k, x):
                expect(k == slice(None), "the whole dataset")
                self.got.append(x)
        data = []
        for i in range(n):
            w = Whole("d%d" % i, "f8", (0,) if C().fork(fresh_bool("empty").e) else None,
                      flags_c=C().fork(fresh_bool("contiguous").e))
            w.lazy = lazy
            data.append(w)
        dsets = [D(i, w) for i, w in enumerate(data)]
        import unittest.mock as mock
        import dask.array

        def da_store(xs, ds, **k):
            expect(len(xs) == len(ds) == n, "all arrays are stored")
            for x, d in zip(xs, ds):
                expect(x.chunks == d.chunks, "in the chunks of the dataset")
                d.got.append(x)
        with mock.patch.object(dask.array, "store", da_store):
            one = n == 1
            cls._store_data(data[0] if one else tuple(data), dsets[0] if one else tuple(dsets), None, "k", None,
                            show_progressbar=False)
        for w, d in zip(data, dsets):
            expect(len(d.got) == 1 and (d.got[0] is w or getattr(d.got[0], "of", None) is w),
                   "each dataset receives its own array once")
    return run


for _fmt in ("hspy", "zspy"):
    for _n in (1, 2):
        for _lazy in (False, True):
            CONTRACTS.append(Contract("%s: store %d%s" % (_fmt, _n, " lazy" if _lazy else ""), store(_fmt, _n, _lazy),
                                      ["rsciio/%s/_api.py:%sWriter._store_data" % (_fmt, "Hyperspy" if _fmt == "hspy" else "Zspy")]))


ASSUMPTIONS = [
    "names and values are arbitrary; names do not start with the prefixes the format reserves (%s)" % ", ".join(RESERVED),
    "the text value '_None_' stands for None in the format and is excluded; texts hold no null character",
    "h5py, zarr, numpy and dask store and return what they are given (the search runs them)",
    "lists and tuples of mixed values are enumerated up to 101 elements; numbers in one list are converted to a common "
    "type by numpy; a list of texts and numbers becomes a list of texts (pinned by the test suite)",
    "nested values: induction over the nesting, the recursion of writer and reader is replaced by this contract",
    "binary strings that are valid text are read back as text (documented)",
]


# --------------------------------------------------------------------------------------------
# search: real files

WORDS = ["a", "name", "Énergie", "x y", "µm", "_x", "list_1", "1", "10_2", "key.with.dots", "_list", "tuple", "None"]


def rnd_value(rng, depth, fmt, order_):
    k = rng.choice(["int", "float", "str", "none", "list", "tuple", "dict", "array", "strs", "mixed", "bool", "bytes",
                    "nums", "empty", "str", "int", "sarr"])
    if k == "int":
        return rng.choice([0, 1, -5, 2 ** 62, rng.randint(-1000, 1000)])
    if k == "float":
        return rng.choice([0.0, -1.5, 1e300, float("inf"), rng.random()])
    if k == "str":
        return rng.choice(["", "abc", "µ é", "x" * 70, "None", "a/b", "1"])
    if k == "none":
        return None
    if k == "bool":
        return rng.random() < 0.5
    if k == "bytes":
        if fmt == "zspy":
            return b"abc"
        return rng.choice([b"abc", b"a\0b", b"\xff\xfe1", b"\0", bytes(range(256))])
    if k == "empty":
        return rng.choice([[], (), {}])
    if k == "nums":
        n = rng.randint(1, 14)
        v = rng.choice([[rng.randint(-9, 9) for _ in range(n)], [rng.random() for _ in range(n)],
                        [rng.random() < 0.5 for _ in range(n)]])
        return v if rng.random() < 0.5 else tuple(v)
    if k == "strs":
        v = [rng.choice(["a", "bcd", "é", ""]) for _ in range(rng.randint(1, 13))]
        return v if rng.random() < 0.5 else tuple(v)
    if k == "array":
        dt = rng.choice(["i1", "u2", "i8", "f4", "f8", "c8", "?", ">i2"])
        sh = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
        return (np.arange(int(np.prod(sh))).reshape(sh) % 5).astype(dt)
    if k == "sarr":
        return np.array([rng.choice(["a", "bcd", "µ", "xx"]) for _ in range(rng.randint(1, 4))])
    if depth <= 0:
        return rng.randint(0, 9)
    if k == "dict":
        return rnd_dict(rng, depth - 1, fmt)
    # containers of mixed values: never only numbers and texts, which numpy converts
    n = rng.choice([1, 2, 3, 10, 11, 12, 13])
    v = [rnd_value(rng, depth - 1, fmt, order_) if n < 4 else rng.choice(
        [{"i": i}, None, {"i": i, "s": "t%d" % i}, [i], (i, None)]) for i in range(n)]
    v.append(rng.choice([None, {"last": 1}]))
    return v if k == "list" else tuple(v)


def rnd_dict(rng, depth, fmt):
    return {w: rnd_value(rng, depth, fmt, None) for w in rng.sample(WORDS, rng.randint(0, 6))}


def equal(a, b):
    """a saved, b read"""
    if a is None:
        return b is None
    if isinstance(a, bytes):
        try:
            t = a.decode()
        except UnicodeDecodeError:
            t = None
        if t is not None and "\0" not in t:
            return b == t
        return b == a
    if isinstance(a, dict) and isinstance(a.get("data"), np.ndarray) and "axes" in a and "attributes" in a:
        # a signal inside the metadata: the reader adds the package that wrote it
        return isinstance(b, dict) and all(k in b and equal(v, b[k]) for k, v in a.items()) and not (
            set(b) - set(a) - {"package", "package_version", "learning_results", "models"})
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if hasattr(b, "compute"):
            b = b.compute()
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if a.dtype == object:
            return b.dtype == object and all(equal(a[i], b[i]) for i in np.ndindex(a.shape))
        return (a.dtype == b.dtype or a.dtype.kind == "U" and b.dtype.kind == "U") and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_)):
        return isinstance(b, (bool, np.bool_)) and a == b
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if isinstance(a, float) and a != a:
        return b != b
    return not isinstance(b, (str, list, tuple, dict)) and not isinstance(b, (bool, np.bool_)) and bool(a == b)


def rnd_data(rng):
    sh = tuple(rng.randint(1, 5) for _ in range(rng.randint(1, 4)))
    n = int(np.prod(sh))
    if rng.random() < 0.15:
        a = np.empty(sh, dtype=object)
        dt = rng.choice(["i4", "f8", "U3"])
        for i in np.ndindex(sh):
            k = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 2)))
            a[i] = (np.arange(int(np.prod(k))).reshape(k)).astype(dt)
            if rng.random() < 0.3:
                a[i] = np.asfortranarray(a[i])
        return a
    dt = rng.choice(["i1", "u1", "i2", "u4", "i8", "f4", "f8", "c8", "c16", "?", ">u2", ">f4"])
    a = (np.arange(n) * 7 % 113).reshape(sh).astype(dt)
    if rng.random() < 0.3:
        a = np.asfortranarray(a)
    if rng.random() < 0.2:
        a = a[..., ::-1]
    return a


def rnd_signal(rng, fmt):
    """a signal that is part of the metadata of another one, as hyperspy hands it over"""
    data = rnd_data(rng)
    while data.dtype == object:
        data = rnd_data(rng)
    nav = rng.randint(0, data.ndim)
    return dict(data=data, axes=[dict(_type="UniformDataAxis", name=rng.choice(["x", "é", None]), units="nm", size=n, scale=-0.5,
                                      offset=2.5, navigate=i < nav, is_binned=False) for i, n in enumerate(data.shape)],
                metadata={"General": {"title": rng.choice(["n", "", "é"])}, "more": rnd_dict(rng, 1, fmt)},
                original_metadata=rnd_dict(rng, 1, fmt), attributes={"_lazy": False, "ragged": False})


def search(s):
    import logging
    import shutil
    logging.disable(logging.CRITICAL)
    import dask.array as da
    from rsciio import hspy, zspy
    rng = s.rng
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c11_%d" % os.getpid())
    for it in range(s.n(260, 6000)):
        if not s.left():
            break
        fmt = "hspy" if it % 2 else "zspy"
        mod = hspy if fmt == "hspy" else zspy
        path = base + "." + fmt
        zipped = fmt == "zspy" and rng.random() < 0.3
        data = rnd_data(rng)
        nav = rng.randint(0, data.ndim)
        ragged = data.dtype == object
        if ragged:
            nav = data.ndim
        axes = [dict(_type="UniformDataAxis", name=rng.choice(["x", "Énergie", None]), units=rng.choice(["nm", "µm", None]),
                     size=n, scale=rng.choice([1.0, -0.25, 1e-12]), offset=rng.choice([0.0, -3.5]),
                     navigate=i < nav, is_binned=rng.random() < 0.5) for i, n in enumerate(data.shape)]
        if rng.random() < 0.2 and not ragged:
            axes[0] = dict(_type="DataAxis", name="n", units="u", navigate=axes[0]["navigate"], is_binned=False,
                           axis=np.cumsum(np.arange(1, data.shape[0] + 1)) * 0.5)
        md, om, lr = rnd_dict(rng, 3, fmt), rnd_dict(rng, 3, fmt), rnd_dict(rng, 1, fmt)
        title = rng.choice(["t", "", "a/b", "µ é", "1"])
        md["General"] = {"title": title}
        # signals inside the metadata (navigators, virtual images, markers)
        for _ in range(0 if rng.random() < 0.6 else rng.randint(1, 2)):
            where = rng.choice([md, om, md.setdefault("_HyperSpy", {})])
            where = where if isinstance(where, dict) else md
            key = "_sig_" + rng.choice(["navigator", "Virt 0", "b_sig_c", "x"])
            where[key] = rnd_signal(rng, fmt)
        models = {} if rng.random() < 0.8 else {"m1": {"components": {"c": 1.5}}}
        # lazy ragged data of texts, or for hspy of one dimension, are refused (an error)
        lazy_in = rng.random() < 0.25 and not (
            ragged and (data.ndim == 1 and fmt == "hspy" or data[(0,) * data.ndim].dtype.kind == "U"))
        sig = dict(data=data if not lazy_in else da.from_array(data, chunks=tuple(rng.randint(1, n) for n in data.shape)),
                   axes=axes, metadata=md, original_metadata=om, learning_results=lr,
                   attributes={"_lazy": lazy_in, "ragged": ragged}, models=models, tmp_parameters={},
                   package_info={"package": "p", "package_version": "1.2"})
        kw = {}
        if rng.random() < 0.4 and not ragged:
            kw["chunks"] = tuple(rng.randint(1, n) for n in data.shape)
        if fmt == "hspy":
            kw["compression"] = rng.choice(["gzip", None, "lzf"])
        elif zipped:
            kw["store_type"] = "zip"
        lazy = rng.random() < 0.4
        case = dict(format=fmt, data=repr(data), dtype=str(data.dtype), axes=repr(axes), metadata=repr(md),
                    original_metadata=repr(om), learning_results=repr(lr), lazy_signal=lazy_in, options=repr(kw), lazy=lazy)
        s.note(case)
        if os.path.isdir(path):
            shutil.rmtree(path)
        elif os.path.exists(path):
            os.unlink(path)
        import copy
        before = copy.deepcopy({k: v for k, v in sig.items() if k != "data"})
        try:
            mod.file_writer(path, sig, show_progressbar=False, **kw)
            s.check(repr(before) == repr({k: v for k, v in sig.items() if k != "data"}),
                    "saving leaves the signal alone", case)
            update = rng.random() < 0.3 and not zipped
            runs = [] if update else [(sig, mod.file_reader(path, lazy=lazy))]
            if update:
                # change the attributes of the file without writing the data again
                sig2 = copy.deepcopy({k: v for k, v in sig.items() if k != "data"})
                sig2["data"] = np.zeros_like(data) if not ragged else data
                sig2["axes"][0].update(name="other", units="s")
                if not ragged and rng.random() < 0.5:
                    if "axis" in sig2["axes"][0]:
                        sig2["axes"][0] = dict(_type="UniformDataAxis", name="u", units="s", size=data.shape[0], scale=2.0,
                                               offset=1.0, navigate=axes[0]["navigate"], is_binned=True)
                    else:
                        sig2["axes"][0] = dict(_type="DataAxis", name="n", units="u", navigate=axes[0]["navigate"],
                                               is_binned=False, axis=np.arange(data.shape[0]) ** 2 * 0.5)
                sig2["metadata"]["added"] = rnd_value(rng, 1, fmt, None)
                mod.file_writer(path, sig2, show_progressbar=False, write_dataset=False,
                                **{k: v for k, v in kw.items() if k != "chunks"})
                want = dict(sig2, data=sig["data"])
                runs = [(want, mod.file_reader(path, lazy=lazy))]
                case["update"] = repr(sig2["metadata"].get("added"))
        except Exception as exc:
            import traceback
            case["traceback"] = traceback.format_exc()[-1500:]
            s.fail("saving or reading fails: %s" % type(exc).__name__, case)
            continue
        for want, res in runs:
            s.check(len(res) == 1, "one signal saved, one read", case)
            r = res[0]
            d = r["data"]
            if lazy:
                s.check(hasattr(d, "compute"), "lazy data", case)
                d = d.compute()
            case["got"] = repr(d)
            s.check(equal(np.asarray(want["data"]) if not ragged else data, d), "the data", case)
            case["got"] = repr(r["axes"])
            s.check(equal(want["axes"], [dict(a) for a in r["axes"]]), "the axes", case)
            case["got"] = repr(r["metadata"])
            s.check(equal(want["metadata"], r["metadata"]), "the metadata", case)
            case["got"] = repr(r["original_metadata"])
            s.check(equal(want["original_metadata"], r["original_metadata"]), "the original metadata", case)
            at = dict(r["attributes"])
            case["got"] = repr(at)
            s.check(equal(want["learning_results"], at.pop("learning_results")), "the learning results", case)
            s.check(at["_lazy"] == lazy and at["ragged"] == ragged, "the attributes", case)
            s.check(r["package"] == "p" and r["package_version"] == "1.2", "package information", case)
            got_m = {k: {q: w for q, w in v.items()} for k, v in r["models"].items()}
            s.check(equal(want["models"], got_m), "the models", case)
            s.check(r["metadata"]["General"]["title"] == title, "the title", case)
        if lazy:
            try:
                hspy._api._close_tracked_handles(path)
            except Exception:
                pass
    # the history that is known to fail: a value of another kind written over an older one
    for fmt, mod in (("hspy", hspy), ("zspy", zspy)):
        path = base + "k." + fmt
        data = np.arange(3.0)
        axes = [dict(name="x", size=3, scale=1.0, offset=0.0, units="nm", navigate=False)]
        base_sig = dict(data=data, axes=axes, original_metadata={}, learning_results={}, attributes={"_lazy": False},
                        models={}, tmp_parameters={}, package_info={"package": "p", "package_version": "1"})
        mod.file_writer(path, dict(base_sig, metadata={"General": {"title": "t"}, "k": [1, 2]}), show_progressbar=False)
        mod.file_writer(path, dict(base_sig, metadata={"General": {"title": "t"}, "k": 5}), show_progressbar=False,
                        write_dataset=False)
        got = mod.file_reader(path)[0]["metadata"]["k"]
        s.check(equal(5, got), "value of another kind written over an older one",
                dict(format=fmt, first="[1, 2]", second="5", got=repr(got)), tag="kind-changed-in-update")
        if os.path.isdir(path):
            shutil.rmtree(path)
