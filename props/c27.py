"""C27: signals saved to NeXus files are read back unchanged, and NXdata of other programs with the positions of its axes."""
import os
import shutil

from .common import *
from .c18 import Base, Block

ID = "C27"
A = "rsciio/nexus/_api.py"
F_W = [A + ":" + f for f in ("file_writer", "_write_signal", "_parse_to_file", "_write_nexus_groups", "_write_nexus_attr")]
F_R = [A + ":" + f for f in ("file_reader", "_find_data", "_getlink", "_nexus_dataset_to_signal", "_get_nav_list", "_load_metadata", "_parse_from_file",
                             "_byte_to_string", "_text_split", "_fix_exclusion_keys", "_check_search_keys", "_is_int", "_is_numeric_data",
                             "_find_search_keys_in_dict")]


def real(x):
    return re_(x)


class Line(Sym):
    """positions of an axis: number of elements and element by index"""

    def __init__(self, n, fn, dtype="f8", uniform=True):
        self.n, self.fn, self.dtype, self.uniform = n, fn, np.dtype(dtype), uniform

    shape = property(lambda self: (self.n,))
    ndim = 1

    def __mul__(self, k):
        return Line(self.n, lambda i: mk_real(real(self.fn(i)) * real(k)))

    __rmul__ = __mul__

    def __add__(self, k):
        return Line(self.n, lambda i: mk_real(real(self.fn(i)) + real(k)))

    __radd__ = __add__

    def astype(self, t, **k):
        expect(np.dtype(t) == np.dtype("f8"), "positions as numbers")
        return self


class Steps(Sym):
    def __init__(self, line):
        self.line = line

    def __gt__(self, k):
        return ("up", self.line, k)

    def __lt__(self, k):
        return ("down", self.line, k)


class Attrs:
    def __init__(self):
        self.d = {}

    def __setitem__(self, k, v):
        k = k.decode() if isinstance(k, bytes) else k
        expect(isinstance(k, str), "name of an attribute")
        if isinstance(v, bool):
            v = np.bool_(v)
        elif isinstance(v, int):
            v = np.int64(v)
        elif isinstance(v, (list, tuple)):
            v = np.array(v)
        if isinstance(v, np.ndarray):
            expect(v.dtype.kind not in "UO", "array h5py can write")
        elif v is None or isinstance(v, dict):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        self.d[k] = v

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def get(self, k, d=None):
        return self.d.get(k, d)

    def __bool__(self):
        return bool(self.d)

    def __len__(self):
        return len(self.d)


class SoftLink:
    def __init__(self, path):
        self.path = path


class D:
    def __init__(self, name, value, parent=None, **kw):
        self.name, self.value, self.attrs, self.parent, self.kw = name, value, Attrs(), parent, kw
        self.chunks = kw.get("chunks")
        if not isinstance(value, (Block, Line)):
            self.value = np.asarray(value)
            if self.value.dtype.kind == "U":
                # texts are stored with any length and read as bytes
                self.value = np.array([t.encode() for t in self.value.ravel().tolist()], dtype=object).reshape(self.value.shape)

    dtype = property(lambda self: self.value.dtype)
    shape = property(lambda self: self.value.shape)
    ndim = property(lambda self: len(self.value.shape))

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def __len__(self):
        return self.shape[0]

    def astype(self, t):
        if isinstance(self.value, Line):
            if self.value.dtype.kind in "SUO":
                raise ValueError("could not convert string to float")
            return self
        raise Unsupported("conversion")

    def __getitem__(self, k):
        v = self.value
        if isinstance(v, Line):
            if k == () or k is Ellipsis or isinstance(k, slice) and k == slice(None):
                return v
            if not is_sym(k) and k < 0:
                k = v.n + k
            prove(z3.And(ie(k) >= 0, ie(k) < ie(v.n)), "a position of the axis")
            return v.fn(k)
        if isinstance(v, Block):
            raise Unsupported("part of the data")
        return v[k]


class G:
    def __init__(self, path="", parent=None):
        self.path, self.attrs, self.items_, self.parent = path, Attrs(), {}, parent

    def walk(self, path, make=False):
        at = self
        for p in [q for q in path.split("/") if q not in ("", ".")]:
            if not isinstance(at, G):
                return None
            if p not in at.items_:
                if not make:
                    return None
                at.items_[p] = G(at.path + "/" + p, at)
            at = at.items_[p]
        return at

    def require_group(self, name):
        g = self.walk(name, True)
        if not isinstance(g, G):
            raise TypeError("not a group")
        return g

    def create_group(self, name, **k):
        expect(not k, "options of the group")
        if self.walk(name) is not None:
            raise ValueError("name already exists")
        return self.walk(name, True)

    def create_dataset(self, name, data=None, shape=None, dtype=None, **kw):
        if shape is not None or dtype is not None:
            raise Unsupported("dataset of a given shape or type")
        if self.walk(name) is not None:
            raise ValueError("name already exists")
        head, _, tail = name.rpartition("/")
        g = self.walk(head, True)
        g.items_[tail] = D(g.path + "/" + tail, data, g, **kw)
        return g.items_[tail]

    def require_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        expect(isinstance(name, str), "name of the axis")
        if self.walk(name) is not None:
            raise Unsupported("name of another member")
        prove(And(len(shape) == 1, eqi(shape[0], data.n)), "shape of the dataset")
        expect(np.dtype(dtype) == data.dtype, "type of the dataset")
        return self.create_dataset(name, data=data, **kw)

    def get(self, path, default=None, getlink=False):
        r = self.walk(path)
        return default if r is None or getlink else r

    def __getitem__(self, path):
        path = path.decode() if isinstance(path, bytes) else path
        r = self.walk(path)
        if r is None:
            raise KeyError(path)
        return r

    def __contains__(self, path):
        return self.walk(path) is not None

    tracked = False

    def keys(self):
        return list(self.items_) if self.tracked else sorted(self.items_)

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]


class File(G):
    def __init__(self, name):
        G.__init__(self)
        self.filename, self.open = name, True

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Disk:
    def __init__(self, linear=None):
        self.files, self.stored, self.chunk_calls, self.linear = {}, [], [], linear

    def File(self, name, mode="r", track_order=None):
        name = os.fspath(name)
        if mode == "w":
            self.files[name] = File(name)
            self.files[name].tracked = bool(track_order)
        else:
            expect(mode == "r" and name in self.files, "the file is only read")
            self.files[name].open = True
        return self.files[name]

    def load(self):
        def chunks(shape, dtype, signal_axes=None, *a, **k):
            self.chunk_calls.append((tuple(shape), np.dtype(dtype), sorted(signal_axes)))
            return ("chunks", len(self.chunk_calls))

        def overwrite(group, data, key, signal_axes=None, chunks=None, **kw):
            expect(key not in group and chunks is None, "new data with chunks for whole signals")
            if isinstance(data, Block):
                self.stored.append((list(signal_axes), dict(kw)))
                data = data.new(lazy=False)
            else:
                data = np.asarray(data)
                expect(data.dtype.kind in "biufcS", "array h5py can write")
            group.create_dataset(key, data=data)

        def from_array(x, chunks="auto", **k):
            if not isinstance(x, D) or not isinstance(x.value, Block):
                raise Unsupported("other data than the dataset")
            return x.value.new(lazy=(chunks,))

        def array(x, *a, **k):
            if isinstance(x, D):
                return x.value if not isinstance(x.value, Block) else x.value.new(lazy=False)
            if isinstance(x, (Block, Line)):
                return x
            return np.array(x, *a, **k)

        def diff(x, *a, **k):
            x = x.value if isinstance(x, D) else x
            return Steps(x) if isinstance(x, Line) else np.diff(x)

        def all_(x, *a, **k):
            if not isinstance(x, tuple):
                return np.all(x)
            side, line, k = x
            expect(not is_sym(k) and k == 0, "direction of the axis")
            j = z3.Int("j")
            e = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ie(line.n) - 1),
                                          real(line.fn(mk_int(j + 1))) > real(line.fn(mk_int(j))) if side == "up" else
                                          real(line.fn(mk_int(j + 1))) < real(line.fn(mk_int(j)))))
            b = fresh_bool(side)
            assume(be(b) == e)
            return b

        def linear(d):
            """by contract: uniform positions are found uniform; of others either answer, which the caller proves to be all right"""
            v = d.value if isinstance(d, D) else d
            if not isinstance(v, Line):
                raise Unsupported("positions")
            if v.uniform:
                return True
            self.linear = fresh_bool("linear")
            self.asked = True
            return self.linear
        p = {"h5py:File": self.File, "h5py:Dataset": D, "h5py:Group": G, "h5py:SoftLink": SoftLink,
             "dask.array:from_array": from_array, A[:-3].replace("/", ".") + ":get_signal_chunks": chunks,
             "rsciio.nexus._api:overwrite_dataset": overwrite, "rsciio.nexus._api:_is_linear_axis": linear,
             "rsciio.nexus._api:is_dask_array": lambda x: isinstance(x, Block) and bool(x.lazy)}
        return load_module(A, patch=p, np_over={"diff": diff, "all": all_, "array": array, "asarray": array,
                                                "arange": lambda n, *a: Line(n, lambda i: i) if is_sym(n) else Line(n, lambda i: i)})


def tree(want, got, where="metadata"):
    """values of the metadata: want saved, got read"""
    want = {k: v for k, v in want.items() if v is not None}
    expect(isinstance(got, dict) and set(got) == set(want), "the entries of " + where)
    for k, v in want.items():
        g = got[k]
        if isinstance(v, dict):
            tree(v, g, where + "." + k)
        elif isinstance(v, (list, tuple, np.ndarray)):
            v = np.asarray(v)
            v = np.char.encode(v, "utf-8") if v.dtype.kind == "U" else v
            expect(isinstance(g, np.ndarray) and g.dtype == v.dtype and np.array_equal(g, v), where + "." + k)
        else:
            expect(not isinstance(g, (dict, np.ndarray)) and g == v and isinstance(g, str) == isinstance(v, str), where + "." + k)


MD = {"General": {"date": "2020-02-03", "time": "12:13:14", "authors": "É. Z"}, "Signal": {"signal_type": "EELS", "quantity": ""},
      "Acquisition_instrument": {"TEM": {"beam_energy": 200.5, "Detector": {"EELS": {"n": 3, "on": True, "off": False, "none": None, "empty": {}}}}}}
OM = {"a": {"b": {"c": "text\nlines µ", "d": -2}}, "list": [1, 2, 3], "texts": ["a", "é"], "array": np.arange(6.0).reshape(2, 3), "i": np.int64(4), "f": np.float32(0.5),
      "z": 1 + 2j, "t": (1.5, 2.5)}


def saved(nd, ns, kinds, names, units, dtype="f4", lazy_in=False, lazy=False, count=1, title="t", ask=None, default=False, md=None, om=None, keep=True, skip=None):
    """kinds of the axes: u uniform, 1 uniform with one element, d positions"""
    def run():
        disk = Disk()
        m = disk.load()
        sigs, info = [], []
        for q in range(count):
            sizes = [1 if k == "1" else fresh_int("n%d_%d" % (q, i), 2, inp=True) for i, k in enumerate(kinds)]
            base = Base(sizes, q)
            axes, pos = [], []
            for i, k in enumerate(kinds):
                ax = dict(name=names[i], units=units[i], navigate=i < nd - ns, size=sizes[i], is_binned=False)
                if k == "d":
                    f = z3.Function("pos%d_%d" % (q, i), I, R)
                    line = Line(sizes[i], lambda j, f=f: mk_real(f(ie(j))), uniform=False)
                    ax.update(_type="DataAxis", axis=line)
                    pos.append(line.fn)
                else:
                    o, sc = fresh_real("offset%d_%d" % (q, i), inp=True), fresh_real("scale%d_%d" % (q, i), inp=True)
                    ax.update(_type="UniformDataAxis", offset=o, scale=sc)
                    pos.append((o, sc))
                axes.append(ax)
            t = title if count == 1 else title + " %d" % q
            md_ = {k: dict(v) for k, v in (md or {}).items()}
            md_.setdefault("General", {})["title"] = t
            sigs.append(dict(data=Block(base, range(nd), dtype, lazy_in), axes=axes, metadata=md_, original_metadata=dict(om or {}), learning_results={},
                             attributes={"_lazy": lazy_in}))
            info.append((base, sizes, pos, t))
        kw = {} if not default else {"use_default": True}
        if not keep:
            kw["save_original_metadata"] = False
        if skip is not None:
            kw["skip_metadata_key"] = skip
        before = [(repr(s["metadata"]), repr(s["original_metadata"]), [sorted(a) for a in s["axes"]]) for s in sigs]
        m.file_writer("f.nxs", sigs if count > 1 else sigs[0], compression="lzf", **kw)
        expect(before == [(repr(s["metadata"]), repr(s["original_metadata"]), [sorted(a) for a in s["axes"]]) for s in sigs], "the signal is left alone")
        expect(not disk.files["f.nxs"].open, "the file is closed")
        expect(len(disk.stored) == count and all(c[0] == list(range(nd - ns, nd)) and c[1] == {"compression": "lzf"} for c in disk.stored),
               "data stored by whole signals with the compression asked for")
        r = m.file_reader("f.nxs", lazy=lazy, nxdata_only=True, use_default=default, **(ask(info) if ask else {}))
        chosen = list(range(count)) if not default else [0]
        if ask:
            chosen = [count - 1]
        expect(len(r) == len(chosen), "one signal for each saved signal")
        for q, got in zip(chosen, r):
            base, sizes, pos, t = info[q]
            d = got["data"]
            expect(isinstance(d, Block) and d.base is base and d.perm == tuple(range(nd)) and d.dtype == np.dtype(dtype) and not d.conv, "the data")
            expect(bool(d.lazy) == lazy, "lazy or not")
            expect(len(got["axes"]) == nd, "the axes")
            for i, a in enumerate(got["axes"]):
                prove(eqi(a["size"], sizes[i]), "size of the axis")
                expect(a["index_in_array"] == i and a["navigate"] == (i < nd - ns), "place and kind of the axis")
                if names[i] is None:
                    expect("name" not in a and "axis" not in a, "an axis without name")
                    continue
                expect(a["name"] == names[i] and a["units"] == (units[i] or ""), "name and units")
                if kinds[i] == "d" and "axis" in a:
                    line = a["axis"]
                    expect(isinstance(line, Line), "positions of the axis")
                    j = z3.Int("j")
                    prove(z3.And(eqi(line.n, sizes[i]), z3.ForAll([j], real(line.fn(mk_int(j))) == real(pos[i](mk_int(j))))), "positions of the axis")
                elif kinds[i] == "d":
                    j = z3.Int("j")
                    n = ie(sizes[i])
                    f = pos[i]
                    up = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), real(f(mk_int(j + 1))) > real(f(mk_int(j)))))
                    down = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), real(f(mk_int(j + 1))) < real(f(mk_int(j)))))
                    prove(z3.Implies(z3.Or(up, down), be(disk.linear)), "an axis without positions is uniform")
                    prove(z3.Implies(be(disk.linear), z3.And(real(a["offset"]) == real(f(0)), real(a["scale"]) == real(f(1)) - real(f(0)))),
                          "calibration of uniform positions")
                else:
                    o, sc = pos[i]
                    expect("axis" not in a, "a uniform axis")
                    prove(real(a["offset"]) == real(o), "offset")
                    if kinds[i] != "1":
                        prove(real(a["scale"]) == real(sc), "scale")
            name = (t or "unnamed__%d" % q).replace("/", "_")
            name = name[2:] if name.startswith("__") else name
            got_md = {k: v for k, v in got["metadata"].items() if k != "attrs"}
            want = {k: dict(v) for k, v in (md or {}).items()}
            want.setdefault("General", {})["title"] = name
            tree(want, got_md)
            got_om = got["original_metadata"]
            if keep and om:
                drop = [skip] if isinstance(skip, str) else skip or []

                def without(x):
                    return {k: without(v) if isinstance(v, dict) else v for k, v in x.items() if k not in drop}
                tree(without(om), {k: v for k, v in got_om.items() if k != "attrs"}, "original metadata")
    return run


def foreign(axes, form, kinds, interpretation, units, lazy=False, signal="counts", indices=None):
    """NXdata of another program: positions of any kind"""
    def run():
        disk = Disk()
        m = disk.load()
        f = disk.files["f.nxs"] = File("f.nxs")
        e = f.require_group("scan")
        e.attrs["NX_class"] = b"NXentry"
        g = f.require_group("scan/detector")
        g.attrs["NX_class"] = b"NXdata"
        g.attrs["signal"] = signal
        if interpretation:
            g.attrs["interpretation"] = interpretation
        nd = len(axes)
        sizes = [1 if k == "1" else fresh_int("n%d" % i, 2, inp=True) for i, k in enumerate(kinds)]
        base = Base(sizes)
        g.create_dataset(signal, data=Block(base, range(nd), "u2"))
        fns = []
        for i, n in enumerate(axes):
            fn = z3.Function("axis%d" % i, I, R)
            fns.append(fn)
            if n == ".":
                continue
            if kinds[i] == "u":
                o, sc = fresh_real("o%d" % i, inp=True), fresh_real("s%d" % i, inp=True)
                assume(z3.ForAll([z3.Int("j")], fn(z3.Int("j")) == real(o) + real(sc) * z3.ToReal(z3.Int("j"))))
            x = g.create_dataset(n, data=Line(sizes[i], lambda j, fn=fn: mk_real(fn(ie(j))), uniform=kinds[i] != "d"))
            if units[i] is not None:
                x.attrs["units"] = units[i]
            if indices == "scalar":
                g.attrs[n + "_indices"] = np.int32(i)
            elif indices == "array":
                g.attrs[n + "_indices"] = np.array([i])
        g.attrs["axes"] = np.array([a.encode() for a in axes]) if form == "array" else ",".join(axes).encode() if form == "bytes" else ",".join(axes)
        r = m.file_reader("f.nxs", lazy=lazy, nxdata_only=True)
        expect(len(r) == 1, "one signal")
        got, = r
        d = got["data"]
        expect(isinstance(d, Block) and d.base is base and d.perm == tuple(range(nd)) and d.dtype == np.dtype("u2") and bool(d.lazy) == lazy, "the data")
        expect(len(got["axes"]) == nd and got["metadata"]["General"]["title"] == "detector", "axes and title")
        for i, a in enumerate(got["axes"]):
            prove(eqi(a["size"], sizes[i]), "size of the axis")
            sig = i >= nd - {"spectrum": 1, "image": 2}.get(interpretation, 0) if interpretation else axes[i] == "."
            expect(a["index_in_array"] == i and a["navigate"] == (not sig), "place and kind of the axis")
            if axes[i] == ".":
                expect((a["scale"], a["offset"], a["units"]) == (1, 0, ""), "an axis without positions")
                continue
            expect(a["name"] == axes[i] and a["units"] == {"nm": "nm", b"mm": "mm", None: "", "s": "s"}[units[i]], "name and units")
            fn = fns[i]
            if "axis" in a:
                expect(kinds[i] == "d" and a["axis"].n is sizes[i], "positions of a non-uniform axis")
                prove(z3.ForAll([z3.Int("j")], real(a["axis"].fn(mk_int(z3.Int("j")))) == fn(z3.Int("j"))), "positions")
            elif kinds[i] != "d":
                prove(real(a["offset"]) == fn(0), "offset")
                if kinds[i] == "u":
                    prove(real(a["scale"]) == fn(1) - fn(0), "scale")
        if lazy:
            sh, dt, ax = disk.chunk_calls[-1]
            expect(d.lazy == (("chunks", len(disk.chunk_calls)),) and dt == np.dtype("u2"), "chunks for whole signals")
    return run


def paths():
    """_find_data: all paths, exactly the path asked for, or those that contain a text, in the order of the file"""
    disk = Disk()
    m = disk.load()
    f = disk.files["f.nxs"] = File("f.nxs")
    names = ["/a/d", "/a/d/d", "/a/dd", "/b/a/d", "/b/x"]
    for n in names:
        g = f.require_group(n)
        g.attrs["NX_class"], g.attrs["signal"] = "NXdata" if len(n) % 2 else b"NXdata", "data"
        g.create_dataset("data", data=Block(Base([fresh_int("n", 2)]), (0,), "f4"))
    f.require_group("b/none").attrs["NX_class"] = "NXdata"
    f.require_group("b/entry").attrs["NX_class"] = "NXentry"
    data = sorted(n + "/data" for n in names)
    for hard in (False, True):
        expect(m._find_data(f, hardlinks_only=hard) == (names, data), "all data")
        for n in names + ["/a", "/none"]:
            expect(m._find_data(f, absolute_path=[n], hardlinks_only=hard) == ([n] if n in names else [], []), "data of a path")
        expect(m._find_data(f, absolute_path=names[::-1], hardlinks_only=hard) == (names, []), "data of several paths in the order of the file")
        for key in ("/a/d", "dd", "x", "zz", "data"):
            got = m._find_data(f, search_keys=[key], hardlinks_only=hard)
            expect(got == ([n for n in names if key in n], [n for n in data if key in n]), "data by a part of the path")


def contracts():
    out = []

    def Con(name, functions, fn):
        return Contract(name, fn, functions)
    nm = ["x", "Énergie loss", "t", "z,w", "k"]
    un = ["nm", "µm", None, "1/nm", "eV"]
    cases = []
    for nd in (1, 2, 3, 4, 5):
        for ns in (1, 2):
            if ns > nd:
                continue
            cases.append((nd, ns, "u" * nd, nm[:nd], un[:nd]))
            cases.append((nd, ns, ("1u" * 3)[:nd], nm[:nd], un[:nd]))
            cases.append((nd, ns, "u" * nd, [None if (i + ns) % 2 else nm[i] for i in range(nd)], un[:nd]))
            if nd < 4:
                cases.append((nd, ns, ("ud" * 3)[:nd], nm[:nd], un[:nd]))
                cases.append((nd, ns, ("du1" * 3)[:nd], nm[1:nd + 1], un[1:nd + 1]))
    for i, (nd, ns, kinds, names, units) in enumerate(cases):
        for lazy in (False, True):
            dt = ["f4", "u1", "i2", ">i4", "c8", "f8", "?", "u8"][i % 8]
            out.append(Con("save and read: %d dimensions, %d of the signal, axes %s, names %s, %s%s" % (
                nd, ns, kinds, "".join("-" if n is None else "n" for n in names), dt, ", lazily" if lazy else ""), F_W + F_R,
                saved(nd, ns, kinds, names, units, dt, lazy_in=(i % 3 == 0) != lazy, lazy=lazy, md=MD if i % 4 == 1 else None)))
    one = (2, 1, "uu", ["y", "x"], ["nm", None])
    for t in ("t", "", "a/b", "__x", "a.b", "é µ", "data", "nm data"):
        out.append(Con("save and read: title %r" % t, F_W + F_R, saved(*one, title=t, md=MD, om=OM)))
    for n in (2, 3, 11, 12):
        out.append(Con("save and read: %d signals" % n, F_W + F_R, saved(*one, count=n, om={"a": 1})))
    out.append(Con("the default signal of several", F_W + F_R, saved(*one, count=3, default=True)))
    out.append(Con("one of several signals, by its path", F_W + F_R, saved(*one, count=3, ask=lambda info: dict(dataset_path="/entry%d/%s" % (len(info), info[-1][3])))))
    out.append(Con("one of several signals, by its name", F_W + F_R, saved(*one, count=3, ask=lambda info: dict(dataset_key=[info[-1][3]]))))
    out.append(Con("save without original metadata", F_W + F_R, saved(*one, md=MD, om=OM, keep=False)))
    for sk in ("b", ["array", "i"], "nothing"):
        out.append(Con("save without the key %r" % (sk,), F_W + F_R, saved(*one, md=MD, om=OM, skip=sk)))
    out.append(Con("paths of the data of a file", F_R[1:3], paths))
    k = 0
    for axes, kinds in ((["y", "x", "."], "udu"), (["y", "x", "e"], "uu1"), ([".", "."], "uu"), (["e"], "d"), (["a", ".", "b", "."], "1uuu"), (["p", "q"], "dd")):
        for form in ("array", "str", "bytes"):
            for interp in (None, "spectrum", "image"):
                if interp == "image" and len(axes) < 2:
                    continue
                k += 1
                out.append(Con("NXdata of another program: axes %s as %s, %s%s" % (",".join(axes), form, interp, ", lazily" if k % 2 else ""), F_R,
                                    foreign(axes, form, kinds, interp, [["nm", b"mm", None, "s"][(i + k) % 4] for i in range(len(axes))], lazy=bool(k % 2),
                                            indices=[None, "scalar", "array"][k % 3])))
    return out


CONTRACTS = contracts()
ASSUMPTIONS = [
    "h5py is modelled: groups and datasets by path, attributes (Python integers come back as numpy integers, byte names as texts), groups listed by name or, with track_order, "
    "in the order of their creation, texts of datasets read as bytes; that the library stores and returns the elements is taken from it (the concrete search runs the real library)",
    "overwrite_dataset is replaced by its contract (C11 decides it); the signal axes and the compression given to it are obligations; get_signal_chunks by its contract (C02)",
    "_is_linear_axis is replaced by a contract: uniform positions are found uniform, others may be (within its tolerance); the concrete search decides that on real positions (bounded)",
    "machine arithmetic on offsets and scales is real arithmetic; numpy diff and all, dask from_array by their documentation",
]


# ------------------------------------------------------------------ concrete search on the real code
WORDS = ["a", "name", "Énergie", "x y", "µm", "_x", "1", "10", "kind", "data", "offset"]


def rnd_value(rng, depth):
    k = rng.randrange(11)
    if k == 0:
        return rng.choice([0, 1, -5, 2 ** 40, rng.randint(-1000, 1000)])
    if k == 1:
        return rng.choice([0.0, -1.5, 1e300, 1e-30, rng.random()])
    if k == 2:
        return rng.choice([True, False, np.True_])
    if k == 3:
        return rng.choice([np.int64(7), np.float32(0.5), np.uint8(200), np.float64(-2.25)])
    if k == 4:
        return None
    if k == 5:
        return np.arange(rng.randint(2, 7)).astype(rng.choice(["i4", "f8", "u1", "c8"]))
    if k == 6:
        return rng.choice([[1, 2], (3.5, 4.5, 5.0), ["a", "b"], ["é", "xyz"], [[1, 2], [3, 4]]])
    if k == 7:
        return 1.5 - 2j
    if k < 9 and depth:
        return rnd_dict(rng, depth - 1)
    return rng.choice(["", "abc", "µ é", "x" * 70, "None", "a/b", "1", " b", "line\nline", "keys"])


def rnd_dict(rng, depth):
    return {w: rnd_value(rng, depth) for w in rng.sample(WORDS, rng.randint(0, 5))}


def differs(want, got, where=""):
    """the first entry that is not read back"""
    want = {k: v for k, v in want.items() if v is not None}
    if not isinstance(got, dict) or set(want) != set(got):
        return "%s: %s" % (where or "entries", got)
    for k, v in want.items():
        g = got[k]
        if isinstance(v, dict):
            d = differs(v, g, where + "." + k)
            if d:
                return d
            continue
        if hasattr(g, "compute"):
            g = g.compute()
        if isinstance(v, (list, tuple, np.ndarray)):
            v = np.asarray(v)
            v = np.char.encode(v, "utf-8") if v.dtype.kind == "U" else v
            ok = isinstance(g, np.ndarray) and g.dtype == v.dtype and g.shape == v.shape and bool((g == v).all())
        else:
            ok = not isinstance(g, (dict, np.ndarray)) and isinstance(g, str) == isinstance(v, str) and isinstance(g, (bool, np.bool_)) == isinstance(v, (bool, np.bool_)) and bool(g == v)
        if not ok:
            return "%s.%s: %r" % (where, k, g)
    return None


def positions(a, n):
    if "axis" in a:
        return np.asarray(a["axis"], dtype=float)
    return a["offset"] + a["scale"] * np.arange(n)


def search(s):
    import logging
    import tempfile
    logging.disable(logging.CRITICAL)
    root = tempfile.mkdtemp(prefix="c27-", dir=s.tmp)
    try:
        for it in range(s.n(260, 4000)):
            if not s.left():
                break
            try:
                (one, one, one, other)[it % 4](s, os.path.join(root, "f.nxs"), it)
            except (OSError, KeyError, TypeError, ValueError, AttributeError, IndexError, RuntimeError) as e:
                s.fail("exception %s: %s" % (type(e).__name__, str(e)[:200]), dict(getattr(s, "case27", {}), iteration=it))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def rnd_positions(rng, n):
    """strictly monotone positions, seldom uniform, at any scale"""
    step = rng.choice([1.0, 1e-9, 1e-3, 1e6])
    return (rng.choice([1, -1]) * np.cumsum([rng.choice([0.5, 1, 1.5, 2, 7]) for _ in range(n)]) + rng.choice([0, -3, 100])) * step


def one(s, fn, it):
    from rsciio.nexus import file_reader, file_writer
    rng = s.rng
    count = rng.choice([1, 1, 1, 2, 3, 12])
    sigs, case = [], []
    for q in range(count):
        nd = rng.randint(1, 5)
        ns = rng.choice([1, 2]) if nd > 1 else 1
        shape = tuple(rng.randint(1, 4) for _ in range(nd))
        data = (np.arange(int(np.prod(shape))) * 3 % 101).reshape(shape).astype(rng.choice(["u1", "i2", ">u2", "i4", "f4", ">f4", "f8", "c8", "c16", "?", "u8"]))
        names = rng.sample(["x", "y", "Énergie", "Energy loss", "t", "z,w", "k.1"], nd)
        axes = []
        for i, n in enumerate(shape):
            ax = dict(name=names[i] if rng.random() < 0.85 else None, units=rng.choice(["nm", None, "µm", "1/Å"]), navigate=i < nd - ns, is_binned=False)
            if rng.random() < 0.25:
                ax.update(_type="DataAxis", axis=rnd_positions(rng, n))
                if rng.random() < 0.3 and n > 1:
                    ax["axis"] = np.array([9, 6, 2, 1], "u1")[:n] if rng.random() < 0.5 else np.array([-3, 1, 4, 100], "i2")[:n]
            else:
                sc = rng.choice([1.0, 0.25, -2.0, 1e-12, -3e-9, 1e7, rng.uniform(-1, 1) or 1.0])
                ax.update(_type="UniformDataAxis", scale=sc, offset=rng.choice([0, 0.0, 3.5 * sc, -1e3 * sc, rng.uniform(-9, 9) * sc]), size=n)
            axes.append(ax)
        title = rng.choice(["t", "", "a/b", "__x", "é", "a.b", "data", "x" * 80])
        md = rnd_dict(rng, 2)
        md["General"] = dict(rnd_dict(rng, 1), title=title, date="2021-03-04")
        sigs.append(dict(data=data, axes=axes, metadata=md, original_metadata=rnd_dict(rng, 2), learning_results={}, attributes={}))
        case.append(dict(shape=shape, dtype=str(data.dtype), axes=repr(axes), metadata=repr(md), original_metadata=repr(sigs[-1]["original_metadata"]), title=title))
    lazy_in, lazy, default, keep = rng.random() < 0.25, rng.random() < 0.4, rng.random() < 0.3, rng.random() < 0.8
    kw = dict(compression=rng.choice(["gzip", None, "lzf"]), use_default=default, save_original_metadata=keep)
    skip = rng.choice([None, None, "a", ["name", "1"]])
    if skip is not None:
        kw["skip_metadata_key"] = skip
    case = dict(signals=case, lazy_signal=lazy_in, lazy=lazy, options=repr(kw))
    s.note(case)
    s.case27 = case
    given = sigs
    if lazy_in:
        import dask.array as da
        given = [dict(q, data=da.from_array(q["data"], chunks=tuple(rng.randint(1, k) for k in q["data"].shape))) for q in sigs]
    import copy
    before = repr([{k: v for k, v in q.items() if k != "data"} for q in copy.deepcopy(sigs)])
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        # the progress of dask
        file_writer(fn, given if count > 1 or rng.random() < 0.5 else given[0], **kw)
    s.check(before == repr([{k: v for k, v in q.items() if k != "data"} for q in sigs]), "saving leaves the signal alone", case)
    how = rng.choice(["all", "all", "path"]) if not default else rng.choice(["all", "default"])
    chosen = list(range(count))
    rk = {}

    def name(q):
        t = sigs[q]["metadata"]["General"]["title"] or "unnamed__%d" % q
        t = t.replace("/", "_")
        return t[2:] if t.startswith("__") else t
    if how == "path":
        chosen = sorted(rng.sample(chosen, rng.randint(1, count)))
        rk["dataset_path"] = ["/entry%d/%s" % (q + 1, name(q)) for q in chosen]
    elif how == "default":
        chosen, rk["use_default"] = [0], True
    case["read"] = repr(rk)
    res = file_reader(fn, lazy=lazy, nxdata_only=True, **rk)
    s.check(len(res) == len(chosen), "one signal for each", dict(case, got=len(res)))
    for q, r in zip(chosen, res):
        want = sigs[q]
        d = r["data"]
        s.check(hasattr(d, "compute") == lazy, "lazy or not", case)
        d = np.asarray(d)
        s.check(d.dtype == want["data"].dtype and d.shape == want["data"].shape and bool((d == want["data"]).all()), "the data", dict(case, signal=q, got=repr(d)))
        s.check(len(r["axes"]) == d.ndim, "the axes", dict(case, signal=q))
        for i, (a, w) in enumerate(zip(r["axes"], want["axes"])):
            n = d.shape[i]
            c = dict(case, signal=q, axis=i, got=repr(a))
            s.check(a["size"] == n and a["index_in_array"] == i and a["navigate"] == w["navigate"], "size, place and kind of the axis", c)
            if w["name"] is None:
                continue
            s.check(a["name"] == w["name"] and a["units"] == (w["units"] or ""), "name and units", c)
            p, g = positions(w, n).astype(float), positions(a, n)
            tol = 16 * 2.3e-16 * np.abs(p).max() * n
            if w["_type"] == "DataAxis" and n > 1:
                tol += 2e-5 * n * np.abs(np.diff(p)).max()
            s.check(g.shape == p.shape and bool((np.abs(g - p) <= tol).all()), "positions of the axis", c)
            s.check("axis" not in a or w["_type"] == "DataAxis", "a uniform axis", c)
        md = {k: v for k, v in r["metadata"].items() if k != "attrs"}
        wm = copy.deepcopy(want["metadata"])
        wm["General"]["title"] = name(q)
        s.check(differs(wm, md) is None, "the metadata", dict(case, signal=q, got=differs(wm, md)))
        if keep and want["original_metadata"]:
            drop = [skip] if isinstance(skip, str) else skip or []

            def without(x):
                return {k: without(v) if isinstance(v, dict) else v for k, v in x.items() if k not in drop}
            om = {k: v for k, v in r["original_metadata"].items() if k != "attrs"}
            wo = without(want["original_metadata"])
            s.check(differs(wo, om) is None, "the original metadata", dict(case, signal=q, got=differs(wo, om)))


def other(s, fn, it):
    """NXdata of other programs"""
    import h5py
    from rsciio.nexus import file_reader
    rng = s.rng
    nd = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 5) for _ in range(nd))
    names = [n if rng.random() < 0.7 else "." for n in rng.sample(["x", "two_theta", "energy", "t", "q_z"], nd)]
    lazy, form, interp = rng.random() < 0.5, rng.choice(["array", "text", "bytes", "objects"]), rng.choice([None, "spectrum", "image"] if nd > 1 else [None, "spectrum"])
    data = (np.arange(int(np.prod(shape))) % 97).reshape(shape).astype(rng.choice(["u2", ">i4", "f4"]))
    pos, units = {}, {}
    signal = rng.choice(["counts", "data"])
    entries = rng.choice([["entry"], ["a", "b"]])
    with h5py.File(fn, "w") as f:
        for e in entries:
            g = f.create_group(e + "/detector 1")
            f[e].attrs["NX_class"], g.attrs["NX_class"], g.attrs["signal"] = "NXentry", b"NXdata", signal
            if interp:
                g.attrs["interpretation"] = interp
            g.create_dataset(signal, data=data)
            g.attrs["axes"] = names if form == "objects" else np.array([n.encode() for n in names]) if form == "array" else ",".join(names) if form == "text" else ",".join(names).encode()
            for i, n in enumerate(names):
                if n == ".":
                    continue
                if n not in pos:
                    pos[n] = rng.choice([lambda k: rnd_positions(rng, k), lambda k: rng.uniform(-5, 5) + rng.choice([0.1, -2, 1e-10]) * np.arange(k),
                                         lambda k: np.arange(k, dtype="u4")[::-1], lambda k: (0.1 * np.arange(k)).astype("f4"),
                                         lambda k: np.array([3.0, 1.0, 2.0, 2.0, 5.0])[:k]])(shape[i])
                    units[n] = rng.choice(["mm", None, b"deg"])
                x = g.create_dataset(n, data=pos[n])
                if units[n] is not None:
                    x.attrs["units"] = units[n]
                k = rng.randrange(3)
                if k:
                    g.attrs[n + "_indices"] = i if k == 1 else np.array([i])
        default = rng.random() < 0.3
        if default and rng.random() < 0.5:
            f.attrs["default"] = entries[-1]
        elif default:
            f.attrs["creator"] = "x"
        if default:
            f[entries[-1]].attrs["default"] = "detector 1"
        root = "default" in f.attrs
    case = dict(shape=shape, axes=names, form=form, interpretation=interp, lazy=lazy, positions={k: repr(v) for k, v in pos.items()}, entries=entries, default=default, root=root)
    s.note(case)
    s.case27 = case
    res = file_reader(fn, lazy=lazy, nxdata_only=True, use_default=default)
    number = 1 if default and (root or len(entries) == 1) else len(entries)
    if number == len(entries):
        # one by its path, some by a part of it
        shutil.copy(fn, fn + "2")
        fn += "2"
        with h5py.File(fn, "a") as f:
            for e in ("detector 10", "old detector 1"):
                g = f.create_group(entries[0] + "/" + e)
                g.attrs["NX_class"], g.attrs["signal"] = "NXdata", signal
                g.create_dataset(signal, data=data[:1])
        path = "/%s/detector 1" % entries[0]
        for ask, want in ((path, ["detector 1"]), ([path], ["detector 1"]), ([path + "0", path], ["detector 1", "detector 10"]), ("/none", [])):
            got = [q["metadata"]["General"]["title"] for q in file_reader(fn, lazy=lazy, nxdata_only=True, dataset_path=ask)]
            s.check(got == want, "NXdata chosen by path", dict(case, path=repr(ask), got=got))
        got = [q["metadata"]["General"]["title"] for q in file_reader(fn, lazy=lazy, nxdata_only=True, dataset_key=entries[0] + "/det")]
        s.check(got == ["detector 1", "detector 10"], "NXdata chosen by a part of the path", dict(case, got=got))
    s.check(len(res) == number, "the signals of the file", dict(case, got=len(res)))
    for r in res:
        d = np.asarray(r["data"])
        s.check(hasattr(r["data"], "compute") == lazy and d.dtype == data.dtype and d.shape == shape and bool((d == data).all()), "the data of NXdata", case)
        s.check(r["metadata"]["General"]["title"] == "detector 1" and len(r["axes"]) == nd, "title and axes", dict(case, got=repr(r["axes"])))
        for i, (a, n) in enumerate(zip(r["axes"], names)):
            c = dict(case, axis=i, got=repr(a))
            sig = i >= nd - {"spectrum": 1, "image": 2}[interp] if interp else n == "."
            s.check((a["size"], a["index_in_array"], a["navigate"]) == (shape[i], i, not sig), "size, place and kind of the axis of NXdata", c)
            if n == ".":
                s.check((a["scale"], a["offset"], a["units"]) == (1, 0, ""), "axis without positions", c)
                continue
            u = units[n].decode() if isinstance(units[n], bytes) else units[n] or ""
            s.check((a["name"], a["units"]) == (n, u), "name and units of NXdata", c)
            p = pos[n].astype(float)
            up = np.diff(p)
            if not (len(p) < 2 or (up > 0).all() or (up < 0).all()):
                # positions that are no axis are left out
                s.check("axis" not in a, "positions in no order", c)
                continue
            g = positions(a, len(p))
            eps = 2.3e-16 if pos[n].dtype != np.float32 else 1.2e-7
            tol = 32 * eps * np.abs(p).max() * len(p) + (2e-5 * len(p) * np.abs(up).max() if len(p) > 1 else 0)
            s.check(g.shape == p.shape and bool((np.abs(g - p) <= tol).all()), "positions of NXdata", c)
