"""C18: signals saved to EMD files (NCEM variant) are read back unchanged, and EMD files of other programs as they say."""
import os
import shutil

from .common import *

ID = "C18"
N = "rsciio/emd/_emd_ncem.py"
A = "rsciio/emd/_api.py"
F_W = [A + ":file_writer"] + [N + ":EMD_NCEM." + f for f in ("write_file", "_write_signal_to_group", "_write_attributes")]
F_R = [A + ":" + f for f in ("file_reader", "is_EMD_NCEM", "is_EMD_Velox")] + [N + ":read_emd_version"] + \
    [N + ":EMD_NCEM." + f for f in ("read_file", "find_dataset_paths", "_get_emd_group_type", "_read_dataset", "_read_emd_version", "_read_data_from_groups",
                                    "_parse_attribute", "_parse_metadata", "_parse_original_metadata", "_parse_axis")]
# units of the axis, units that are read back (as pint writes them)
UNITS = [("nm", "nm"), ("1/nm", "1 / nm"), ("µm", "µm"), (None, ""), ("", ""), ("keV", "keV"), ("widgets", "widgets"), ("mrad", "mrad"), ("A", "A"), ("s", "s")]
RAW_UNITS = [("[n_m]", "nm"), ("[n_m^-1]", "1 / nm"), ("A", "Å"), ("A^-1", "1 / Å"), ("pixels", "pixel"), (None, None), (b"[n_m]", "nm"), ("[n_m] [s]", "nm * s")]


def real(x):
    return re_(x)


class Block(Sym):
    """array: axis i of it is axis perm[i] of the array `base`"""

    def __init__(self, base, perm, dtype, lazy=False, conv=(), stack=None):
        self.base, self.perm, self.dtype, self.lazy, self.conv, self.stack_of = base, tuple(perm), np.dtype(dtype), lazy, tuple(conv), stack

    def new(self, **k):
        d = dict(base=self.base, perm=self.perm, dtype=self.dtype, lazy=self.lazy, conv=self.conv, stack=self.stack_of)
        d.update(k)
        return Block(**d)

    @property
    def shape(self):
        head = (len(self.stack_of),) if self.stack_of else ()
        return head + tuple(self.base.sizes[p] for p in self.perm)

    ndim = property(lambda self: len(self.shape))

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def transpose(self, *axes):
        if self.stack_of:
            raise Unsupported("transposition of a stack")
        axes = axes[0] if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes
        axes = tuple(axes) or tuple(range(self.ndim))[::-1]
        return self.new(perm=tuple(self.perm[a] for a in axes))

    T = property(transpose)

    def astype(self, t, **k):
        t = np.dtype(t)
        if t == self.dtype:
            return self
        expect(self.dtype.kind == "U" and t.kind == "S", "only texts are converted")
        n = self.dtype.itemsize // 4
        expect(t.itemsize in (0, n) or t.itemsize > n, "texts of any length")
        return self.new(dtype="S%d" % (t.itemsize or n), conv=self.conv + ("S",))

    @property
    def chunks(self):
        if not self.lazy:
            raise AttributeError("chunks")
        return tuple(self.base.blocks[p] for p in self.perm)

    def squeeze(self, *a):
        for n in self.shape:
            prove(ie(n) > 1 if is_sym(n) else n > 1, "no axis of the stack is dropped")
        return self

    def vc_len(self):
        return self.shape[0]


class Base:
    def __init__(self, sizes, tag=0):
        self.sizes, self.tag = sizes, tag
        self.blocks = [(fresh_int("block", 1), fresh_int("block", 1)) for _ in sizes]


class Dim:
    """array of one dimension: number of elements and element by index"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Steps:
    def __init__(self, dim):
        self.dim = dim

    def mean(self):
        n = self.dim.n
        if not is_sym(n) and n == 2:
            return self.dim.fn(1) - self.dim.fn(0)
        prove(ie(n) > 1, "steps between elements")
        # sum of the steps: last element - first element
        return mk_real((real(self.dim.fn(n - 1)) - real(self.dim.fn(0))) / z3.ToReal(ie(n) - 1))


class Attrs(dict):
    def __setitem__(self, k, v):
        if v is None or isinstance(v, dict):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        expect(isinstance(k, str), "name of an attribute")
        dict.__setitem__(self, k, v)

    def modify(self, k, v):
        self[k] = v

    def create(self, k, v, *a, **kw):
        self[k] = v


class D:
    def __init__(self, name, value, **kw):
        self.name, self.value, self.attrs, self.kw = name, value, Attrs(), kw
        self.chunks = kw.get("chunks")
        if self.chunks is True:
            self.chunks = "guessed"
        if isinstance(value, list):
            self.value = Dim(len(value), lambda k, v=value: v[k])

    @property
    def dtype(self):
        return self.value.dtype if isinstance(self.value, Block) else np.dtype("f8")

    @property
    def ndim(self):
        return self.value.ndim if isinstance(self.value, Block) else 1

    @property
    def shape(self):
        return self.value.shape if isinstance(self.value, Block) else (self.value.n,)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(self.value, Dim):
            if isinstance(k, slice):
                if k == slice(None):
                    return self.value
                raise Unsupported("part of an axis")
            if not is_sym(k) and k == -1:
                k = self.value.n - 1
            return self.value.fn(k)
        if k != slice(None) and k != () and k is not Ellipsis:
            raise Unsupported("part of the data")
        return self.value.new(lazy=False)

    def asstr(self, *a):
        d = self

        class Text:
            def __getitem__(self, k):
                v = d[k]
                return v.new(dtype="O", conv=v.conv + ("str",))
        expect(self.dtype.kind == "S", "texts")
        return Text()


class G:
    def __init__(self, name=""):
        self.name, self.attrs, self.items_ = name or "/", Attrs(), {}
        self.path = name

    def walk(self, path, make=False):
        at = self
        for p in [q for q in path.split("/") if q not in ("", ".")]:
            if not isinstance(at, G):
                return None
            if p not in at.items_:
                if not make:
                    return None
                at.items_[p] = G(at.path + "/" + p)
            at = at.items_[p]
        return at

    def require_group(self, name):
        g = self.walk(name, True)
        if not isinstance(g, G):
            raise TypeError("not a group")
        return g

    def create_group(self, name, **k):
        if self.walk(name) is not None:
            raise ValueError("name already exists")
        return self.walk(name, True)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if shape is not None or dtype is not None:
            raise Unsupported("dataset of a given shape or type")
        if self.walk(name) is not None:
            raise ValueError("name already exists")
        head, _, tail = name.rpartition("/")
        g = self.walk(head, True)
        g.items_[tail] = D(g.path + "/" + tail, data, **kw)
        return g.items_[tail]

    def get(self, path, default=None):
        r = self.walk(path)
        return default if r is None else r

    def __getitem__(self, path):
        r = self.walk(path)
        if r is None:
            raise KeyError(path)
        return r

    def __contains__(self, path):
        return self.walk(path) is not None

    def keys(self):
        return sorted(self.items_)

    def __iter__(self):
        return iter(self.keys())

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]

    def visititems(self, f):
        def visit(g, pre):
            for k in sorted(g.items_):
                r = f(pre + k, g.items_[k])
                if r is not None:
                    return r
                if isinstance(g.items_[k], G):
                    r = visit(g.items_[k], pre + k + "/")
                    if r is not None:
                        return r
        return visit(self, "")


class File(G):
    def __init__(self, disk, name):
        G.__init__(self)
        self.disk, self.filename, self.open = disk, name, True

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Disk:
    def __init__(self):
        self.files, self.chunk_call = {}, None

    def File(self, name, mode="r"):
        expect(isinstance(name, str), "name of the file")
        if mode == "w":
            self.files[name] = File(self, name)
        else:
            expect(mode == "r" and name in self.files, "the file is only read")
            self.files[name].open = True
        return self.files[name]

    def load(self):
        def chunks(shape, dtype, signal_axes=None, *a, **k):
            self.chunk_call = (tuple(shape), np.dtype(dtype), sorted(signal_axes))
            return ("chunks",)

        def diff(x, *a, **k):
            x = x.value if isinstance(x, D) else x
            expect(isinstance(x, Dim), "steps of an axis")
            return Steps(x)

        def same(x):
            return x

        def from_array(x, chunks="auto", **k):
            expect(isinstance(x, Block), "the data")
            self.lazy_chunks = chunks
            return x.new(lazy=True)

        def stack(xs, axis=0):
            xs = list(xs)
            expect(axis == 0 and all(isinstance(x, Block) for x in xs), "data of the groups")
            for x in xs[1:]:
                expect(x.perm == xs[0].perm and x.lazy is xs[0].lazy, "data of the groups in the same order of axes")
            return xs[0].new(stack=[x.base.tag for x in xs])
        p = {"h5py:File": self.File, "h5py:Dataset": D, "h5py:Group": G, "h5py:check_string_dtype": lambda t: "str" if np.dtype(t).kind == "S" else None,
             "dask.array:from_array": from_array, "dask.array:transpose": lambda x, *a: x.transpose(*a), "dask.array:stack": stack,
             "dask.array:squeeze": lambda x, *a: x.squeeze(*a),
             "rsciio.emd._emd_ncem:get_signal_chunks": chunks, "rsciio.emd._emd_ncem:is_dask_array": lambda x: isinstance(x, Block) and x.lazy}
        m = load_module(A, instrument=("rsciio.emd._emd_ncem",), patch=p,
                        np_over={"diff": diff, "transpose": lambda x, *a: x.transpose(*a), "stack": stack, "squeeze": lambda x, *a: x.squeeze(*a), "issubdtype": np.issubdtype})
        return m


LISTS = ("data",)
OMS = [{}, {"microscope": {"voltage": 300, "name": "M"}, "user": {"name": "U"}, "sample": {"material": "Si", "none": None, "deep": {"a": 1}}},
       {"user": "me", "comments": {"a b": "c", "n": 3.5}, "other": {"x": 1}}, {"microscope": None}]


def kept(om):
    out = {}
    for n in ("microscope", "sample", "user", "comments"):
        d = om.get(n)
        out[n] = {k: v for k, v in d.items() if v is not None and not isinstance(v, dict)} if isinstance(d, dict) else {}
    return out


def roundtrip(n, dtype, units, lazy_in=False, lazy=False, chunks=None, title="t", om=None, nav=0, signal=None, path="d/f.emd", names=None):
    def run():
        from pathlib import Path
        om_ = om or {}
        disk = Disk()
        m = disk.load()
        sizes = [fresh_int("n%d" % i, 1, inp=True) for i in range(n)]
        base = Base(sizes)
        data = Block(base, range(n), dtype, lazy_in)
        off = [fresh_real("offset%d" % i, inp=True) for i in range(n)]
        sc = [fresh_real("scale%d" % i, inp=True) for i in range(n)]
        nm = names or [None, "x", "Energy", "", "a b"][:n]
        axes = [dict(index_in_array=i, name=nm[i], size=sizes[i], offset=off[i], scale=sc[i], units=units[i % len(units)][0], navigate=i < nav) for i in range(n)]
        attrs = signal or {"signal_type": "EDS_TEM"}
        s = dict(data=data, axes=axes, metadata={"General": {"title": title}, "Signal": dict(attrs)}, original_metadata=om_, attributes={"_lazy": lazy_in})
        kw = {} if chunks is None else {"chunks": chunks}
        name = Path(path) if lazy_in else path
        m.file_writer(name, s, **kw)
        expect(list(disk.files) == [path], "one file")
        f = disk.files[path]
        expect(not f.open, "the file is closed")
        # the file, by the description of the format
        t = title or "__unnamed__"
        g = f.get("signals/" + t)
        expect(isinstance(g, G) and g.attrs.get("emd_group_type") == 1 and set(g.keys()) == {"data"} | {"dim%d" % (k + 1) for k in range(n)}, "members of the group")
        expect(f.attrs.get("version_major") == "0" and f.attrs.get("version_minor") == "2", "version")
        d = g["data"]
        expect(isinstance(d.value, Block) and d.value.base is base and d.value.perm == tuple(range(n))[::-1], "data in the order of the format")
        expect(d.value.dtype == (np.dtype(dtype) if np.dtype(dtype).kind != "U" else np.dtype("S%d" % (np.dtype(dtype).itemsize // 4))), "element type")
        expect(d.kw.get("maxshape") == (None,) * n, "data that can grow")
        if chunks is True:
            expect(d.kw["chunks"] is True, "chunks left to h5py")
        elif chunks is not None:
            expect(tuple(d.kw["chunks"]) == tuple(chunks)[::-1], "chunks asked for")
        elif lazy_in:
            expect(tuple(d.kw["chunks"]) == tuple(b[0] for b in base.blocks)[::-1], "chunks of the lazy data")
        else:
            sh, dt, ax = disk.chunk_call
            expect(d.kw["chunks"] == ("chunks",) and all(a is b for a, b in zip(sh, sizes[::-1])) and dt == d.value.dtype, "chunks of the file")
            expect(ax == sorted(n - 1 - i for i in range(nav, n)), "chunks that hold whole signals")
        for i in range(n):
            x = g["dim%d" % (n - i)]
            expect(x.value.n == 2, "axis of two elements")
            prove(z3.And(real(x.value.fn(0)) == real(off[i]), real(x.value.fn(1)) == real(off[i]) + real(sc[i])), "axis")
            expect(x.attrs["name"] == (nm[i] or "") and x.attrs["units"] == ("[" + "_".join(axes[i]["units"]) + "]" if axes[i]["units"] else ""), "name and units")
        expect({k: dict(f[k].attrs) for k in f.keys() if k != "signals"} == kept(om_), "attributes of the file")
        # and read again
        r = m.file_reader(name, lazy=lazy)
        expect(f.open is lazy, "the file is closed")
        expect(len(r) == 1, "one signal")
        r, = r
        got = r["data"]
        expect(isinstance(got, Block) and got.base is base and got.perm == tuple(range(n)) and got.lazy is lazy and not got.stack_of, "data")
        expect(got.dtype == (np.dtype(dtype) if np.dtype(dtype).kind not in "US" else np.dtype("O")) and got.conv in ((), ("S", "str"), ("str",)), "element type")
        expect(len(r["axes"]) == n, "axes")
        for i, a in enumerate(r["axes"]):
            prove(z3.And(real(a["offset"]) == real(off[i]), real(a["scale"]) == real(sc[i]), eqi(a["size"], sizes[i])), "calibration")
            expect((a["name"], a["units"], a["index_in_array"], a["navigate"]) == (nm[i] or "", units[i % len(units)][1], i, False), "axis")
        expect(r["metadata"]["General"] == {"title": title, "original_filename": "f.emd"}, "title")
        expect(r["metadata"]["Signal"] == {"signal_type": ""}, "signal type")
        q = dict(r["original_metadata"])
        expect(q.pop("EMD_version") == "0.2" and q == kept(om_), "original metadata")
    return run


def foreign(groups, n, first=1, dset="data", ask=None, stack=None, lazy=False, versions="root", dtype="f4", order=1, expected=None):
    """groups: paths; a file of another program, its axes of any length"""
    def run():
        disk = Disk()
        m = disk.load()
        f = disk.files["f.emd"] = File(disk, "f.emd")
        at = f if versions == "root" else f.require_group(groups[0].split("/")[0])
        at.attrs["version_major"], at.attrs["version_minor"] = (1, 0) if first == 0 else (0, 7)
        f.require_group("microscope").attrs["voltage"] = 200
        info = {}
        for k, p in enumerate(groups):
            g = f.require_group(p)
            g.attrs["emd_group_type"] = 1
            # any length, more than one element, one element
            sizes = [1 if (k * n + i + order) % 3 == 2 else fresh_int("n%d_%d" % (k, i), 1 + (k * n + i + order) % 3, inp=True) for i in range(n)]
            base = Base(sizes, k)
            g.create_dataset(dset, data=Block(base, range(n), dtype), chunks=None if k % 2 else ("c",))
            dims = []
            for i in range(n):
                fn = z3.Function("axis%d_%d" % (k, i), I, R)
                u = RAW_UNITS[(k + i + order) % len(RAW_UNITS)]
                x = g.create_dataset("dim%d" % (i + first), data=Dim(sizes[i], lambda j, fn=fn: mk_real(fn(ie(j)))))
                x.attrs["name"] = "axis %d" % i if i % 2 else b"axis %d" % i
                if u[0] is not None:
                    x.attrs["units"] = u[0]
                dims.append((fn, u))
            info[p] = (base, dims)
        f.require_group("other").create_dataset("data", data=Block(Base([fresh_int("m", 1)]), (0,), "f4"))
        kw = {} if stack is None else {"stack_group": stack}
        if ask is not None:
            kw["dataset_path"] = [p + "/" + dset for p in ask] if isinstance(ask, list) else ask + "/" + dset
            given = kw["dataset_path"][:]
        r = m.file_reader("f.emd", lazy=lazy, **kw)
        if isinstance(ask, list):
            expect(kw["dataset_path"] == given, "the list of paths is left alone")
        want = sorted(groups, key=lambda p: p + "/" + dset) if ask is None else ask if isinstance(ask, list) else [ask]
        expect(len(r) == len(want), "a signal for every dataset asked for")
        expect(f.open is lazy, "the file is closed")
        for p, q in zip(want, r):
            base, dims = info[p]
            turned = first == 1 and dset != "datacube"
            idx = list(range(n))[::-1] if turned else list(range(n))
            got = q["data"]
            expect(isinstance(got, Block) and got.base is base and got.perm == tuple(idx) and got.lazy is lazy and not got.stack_of, "data")
            expect(got.dtype == np.dtype(dtype), "element type")
            expect(len(q["axes"]) == n, "axes")
            for i, a in enumerate(q["axes"]):
                fn, u = dims[idx[i]]
                size = base.sizes[idx[i]]
                prove(z3.And(eqi(a["size"], size), real(a["offset"]) == fn(0)), "size and offset")
                prove(z3.If(ie(size) > 1, real(a["scale"]) * z3.ToReal(ie(size) - 1) == fn(ie(size) - 1) - fn(0), real(a["scale"]) == 1), "scale")
                expect((a["name"], a["units"], a["index_in_array"]) == ("axis %d" % idx[i], u[1], i), "name and units")
            expect(q["metadata"]["General"] == {"title": p.split("/")[-1], "original_filename": "f.emd"}, "title")
            expect(q["original_metadata"]["microscope"] == {"voltage": 200}, "original metadata")
            expect(q["original_metadata"]["EMD_version"] == (None if versions != "root" else "1.0" if first == 0 else "0.7"), "version")
    return run


def prismatic(kind, groups, n, lazy=False, zstart=0.0, thick=True):
    """simulation: groups of the same name are a stack along the depth"""
    def run():
        disk = Disk()
        m = disk.load()
        f = disk.files["f.emd"] = File(disk, "f.emd")
        f.require_group("4DSTEM_simulation").attrs.update({"version_major": 0, "version_minor": 5})
        par = f.require_group("4DSTEM_simulation/metadata/metadata_0/original/simulation_parameters")
        ns, th = 4, 0.25
        for k, v in {"ns": ns, "s": th, "zs": zstart, "t": np.array([3, 3, 2]), "c": np.array([(groups * ns * th if thick else 99.) / 2, 1., 1.])}.items():
            par.attrs[k] = v
        where, name, dset = {"realslice": ("realslices", "virtual_detector_depth", "realslice"), "CBED": ("datacubes", "CBED_array_depth", "datacube"),
                             "dpc": ("realslices", "DPC_CoM_depth", "realslice")}[kind]
        sizes = [fresh_int("n%d" % i, 1, inp=True) for i in range(n)]
        dims = [[(fresh_real("o", inp=True), fresh_real("s", inp=True)) for _ in range(n)] for _ in range(groups)]
        for k in range(groups):
            g = f.require_group("4DSTEM_simulation/data/%s/%s%04d" % (where, name, k))
            g.attrs["emd_group_type"] = 1
            b = Base(sizes, k)
            if k == 0:
                base = b
            g.create_dataset(dset, data=Block(b, range(n), "f4"))
            for i in range(n):
                o, s = dims[k][i]
                x = g.create_dataset("dim%d" % (i + 1), data=[o, o + s])
                x.attrs["name"], x.attrs["units"] = "R_%d" % i, "[Å]"
        r, = m.file_reader("f.emd", lazy=lazy)
        cube = dset == "datacube"
        idx = list(range(n)) if cube else list(range(n))[::-1]
        got = r["data"]
        expect(isinstance(got, Block) and got.base is base and got.perm == tuple(idx) and got.lazy is lazy, "data")
        expect(got.stack_of == (list(range(groups)) if groups > 1 else None), "all groups in their order")
        axes = list(r["axes"])
        expect(len(axes) == n + (groups > 1), "axes")
        if groups > 1:
            a = axes.pop(0)
            step = ns * th
            want = (zstart or step, step, "Å") if thick else (0, 1, None)
            expect((a["index_in_array"], a["name"], a["size"], a["navigate"]) == (0, name, groups, True), "axis of the depth")
            expect((a["offset"], a["scale"], a["units"]) == want, "depth")
        for i, a in enumerate(axes):
            o, s = dims[0][idx[i]]
            prove(z3.And(real(a["offset"]) == real(o), real(a["scale"]) == real(s), eqi(a["size"], sizes[idx[i]])), "calibration")
            nav = idx[i] not in ((2, 3) if cube else (0, 1))
            expect((a["name"], a["units"], a["index_in_array"], a["navigate"]) == ("R_%d" % idx[i], "Å", i + (groups > 1), nav), "axis")
        expect(r["metadata"]["General"]["title"] == name.replace("_depth", "") + ("" if groups > 1 else "0000") if groups > 1 else True, "title")
        expect(r["metadata"]["Signal"]["signal_type"] == ("electron_diffraction" if kind == "CBED" else ""), "signal type")
        p = r["original_metadata"]["simulation_parameters"]
        expect((p["numSlices"], p["sliceThickness"], p["zStart"]) == (ns, th, zstart), "parameters")
    return run


CONTRACTS = []
TYPES = ["u1", ">u2", "f4", "c16", "?", "U3", [("R", "u1"), ("G", "u1"), ("B", "u1")], ">f8", "i8", "U1", "U50", "S7", "f2", "c8"]
for _n in range(1, 6):
    for _li in (False, True):
        for _l in (False, True):
            _k = len(CONTRACTS)
            CONTRACTS.append(Contract("saved and read, %d axes%s%s" % (_n, ", lazy" * _li, ", read lazily" * _l),
                                      roundtrip(_n, TYPES[_k % len(TYPES)], UNITS[_k % 10:] + UNITS[:_k % 10], _li, _l, om=OMS[_k % 4], nav=_k % (_n + 1)), F_W + F_R))
for _i, _t in enumerate(TYPES):
    CONTRACTS.append(Contract("saved and read, %s" % (_t,), roundtrip(2, _t, UNITS[_i % 8:], chunks=(None, True, (3, 5))[_i % 3], om=OMS[_i % 4], nav=_i % 3), F_W + F_R))
for _i, _t in enumerate(["", "x_depth", "CBED", "data", "Åé 1.5", "0000", "dim1", "signals"]):
    CONTRACTS.append(Contract("saved and read, title %r" % _t, roundtrip(3, "u2", UNITS[_i:], title=_t, lazy=_i % 2 == 1, om=OMS[_i % 4], nav=2,
                              signal={"signal_type": "", "quantity": "Intensity", "none": None, "deep": {"a": 1}}), F_W + F_R))
for _g in (["data/a"], ["signals/a", "signals/b"], ["b", "x/a", "c/d/bx/a"], ["data/group0000", "data/group0001"], ["a", "ab", "a/c"]):
    for _n in (1, 2, 3, 4):
        for _f in (0, 1):
            _k = len(CONTRACTS)
            CONTRACTS.append(Contract("other program, %s, %d axes, numbered from %d" % (" ".join(_g), _n, _f),
                                      foreign(_g, _n, _f, ("data", "datacube", "counted_datacube", "realslice")[_k % 4], (None, _g[-1], _g[::-1], None)[_k // 2 % 4],
                                              (None, False)[_k % 2], _k % 3 == 0, ("root", "group")[_k // 4 % 2 and len(_g) == 1], order=_k), F_R))
for _kind, _n in (("realslice", 2), ("realslice", 3), ("dpc", 3), ("CBED", 4)):
    for _g in (1, 2, 3):
        for _l in (False, True):
            _k = len(CONTRACTS)
            CONTRACTS.append(Contract("simulation, %s, %d axes, %d groups%s" % (_kind, _n, _g, ", lazy" * _l),
                                      prismatic(_kind, _g, _n, _l, (0.0, 2.5)[_k % 2], _k % 3 != 0), F_R))

ASSUMPTIONS = [
    "h5py is modelled: groups and datasets by path, attributes that do not take None or dictionaries, datasets that hold the array they were given, the mode of the file, "
    "asstr of text datasets; that the library stores and returns the elements is taken from it (the concrete search runs the real library)",
    "get_signal_chunks is replaced by its contract (C06 decides what it returns); here the shape, type and signal axes given to it are obligations",
    "dask from_array, transpose, stack and squeeze, numpy transpose, stack and diff of two or more elements (mean of the steps = (last - first) / (n - 1)) by their documentation",
    "machine arithmetic on offsets and scales is real arithmetic: offset + scale - offset = scale, in floating point to its accuracy",
    "the text of the units read back is the one pint writes; pint is run as it is",
]


def search(s):
    import tempfile

    import dask.array as da
    import h5py
    from rsciio.emd import file_reader, file_writer

    root = tempfile.mkdtemp(prefix="c18-")
    rng = np.random.default_rng(s.rng.randrange(2 ** 32))
    types = ["u1", ">u2", "i4", "f2", "f4", ">f8", "c8", "c16", "?", "U5", "i8", [("R", "u1"), ("G", "u1"), ("B", "u1")], "u4", "S4", "U60"]

    def make(dims, t):
        t = np.dtype(t)
        if t.kind in "US":
            return np.array(["".join(rng.choice(list("abcXYZ 019"), rng.integers(1, t.itemsize // (4 if t.kind == "U" else 1)))).strip() + "q"
                             for _ in range(int(np.prod(dims)))], dtype=t).reshape(dims)
        n = int(np.prod(dims)) * t.itemsize
        raw = rng.integers(0, 2 if t.kind == "b" else 255, n).astype("u1")
        if t.kind in "fc":
            x = rng.normal(size=dims) * 1e3
            return (x + 1j * rng.normal(size=dims) if t.kind == "c" else x).astype(t)
        return np.frombuffer(raw.tobytes(), t).reshape(dims).copy()

    def same(a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "USO":
            a, b = a.astype("U"), b.astype("U")
        return a.shape == b.shape and (a.dtype == b.dtype or a.dtype.kind == "U") and a.tolist() == b.tolist()

    def near(a, b, m=0.0):
        return abs(a - b) <= 1e-9 * abs(b) + 1e-13 * abs(m)

    def saved(i):
        ndim = 1 + i % 5
        dims = tuple(int(x) for x in rng.choice([1, 2, 3, 4, 7, 33][:6 if ndim < 4 else 4], ndim))
        dtype = types[i % len(types)]
        data = make(dims, dtype)
        view = i % 4
        if view == 1:
            data = data[..., ::-1]
        elif view == 2:
            data = np.asfortranarray(data)
        nav = int(rng.integers(0, ndim + 1))
        kinds = [UNITS[int(k)] for k in rng.integers(0, len(UNITS), ndim)]
        cal = [(float(rng.normal() * 10.0 ** rng.integers(-3, 3)), float(rng.normal() * 10.0 ** rng.integers(-3, 3))) for _ in dims]
        if i % 7 == 3:
            cal = [(int(rng.integers(-9, 9)), int(rng.integers(1, 9))) for _ in dims]
        title = ["", "a title", "x_depth", "CBED", "data", "µ é", "0000", "dim1", "signals", "__x__"][i % 10]
        om = OMS[i % len(OMS)]
        lazy_in, lazy = i % 3 == 0, i % 2 == 0
        names = [[None, "x", "Energy", "", "a b"][int(k)] for k in rng.integers(0, 5, ndim)]
        axes = [dict(index_in_array=k, name=names[k], size=dims[k], scale=cal[k][1], offset=cal[k][0], units=kinds[k][0], navigate=k < nav) for k in range(ndim)]
        blocks = tuple(int(rng.integers(1, d + 1)) for d in dims)
        signal = dict(data=da.from_array(data, chunks=blocks) if lazy_in else data, axes=axes,
                      metadata={"General": {"title": title}, "Signal": {"signal_type": "EDS_TEM", "quantity": "I", "deep": {"a": 1}}},
                      original_metadata=om, attributes={"_lazy": lazy_in})
        chunks = [None, None, True, tuple(int(rng.integers(1, d + 1)) for d in dims)][int(rng.integers(0, 4))]
        name = os.path.join(root, "f%d.emd" % (i % 3))
        case = dict(case=i, dims=dims, dtype=str(np.dtype(dtype)), title=title, units=[k[0] for k in kinds], calibration=cal, nav=nav, lazy=lazy, lazy_in=lazy_in,
                    chunks=chunks, blocks=blocks if lazy_in else None, metadata=om)
        s.note(case)
        kw = {} if chunks is None else {"chunks": chunks}
        if i % 5 == 4:
            kw["compression"] = "gzip"
        file_writer(name, signal, **kw)
        with h5py.File(name, "r") as f:
            g = f["signals/" + (title or "__unnamed__")]
            s.check(set(g) == {"data"} | {"dim%d" % (k + 1) for k in range(ndim)} and g.attrs["emd_group_type"] == 1, "members of the group", case)
            s.check((str(f.attrs["version_major"]), str(f.attrs["version_minor"])) == ("0", "2"), "version in the file", case)
            d = g["data"]
            stored = d.asstr()[:] if d.dtype.kind in "SO" else d[:]
            want = data.T.astype("U") if data.dtype.kind in "US" else data.T
            s.check(same(stored, want), "data in the file", case)
            s.check(d.maxshape == (None,) * ndim and d.compression == kw.get("compression"), "options of the dataset", case)
            if chunks is None and lazy_in:
                s.check(d.chunks == blocks[::-1], "chunks of lazy data", dict(case, got=d.chunks))
            elif chunks is None:
                s.check(all(d.chunks[ndim - 1 - k] == dims[k] for k in range(nav, ndim)), "chunks hold whole signals", dict(case, got=d.chunks))
            elif chunks is not True:
                s.check(d.chunks == chunks[::-1], "chunks asked for", dict(case, got=d.chunks))
            for k in range(ndim):
                x = g["dim%d" % (ndim - k)]
                s.check(x.shape == (2,) and near(x[0], cal[k][0]) and near(x[1], sum(cal[k]), cal[k][0]), "axis in the file", case)
                s.check(x.attrs["name"] == (names[k] or ""), "name in the file", case)
        r = file_reader(name, lazy=lazy)
        s.check(len(r) == 1, "one signal", case)
        r = r[0]
        s.check(isinstance(r["data"], da.Array) is lazy, "lazy", case)
        s.check(same(r["data"], data.astype("U") if data.dtype.kind in "US" else data), "data read back", case)
        s.check(len(r["axes"]) == ndim, "number of axes", case)
        for k, a in enumerate(r["axes"]):
            s.check((a["name"], a["units"], a["size"], a["index_in_array"]) == (names[k] or "", kinds[k][1], dims[k], k), "axis read back", dict(case, got=str(a)))
            s.check(near(a["offset"], cal[k][0]) and near(a["scale"], cal[k][1], abs(cal[k][0]) + abs(cal[k][1])), "calibration", dict(case, got=str(a)))
        s.check(r["metadata"]["General"] == {"title": title, "original_filename": os.path.basename(name)}, "title", dict(case, got=str(r["metadata"])))
        s.check(r["metadata"]["Signal"] == {"signal_type": ""}, "signal type", case)
        q = dict(r["original_metadata"])
        s.check(q.pop("EMD_version") == "0.2" and q == kept(om), "original metadata", dict(case, got=str(q)))

    def other(i):
        groups = [["data/a"], ["signals/a", "signals/b"], ["b", "x/a", "c/d/bx/a"], ["data/group0000", "data/group0001"], ["a", "ab", "a/c"], ["v/x", "v/xy", "v/x/z"]][i % 6]
        dset = ["data", "datacube", "counted_datacube", "realslice", "data_1", "diffractionslice"][i // 6 % 6]
        n, first, dtype = int(rng.integers(1, 5)), int(rng.integers(0, 2)), types[int(rng.integers(0, 9))]
        lazy = bool(rng.integers(0, 2))
        name = os.path.join(root, "o%d.emd" % (i % 3))
        info, second = {}, {}
        with h5py.File(name, "w") as f:
            f.attrs["version_major"], f.attrs["version_minor"] = (1, 0) if first == 0 else (0, 7)
            f.require_group("user").attrs["name"] = "N"
            for k, p in enumerate(groups):
                g = f.require_group(p)
                g.attrs["emd_group_type"] = 1
                dims = tuple(int(x) for x in rng.choice([1, 2, 3, 5], n))
                data = make(dims, dtype)
                g.create_dataset(dset, data=data, chunks=None if k % 2 else dims)
                if i % 4 == 0:
                    g.create_dataset(dset + "9", data=make(dims, dtype))
                ax = []
                for q in range(n):
                    start, step, u = float(rng.normal()), float(rng.normal() * 10.0 ** rng.integers(-2, 3)), RAW_UNITS[int(rng.integers(0, len(RAW_UNITS)))]
                    x = g.create_dataset("dim%d" % (q + first), data=start + step * np.arange(dims[q]))
                    x.attrs["name"] = "axis %d" % q if q % 2 else np.bytes_("axis %d" % q)
                    if u[0] is not None:
                        x.attrs["units"] = u[0] if isinstance(u[0], str) else np.bytes_(u[0])
                    ax.append((start, step, u))
                info[p] = (data, ax, dims)
                if i % 4 == 0:
                    second[p] = (g[dset + "9"][:], ax, dims)
            f.create_dataset("none/data", data=np.zeros(3))
        everything = {p + "/" + dset: info[p] for p in groups}
        everything.update({p + "/" + dset + "9": second[p] for p in second})
        ask = [None, None, groups[-1] + "/" + dset, [p + "/" + dset for p in groups[::-1]]][int(rng.integers(0, 4))]
        stack = [None, False][int(rng.integers(0, 2))]
        kw = {} if ask is None else {"dataset_path": ask}
        if stack is not None:
            kw["stack_group"] = stack
        case = dict(case=i, groups=groups, dataset=dset, dims={p: v[2] for p, v in info.items()}, first=first, dtype=str(dtype), lazy=lazy, keywords=str(kw))
        s.note(case)
        r = file_reader(name, lazy=lazy, **kw)
        want = [ask] if isinstance(ask, str) else ask if ask else sorted(everything)
        s.check(len(r) == len(want), "a signal for every dataset", dict(case, got=len(r)))
        order = {}
        for p, q in zip(want, r):
            data, ax, dims = everything[p]
            turned = first == 1 and os.path.basename(p) != "datacube"
            idx = list(range(n))[::-1] if turned else list(range(n))
            s.check(isinstance(q["data"], da.Array) is lazy, "lazy", case)
            s.check(same(q["data"], data.transpose(idx)), "data", dict(case, signal=p))
            s.check(len(q["axes"]) == n, "number of axes", case)
            for k, a in enumerate(q["axes"]):
                start, step, u = ax[idx[k]]
                size = dims[idx[k]]
                s.check((a["name"], a["units"], a["size"], a["index_in_array"]) == ("axis %d" % idx[k], u[1], size, k), "axis", dict(case, signal=p, got=str(a)))
                s.check(near(a["offset"], start) and near(a["scale"], step if size > 1 else 1, abs(start) + abs(step * size)), "calibration", dict(case, signal=p, got=str(a)))
            s.check(q["metadata"]["General"]["title"] == p.split("/")[-2], "title", dict(case, got=str(q["metadata"])))
            s.check(q["original_metadata"] == {"EMD_version": "1.0" if first == 0 else "0.7", "user": {"name": "N"}}, "original metadata", case)

    def simulation(i):
        kinds = {"realslice": ("realslices", "virtual_detector_depth", "realslice", 3), "annular": ("realslices", "annular_detector_depth", "realslice", 2),
                 "dpc": ("realslices", "DPC_CoM_depth", "realslice", 3), "CBED": ("datacubes", "CBED_array_depth", "datacube", 4)}
        name = os.path.join(root, "p%d.emd" % (i % 3))
        lazy, zs, thick = bool(i % 2), (0.0, 2.5)[i // 2 % 2], i % 3 != 0
        ns, th = int(rng.integers(1, 9)), float(rng.uniform(0.1, 2))
        chosen = sorted(rng.choice(sorted(kinds), int(rng.integers(1, 5)), replace=False).tolist(), key=lambda k: ("4DSTEM_simulation/data/" + kinds[k][0], kinds[k][1]))
        groups = int(rng.integers(1, 5))
        info = {}
        total = groups * ns * th if thick else groups * ns * th * 1.5 + 1
        with h5py.File(name, "w") as f:
            f.require_group("4DSTEM_simulation").attrs.update({"version_major": 0, "version_minor": 5})
            par = f.require_group("4DSTEM_simulation/metadata/metadata_0/original/simulation_parameters")
            for k, v in {"ns": ns, "s": th, "zs": zs, "t": np.array([3, 3, 2]), "c": np.array([total / 2, 1.0, 1.0]), "E": 80.0}.items():
                par.attrs[k] = v
            for kind in chosen:
                where, stem, dset, n = kinds[kind]
                dims = tuple(int(x) for x in rng.choice([1, 2, 3, 4], n))
                data = [make(dims, "f4") for _ in range(groups)]
                ax = [(float(rng.normal()), float(rng.uniform(0.1, 2))) for _ in dims]
                for k in range(groups):
                    g = f.require_group("4DSTEM_simulation/data/%s/%s%04d" % (where, stem, k))
                    g.attrs["emd_group_type"] = 1
                    g.create_dataset(dset, data=data[k])
                    for q in range(n):
                        x = g.create_dataset("dim%d" % (q + 1), data=ax[q][0] + ax[q][1] * np.arange(max(dims[q], 2))[:dims[q]])
                        x.attrs["name"], x.attrs["units"] = "R_%d" % q, "[n_m]"
                info[kind] = (data, ax, dims)
        case = dict(case=i, simulation=chosen, groups=groups, dims={k: v[2] for k, v in info.items()}, lazy=lazy, zs=zs, thick=thick)
        s.note(case)
        r = file_reader(name, lazy=lazy)
        s.check(len(r) == len(chosen), "a signal for every kind of output", dict(case, got=len(r)))
        for kind, q in zip(chosen, r):
            data, ax, dims = info[kind]
            where, stem, dset, n = kinds[kind]
            idx = list(range(n)) if dset == "datacube" else list(range(n))[::-1]
            want = [d.transpose(idx) for d in data]
            s.check(same(q["data"], np.stack(want) if groups > 1 else want[0]), "data of the simulation", dict(case, signal=kind, got=q["data"].shape))
            axes = list(q["axes"])
            s.check(len(axes) == n + (groups > 1), "axes of the simulation", dict(case, signal=kind))
            if groups > 1:
                a = axes.pop(0)
                step = ns * th
                o, sc, u = (zs or step, step, "Å") if thick else (0, 1, None)
                s.check(near(a["offset"], o) and near(a["scale"], sc) and (a["units"], a["size"], a["navigate"], a["name"], a["index_in_array"]) == (u, groups, True, stem, 0),
                        "depth", dict(case, signal=kind, got=str(a)))
            for k, a in enumerate(axes):
                o, sc = ax[idx[k]]
                size = dims[idx[k]]
                nav = idx[k] not in ((2, 3) if dset == "datacube" else (0, 1))
                s.check((a["name"], a["units"], a["size"], a["index_in_array"], a["navigate"]) == ("R_%d" % idx[k], "nm", size, k + (groups > 1), nav), "axis of the simulation",
                        dict(case, signal=kind, got=str(a)))
                s.check(near(a["offset"], o) and near(a["scale"], sc if size > 1 else 1, abs(o) + abs(sc * size)), "calibration of the simulation", dict(case, signal=kind, got=str(a)))
            s.check(q["metadata"]["Signal"]["signal_type"] == ("electron_diffraction" if kind == "CBED" else ""), "signal type", case)

    try:
        for i in range(s.n(420, 4200)):
            if not s.left():
                break
            try:
                (saved, other, simulation)[i % 3](i // 3)
            except (OSError, KeyError, TypeError, ValueError, AttributeError, IndexError, RuntimeError, UnicodeError) as e:
                s.fail("exception %s: %s" % (type(e).__name__, e), dict(case=i, kind=i % 3))
    finally:
        shutil.rmtree(root, ignore_errors=True)
