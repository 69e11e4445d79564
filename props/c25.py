"""C25: signals saved to Digital Surf files (sur, pro) are read back unchanged."""
import itertools
import os
import shutil
import struct as _struct
import types

from pyvc.arr import ravel_index, unravel_index

from .common import *

ID = "C25"
U = "rsciio/digitalsurf/_api.py"
H = U + ":DigitalSurfHandler."
WRITE = [U + ":file_writer"] + [H + f for f in (
    "_build_sur_file_contents", "_get_n_axes", "_is_spectrum", "_is_binary", "_split_signal_dict", "_norm_data", "_get_Zname_Zunit",
    "_build_workdict", "_append_work_dict_to_content", "_move_values_to_workdict", "_write_sur_file", "_pack_comment", "_pack_private",
    "_pack_data", "_compress_data", "_get_uncompressed_datasize", "_get_comment_dict", "_stringify_dict")]
READ = [U + ":file_reader"] + [H + f for f in (
    "_read_sur_file", "_read_single_sur_object", "_unpack_comment", "_unpack_private", "_unpack_data", "_is_data_int", "_is_data_scaleint",
    "_is_data_bin", "_build_sur_dict", "_build_Xax", "_build_original_metadata", "_build_generic_metadata", "_set_metadata_and_original_metadata")]
F32 = z3.Function("float32", R, R)
NAN = z3.Real("not_a_number")
EPS = z3.RatVal(1, 2 ** 24)
FORMS = {"<h": ("i", 2), "<H": ("u", 2), "<i": ("i", 4), "<I": ("u", 4), "<f": ("f", 4)}
PLAIN = "image", "profile", "spectrum", "lines", "profiles", "images", "map"
DT = {"i1": ("i2", -128, 127), "u1": ("i2", 0, 255), "i2": ("i2", -2 ** 15, 2 ** 15 - 1), "u2": ("i4", 0, 2 ** 16 - 1),
      "i4": ("i4", -2 ** 31, 2 ** 31 - 1), "?": ("i2", 0, 1)}


def single(v):
    """the number in single precision"""
    if not is_sym(v):
        return float(np.float32(v))
    x = re_(v)
    f, a = F32(x), z3.If(x < 0, -x, x)
    assume(z3.And(f - x <= a * EPS, x - f <= a * EPS))
    if isinstance(v, SymInt):
        assume(z3.Implies(z3.And(v.e >= -2 ** 24, v.e <= 2 ** 24), f == x))
    assume(z3.Implies(x == 0, f == 0))
    return SymReal(f)


class Float32:
    """numpy.float32"""
    dtype = np.dtype("f4")

    def __call__(self, v):
        return single(v)

    def __eq__(self, o):
        return np.float32 == o

    def __hash__(self):
        return hash(np.float32)


class Num:
    """the bytes of a number"""

    def __init__(self, fmt, v):
        self.fmt, self.v = fmt, v

    def vc_len(self):
        return FORMS[self.fmt][1]


class Raw:
    """the bytes of an array"""

    def __init__(self, arr):
        self.arr = arr

    def vc_len(self):
        return mk_int(ie(self.arr.size) * self.arr.dtype.itemsize)

    def __radd__(self, o):
        return Blob([self]) if o == b"" else NotImplemented


class Zipped(Raw):
    def __init__(self, arr):
        self.arr = arr
        self.n = fresh_int("compressed", 1)
        assume(self.n < 2 ** 31)

    def vc_len(self):
        return self.n


class Blob:
    """bytes, piece by piece"""

    def __init__(self, parts):
        self.parts = parts

    def vc_len(self):
        n = 0
        for p in self.parts:
            n = n + width(p)
        return n

    def __add__(self, o):
        return Blob(self.parts + (o.parts if isinstance(o, Blob) else [o] if is_sym(width(o)) or width(o) else []))

    def __radd__(self, o):
        return Blob(([o] if o else []) + self.parts)


for _c in (Num, Raw):
    _c.__add__ = lambda self, o: Blob([self]) + o
    _c.__radd__ = lambda self, o: Blob(([o] if not isinstance(o, bytes) or o else []) + [self])


def width(p):
    return len(p) if isinstance(p, (bytes, bytearray)) else p.vc_len()


class Struct:
    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def pack(fmt, *vals):
        if fmt.endswith("s"):
            b, = vals
            if "<sym>" in fmt:
                n = C().ghost["formatted"][-1]
                expect(fmt == "<<sym>s", "bytes")
            else:
                if isinstance(b, bytes):
                    return _struct.pack(fmt, b)
                n = int(fmt.strip("<s"))
            prove(eqi(n, width(b)), "the size in the header is that of the data")
            return b
        expect(fmt in FORMS and len(vals) == 1, "little-endian number")
        kind, n = FORMS[fmt]
        v, = vals
        if not is_sym(v):
            _struct.pack(fmt, v)
            return Num(fmt, v)
        if kind == "f":
            return Num(fmt, v)
        if isinstance(v, SymReal):
            raise _struct.error("required argument is not an integer")
        lo = 0 if kind == "u" else -2 ** (8 * n - 1)
        if not C().fork(z3.And(v.e >= lo, v.e < lo + 2 ** (8 * n))):
            raise _struct.error("argument out of range")
        return Num(fmt, v)

    @staticmethod
    def unpack(fmt, b):
        if isinstance(b, bytes):
            return _struct.unpack(fmt, b)
        expect(isinstance(b, Num), "a number is read where one was written")
        (k0, n0), (k1, n1) = FORMS[b.fmt], FORMS[fmt]
        expect(n0 == n1 and (k0 == "f") == (k1 == "f"), "a number is read with the type it was written in")
        if k0 == "f":
            return single(b.v),
        if k0 != k1:
            prove(z3.And(ie(b.v) >= 0, ie(b.v) < 2 ** (8 * n0 - 1)), "a number is read with the type it was written in")
        return b.v,


class File:
    def __init__(self, disk, name, mode):
        expect("b" in mode, "binary mode")
        self.disk, self.name, self.mode, self.k = disk, name, mode, 0
        if "w" in mode:
            disk[name] = []
        elif name not in disk:
            raise FileNotFoundError(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, b):
        expect("w" in self.mode, "the file is open for writing")
        for p in b.parts if isinstance(b, Blob) else [b]:
            n = width(p)
            if is_sym(n) or n:
                self.disk[self.name].append(p)

    def read(self, n):
        if not is_sym(n) and n == 0:
            return b""
        got = self.disk[self.name]
        expect(self.k < len(got), "nothing is read beyond the end")
        p = got[self.k]
        self.k += 1
        prove(eqi(n, width(p)), "each field is read with the size it was written in")
        return p


class Colours:
    """array of rgb pixels"""

    def __init__(self, dtype, shape, fields):
        self.dtype, self.shape, self.fields = np.dtype(dtype), tuple(shape), fields
        self.ndim = len(shape)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.fields[k]
        return Colours(self.dtype, self.shape[1:], {n: a[k] for n, a in self.fields.items()})

    def __iter__(self):
        return iter([self[k] for k in range(self.shape[0])])

    def __len__(self):
        return self.shape[0]


def looked_at(a):
    """the element of an array at the place looked at"""
    at = C().ghost["at"]
    if a.ndim != len(at):
        expect(a.ndim == 1, "the same elements in one dimension")
        at = (C().ghost["linear"],)
    return a.expr(*at)


def environment():
    disk = {}
    g = C().ghost
    g["quotients"], g["formatted"], g["tobytes"] = [], [], Raw

    def beyond(a, which, v, at):
        e = a.expr(*at)
        inside = v.e <= e if which == 0 else v.e >= e
        return z3.Or(e == NAN, inside) if a.kind == "r" else inside

    def extreme(a, which):
        """min() and max(): not beyond the element looked at, and one of the elements"""
        at = looked_at(a)
        known = [x for x in C().ghost["extremes"] if x[0].eq(at)]
        for e, w, v, o in known:
            if w == which:
                return v
        v = (fresh_real if a.kind == "r" else fresh_int)(("minimum", "maximum")[which])
        assume(beyond(a, which, v, C().ghost["at"]))
        if a.kind == "i":
            assume(v.e == a.expr(*[fresh_int("where", 0).e for _ in range(a.ndim)]))
        for e, w, o, _ in known:
            assume(o.e <= v.e if which else v.e <= o.e)
        C().ghost["extremes"].append((at, which, v, a.copy()))
        return v

    def count(a):
        n = fresh_int("count", 0)
        at = looked_at(a)
        assume(And(z3.Implies(at, n.e >= 1), z3.Implies(n.e >= 1, a.expr(*[fresh_int("some", 0).e for _ in range(a.ndim)]))))
        return n
    g["extremes"], g["extreme"], g["count"] = [], extreme, count

    def isnan(a):
        if isinstance(a, SymArr):
            src = a.copy()
            return SymArr.func(lambda idx: src.expr(*idx) == NAN, a.shape, np.dtype(bool), "isnan") if a.kind == "r" else a != a
        return np.isnan(a)

    def any_(a, *r, **k):
        if isinstance(a, SymArr):
            expect(a.kind == "b" and not r and not k, "any() of an array of truth values")
            b = fresh_bool("any")
            some = [fresh_int("some", 0).e for _ in range(a.ndim)]
            assume(And(z3.Implies(looked_at(a), b.e), z3.Implies(b.e, a.expr(*some))))
            for _, w, v, o in C().ghost["extremes"]:
                assume(beyond(o, w, v, some if a.ndim == o.ndim else unravel_index(some[0], o.shape)))
            return b
        return np.any(a, *r, **k)

    def stack(arrs, axis=0):
        arrs = list(arrs)
        expect(axis == 0 and arrs, "stacked along a first dimension")
        kind = "r" if any(a.kind == "r" for a in arrs) else "i"
        conv = [a.astype(float) if kind == "r" else a for a in arrs]

        def fn(idx):
            e = conv[-1].expr(*idx[1:])
            for i in range(len(conv) - 2, -1, -1):
                e = z3.If(idx[0] == i, conv[i].expr(*idx[1:]), e)
            return e
        return SymArr.func(fn, (len(arrs),) + tuple(arrs[0].shape), np.dtype(float) if kind == "r" else np.result_type(*[a.dtype for a in arrs]),
                           "stack")

    def rollaxis(a, axis, start=0):
        expect(axis == 0 and start == 0, "the first dimension is that of the navigation axis")
        return a

    def frombuffer(b, dtype=float, **k):
        dt = np.dtype(dtype)
        if isinstance(b, Blob):
            expect(len(b.parts) == 1, "all of the data")
            b = b.parts[0]
        expect(type(b) is Raw and not k, "the data are read where they were written")
        expect(b.arr.dtype.newbyteorder("<") == dt.newbyteorder("<") and dt.kind == "i", "the data are read with the type they were written in")
        a = b.arr.ravel()
        return SymArr.func(lambda idx: a.expr(*idx), a.shape, dt, "points")

    def compress(a, *r):
        expect(isinstance(a, SymArr), "an array is compressed")
        return Zipped(a)

    def decompress(z, *r):
        expect(isinstance(z, Zipped), "what was compressed is decompressed")
        return Raw(z.arr)

    def round_(a, *r):
        if isinstance(a, SymArr):
            src = a.copy()
            return SymArr.func(lambda idx: re_(round(SymReal(src.expr(*idx)))), a.shape, np.dtype(float), "round")
        return np.round(a, *r)
    m = load_module(
        U, {"struct": Struct, "zlib": types.SimpleNamespace(compress=compress, decompress=decompress), "deepcopy": lambda x: x,
            "get_date_time_from_metadata": lambda md, formatting=None: md.get("date")},
        np_over={"isnan": isnan, "any": any_, "stack": stack, "rollaxis": rollaxis, "frombuffer": frombuffer, "nan": SymReal(NAN),
                 "nanmin": lambda a: extreme(a, 0), "nanmax": lambda a: extreme(a, 1), "float32": Float32(), "round": round_},
        builtin_over={"open": lambda name, mode="r", *a, **k: File(disk, str(name), mode)})
    return m, disk


def place(at, shape):
    """the place in C order, and back (lemma "place in the file")"""
    C().ghost["linear"] = lin = ravel_index(at, shape)
    if len(at) < 2:
        return
    if len(at) == 3:
        n1, n2 = ie(shape[1]), ie(shape[2])
        row = at[0] * n1 + at[1]
        assume(z3.And(mod_e(lin, n2) == at[2], floordiv_e(lin, n2) == row, mod_e(row, n1) == at[1], floordiv_e(row, n1) == at[0]))
    else:
        n1 = ie(shape[1])
        assume(z3.And(mod_e(lin, n1) == at[1], floordiv_e(lin, n1) == at[0]))


def place_lemma():
    y, x, n = z3.Ints("y x n")
    C().assume(z3.And(n >= 1, x >= 0, x < n, y >= 0))
    prove(z3.And(mod_e(y * n + x, n) == x, floordiv_e(y * n + x, n) == y), "place in the file")


def axis(name, size, navigate, units="nm"):
    return dict(name=name, size=size, navigate=navigate, units=units, scale=fresh_real("scale", inp=True), offset=fresh_real("offset", inp=True))


def same_axis(got, want, name=None):
    expect(got["name"] == want["name"] and got["units"] == want["units"], "name and units of the axis")
    prove(eqi(got["size"], want["size"]), "size of the axis")
    for k in ("scale", "offset"):
        prove(re_(got[k]) == re_(single(want[k])), "%s of the axis, in single precision" % k)


def field(name, dt, shape, nan=False):
    """array whose elements are any of the type"""
    n = len(shape)
    if dt[0] == "f":
        g = z3.Function(name, *([I] * n + [R]))
        gn = z3.Function(name + "_nan", *([I] * n + [B]))
        fn = (lambda idx: z3.If(gn(*idx), NAN, g(*idx))) if nan else (lambda idx: g(*idx))
        return SymArr.func(fn, shape, np.dtype(dt), name)
    if dt == "?":
        g = z3.Function(name, *([I] * n + [B]))
        return SymArr.func(lambda idx: g(*idx), shape, np.dtype(bool), name)
    g = z3.Function(name, *([I] * n + [I]))
    lo, hi = DT[dt][1:]
    return SymArr.func(lambda idx: z3.If(z3.And(g(*idx) >= lo, g(*idx) <= hi), g(*idx), 0), shape, np.dtype(dt), name)


def written(kind, dt, compressed=True, special=False, frames=2, nav=False, units="nm"):
    """each pixel, axis and header field of a signal written is read back"""
    def run():
        m, disk = environment()
        s1, s2, s3 = fresh_int("rows", 1, inp=True), fresh_int("columns", 1, inp=True), fresh_int("channels", 1, inp=True)
        ax = {"image": [("y", s1, nav), ("x", s2, nav)], "profile": [("x", s2, nav)], "spectrum": [("Wavelength", s2, False)],
              "lines": [("line", s1, True), ("Energy", s2, False)], "profiles": [("time", frames, True), ("x", s2, False)],
              "images": [("time", frames, True), ("y", s1, False), ("x", s2, False)],
              "map": [("y", s1, True), ("x", s2, True), ("E", s3, False)]}[kind]
        axes = [axis(*a, units=units) for a in ax]
        series = kind in ("profiles", "images")
        one = [a["size"] for a in axes][1 if series else 0:]
        tot = z3.IntVal(1)
        for a in one[:2]:
            assume(ie(a) < 2 ** 31)
            tot = tot * ie(a)
        assume(tot < 2 ** 31)
        if kind == "map":
            tot = tot * s3.e
        assume(tot < 2 ** 30)             # bytes of an object: a 32 bit number
        if kind == "lines":
            assume(s1 >= 2)
        nan = special and dt[0] == "f"
        if series:
            parts = [field("frame%d" % i, dt, tuple(one), nan) for i in range(frames)]
            data = Frames(parts)
        else:
            parts = [field("data", dt, tuple(one), nan)]
            data = parts[0]
        at = [fresh_int("at", 0, inp=True).e for _ in one]
        for i, n in zip(at, one):
            assume(i < ie(n))
        place(at, one)
        C().ghost["at"] = at
        if dt[0] == "f":
            for i, p in enumerate(parts):
                g = p.expr(*at)
                nn = z3.Function("frame%d_nan" % i if series else "data_nan", *([I] * len(at) + [B]))
                if nan:
                    assume(z3.Implies(z3.Not(nn(*at)), g != NAN))
                else:
                    assume(g != NAN)
        sig = dict(data=data, axes=axes, metadata={"General": {}, "Signal": {"quantity": "Height (um)"}}, original_metadata={})
        m.file_writer("a.sur", sig, is_special=special, compressed=compressed)
        disk_n = len(disk["a.sur"])
        got, = m.file_reader("a.sur")
        expect(disk_n == len(disk["a.sur"]), "reading leaves the file as it was")
        expect(len(got["axes"]) == len(axes), "number of axes")
        for a, b in zip(got["axes"], axes):
            if series and b is axes[0]:
                expect(a["name"] == b["name"] and a["units"] == b["units"] and a["size"] == frames, "name, units and size of the navigation axis")
                f = re_(single(b["scale"]))
                prove(z3.If(f == 0, re_(a["scale"]) == 1, re_(a["scale"]) == f), "scale of the navigation axis")
                prove(re_(a["offset"]) == re_(single(b["offset"])), "offset of the navigation axis")
            elif kind == "map" and b is axes[2]:
                f = re_(single(b["scale"]))
                expect(a["name"] == b["name"] and a["units"] == b["units"], "name and units of the axis")
                prove(And(eqi(a["size"], b["size"]), z3.If(f == 0, re_(a["scale"]) == 1, re_(a["scale"]) == f),
                          re_(a["offset"]) == re_(single(b["offset"]))), "size, scale and offset of the signal axis")
            else:
                same_axis(a, b)
            if not nav:
                expect(a["navigate"] is b["navigate"], "navigation axes stay navigation axes")
        out = got["data"]
        expect([a["index_in_array"] for a in got["axes"]] == list(range(out.ndim)), "dimension of each axis")
        shape = ([frames] if series else []) + list(one)
        expect(out.ndim == len(shape), "number of dimensions of the data")
        for a, b in zip(out.shape, shape):
            prove(eqi(a, b), "shape of the data")
        expect(got["metadata"]["Signal"]["quantity"] == "Height (um)", "quantity")
        om = got["original_metadata"]
        expect(sorted(om) == ["Object_%d_Channel_0" % i for i in range(len(parts))], "a header for each object")
        exact = kind in ("image", "images") and dt[0] != "f"
        for i, p in enumerate(parts):
            e = out.expr(*(([z3.IntVal(i)] if series else []) + at))
            v = p.expr(*at)
            h = om["Object_%d_Channel_0" % i]["Header"]
            expect(h["H05_Object_Type"] == {"image": 3 if dt == "?" else 2, "profile": 1, "spectrum": 20, "lines": 20, "profiles": 1 if i else 4,
                                            "images": 2 if i else 5, "map": 21}[kind], "type of each object")
            if dt == "?":
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if exact:
                prove((e if out.kind == "i" else e) == (v if out.kind == "i" else z3.ToReal(v)), "integers are read back as they were")
            elif dt[0] != "f":
                prove(re_(h["H55_Z_Offset"]) == re_(single(h["H16_Zmin"])), "integers are stored as they are")
                x = e if out.kind == "r" else z3.ToReal(e)
                zm = ie(h["H16_Zmin"])
                if dt == "i4":
                    prove(z3.Implies(z3.And(zm >= -2 ** 24, zm <= 2 ** 24), x == z3.ToReal(v)), "integers are read back as they were")
                    a = z3.If(zm < 0, -zm, zm)
                    prove(z3.And((x - v) * 2 ** 24 <= a, (v - x) * 2 ** 24 <= a), "large integers are read back in the precision of the offset")
                else:
                    prove(x == z3.ToReal(v), "integers are read back as they were")
            else:
                near(e if out.kind == "r" else z3.ToReal(e), v, nan)
    return run


class Frames:
    """array whose first dimension has a few members"""

    def __init__(self, parts):
        self.parts, self.dtype = parts, parts[0].dtype
        self.shape = (len(parts),) + tuple(parts[0].shape)
        self.ndim = len(self.shape)

    def __iter__(self):
        return iter(self.parts)

    def __getitem__(self, k):
        return self.parts[k]

    def __len__(self):
        return len(self.parts)


def near(e, v, nan):
    lo, hi = [[x[2].e for x in C().ghost["extremes"] if x[0].eq(v) and x[1] == w] for w in (0, 1)]
    expect(len(lo) == 1 and len(hi) == 1, "the range of the data is used")
    lo, hi = lo[0], hi[0]
    tol = (hi - lo + z3.If(lo < 0, -lo, lo)) * 2 * EPS
    if nan:
        prove(z3.Implies(v == NAN, e == NAN), "values that are not numbers stay so")      # and no others: NAN is any number
    prove(z3.Or(v == NAN, z3.And(e - v <= tol, v - e <= tol)), "values are read back within the precision of the format")


def colours(dt, series, compressed=True, alpha=False):
    """the colours of each pixel are read back"""
    def run():
        m, disk = environment()
        frames = series or 1
        s1, s2 = fresh_int("rows", 1, inp=True), fresh_int("columns", 1, inp=True)
        assume(z3.And(s1.e < 2 ** 31, s2.e < 2 ** 31, s1.e * s2.e < 2 ** 29))
        at = [fresh_int("at", 0, inp=True).e for _ in range(2)]
        assume(z3.And(at[0] < s1.e, at[1] < s2.e))
        place(at, (s1, s2))
        C().ghost["at"] = at
        axes = ([axis("time", frames, True)] if series else []) + [axis("y", s1, False), axis("x", s2, False)]
        names = "RGBA" if alpha else "RGB"
        one = [{c: field("%s%d" % (c, i), dt, (s1, s2)) for c in names} for i in range(frames)]
        rgb = np.dtype([(c, dt) for c in names])
        parts = [Colours(rgb, (s1, s2), d) for d in one]
        data = Frames(parts) if series else parts[0]
        if series:
            data.dtype = rgb
        sig = dict(data=data, axes=axes, metadata={"General": {}, "Signal": {}}, original_metadata={})
        m.file_writer("a.sur", sig, compressed=compressed)
        got, = m.file_reader("a.sur")
        f = m.DigitalSurfHandler
        expect([getattr(x, "__name__", "") for x in got.get("post_process", [])] == ["post_process_RGB"], "the channels are made colours")
        out, ax = got["data"], got["axes"]
        expect(out.ndim == (4 if series else 3), "number of dimensions of the data")
        c = 3 if series else 0
        where = [1, 2]
        expect(len(ax) == out.ndim and ax[c]["size"] == 3 and ax[c]["navigate"] is True, "the channels are a navigation dimension")
        expect([a["index_in_array"] for a in ax] == list(range(out.ndim)), "dimension of each axis")
        for i, a in zip(where, axes[-2:]):
            same_axis(ax[i], a)
            expect(ax[i]["navigate"] is False, "the dimensions of the image")
            prove(eqi(out.shape[i], a["size"]), "shape of the data")
        expect(out.shape[c] == 3 and (not series or out.shape[0] == frames and ax[0]["size"] == frames and ax[0]["name"] == "time"),
               "shape of the data")
        for t in range(frames):
            for k, ch in enumerate("RGB"):
                idx = [z3.IntVal(t)] + at + [z3.IntVal(k)] if series else [z3.IntVal(k)] + at
                e = out.expr(*idx)
                prove((e if out.kind == "r" else z3.ToReal(e)) == z3.ToReal(one[t][ch].expr(*at)), "colours are read back as they were")
        om = got["original_metadata"]
        expect({k: v["Header"]["H05_Object_Type"] for k, v in om.items()} == {
            "Object_%d_Channel_%d" % (i, j): 10 if j else (12 if i or not series else 18) for i in range(frames) for j in range(3)},
            "the header of each object and channel")
    return run


def zones(compressed):
    """comment, zones and names are written with the sizes the header gives"""
    def run():
        m, disk = environment()
        s2 = fresh_int("columns", 1, inp=True)
        assume(s2 < 2 ** 28)
        C().ghost["at"] = at = [fresh_int("at", 0, inp=True).e]
        assume(at[0] < s2.e)
        place(at, (s2,))
        when = types.SimpleNamespace(weekday=lambda: day)
        day = fresh_int("weekday", 0)
        assume(day < 7)
        for n, lo, hi in (("year", 1, 9999), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59)):
            v = fresh_int(n, lo, inp=True)
            assume(v <= hi)
            setattr(when, n, v)
        C().ghost["formatted"] = shown = []
        data = field("data", "i2", (s2,))
        sig = dict(data=data, axes=[axis("x", s2, False)], metadata={"General": {}, "Signal": {"quantity": "CL Intensity"}, "date": when},
                   original_metadata={"a": 1})
        m.file_writer("a.sur", sig, set_comments="custom", comments={"Stage": {"height": 3, "height_units": "mm", "note": "no"}}, compressed=compressed,
                      object_name="thing", operator_name="someone", absolute=2, private_zone=b" \x00\x01private\xff ", client_zone=b"client\xfe")
        del shown[:]
        got, = m.file_reader("a.sur")
        h = got["original_metadata"]["Object_0_Channel_0"]
        expect(h["Parsed"] == {"Stage": {"height": 3, "height_units": "mm", "note": "no"}}, "comments")
        h = h["Header"]
        expect((h["H06_Object_Name"], h["H07_Operator_Name"], h["H12_Absolute"]) == ("thing", "someone", 2), "names")
        expect(h["H52_Client_zone"] == b"client\xfe".ljust(128, b"\0"), "client zone")
        expect(h["H51_Private_size"] == 12 and b" \x00\x01private\xff " in disk["a.sur"], "private zone")
        for k, n in (("H45_Year", "year"), ("H44_Month", "month"), ("H43_Day", "day"), ("H42_Hours", "hour"), ("H41_Minutes", "minute"),
                     ("H40_Seconds", "second")):
            prove(eqi(h[k], getattr(when, n)), "date and time")
        expect([x.e.get_id() for x in shown[:3]] == [getattr(when, n).e.get_id() for n in ("year", "month", "day")], "the date is that in the file")
        md = got["metadata"]
        expect(md["Signal"]["quantity"] == "CL Intensity" and md["Signal"]["signal_type"] == "CL", "quantity and type of signal")
        expect(md["General"]["authors"] == "someone", "authors")
        e = got["data"].expr(*at)
        prove((e if got["data"].kind == "r" else z3.ToReal(e)) == z3.ToReal(data.expr(*at)), "integers are read back as they were")
    return run


def foreign(kind, bits, special):
    """values of files of other programs: (points - Zmin) * spacing / ratio + offset"""
    def run():
        m, disk = environment()
        s1, s2 = fresh_int("rows", 1, inp=True), fresh_int("columns", 1, inp=True)
        assume(z3.And(s1.e < 2 ** 31, s2.e < 2 ** 31, s1.e * s2.e < 2 ** 29))
        dims = [s1, s2] if kind != 1 else [s2]
        C().ghost["at"] = at = [fresh_int("at", 0, inp=True).e for _ in dims]
        assume(And(*[i < ie(n) for i, n in zip(at, dims)]))
        if kind == 20:
            assume(s1 > 1)
        place(at, dims)
        axes = [axis("y", s1, kind == 20), axis("Energy" if kind == 20 else "x", s2, False)][-len(dims):]
        data = field("data", "i2" if bits == 16 else "i4", tuple(dims))
        w = m.DigitalSurfHandler("a.sur")
        w.signal_dict = dict(data=data, axes=axes, metadata={"General": {}, "Signal": {}}, original_metadata={})
        w._build_sur_file_contents()
        h, = w._list_sur_file_content
        zmin, scale, ratio, offset = fresh_int("Zmin", inp=True), fresh_real("spacing", inp=True), fresh_real("ratio", inp=True), fresh_real("offset", inp=True)
        assume(z3.And(zmin.e >= -2 ** 31, zmin.e < 2 ** 31, re_(single(ratio)) != 0))
        h.update(_05_Object_Type=kind, _11_Special_Points=int(special), _16_Zmin=zmin, _23_Z_Spacing=scale, _35_Z_Unit_Ratio=ratio,
                 _55_Z_Offset=offset, _08_P_Size=0)
        w._write_sur_file()
        got, = m.file_reader("a.sur")
        e, p = got["data"].expr(*at), data.expr(*at)
        r = e if got["data"].kind == "r" else z3.ToReal(e)
        d = mk_real(re_(single(scale))) / single(ratio)
        z = z3.ToReal(zmin.e)
        want = z3.ToReal(p - zmin.e) * re_(d) + re_(single(offset))
        a = z3.If(z < 0, -z, z)
        ok = z3.And(r - want <= a * EPS, want - r <= a * EPS) if kind == 2 else r == want
        if special:
            prove(z3.If(p == zmin.e - 2, r == NAN, ok), "values as the header describes them, where measured")
        else:
            prove(ok, "values as the header describes them")
    return run


def refused(dt):
    """what the format cannot hold is refused"""
    def run():
        m, disk = environment()
        s2 = fresh_int("columns", 1, inp=True)
        C().ghost["at"] = [fresh_int("at", 0).e]
        place(C().ghost["at"], (s2,))
        g = z3.Function("data", I, R if dt[0] in "c" else I)
        sig = dict(data=SymArr.func(lambda idx: g(*idx), (s2,), np.dtype(dt), "data"), axes=[axis("x", s2, False)],
                   metadata={"General": {}, "Signal": {}}, original_metadata={})
        try:
            m.file_writer("a.sur", sig)
        except m.MountainsMapFileError:
            expect("a.sur" not in disk, "no file is made")
            return
        expect(False, "values that do not fit in 32 bits are refused")
    return run


CONTRACTS = [Contract("place in the file", place_lemma, [])]
for _k in PLAIN:
    _series = _k in ("profiles", "images")
    for _d in ("i1", "u1", "i2", "u2", "i4", "f4", "f8") + (("?",) if _k in ("image", "profile") else ()):
        for _c in (True, False):
            for _s in (False, True):
                CONTRACTS.append(Contract("%s of %s%s%s" % (_k, _d, "" if _c else ", not compressed", ", special points" if _s else ""),
                                          written(_k, _d, _c, _s, frames=1 if _s else 2), WRITE + READ))
        if _k in ("image", "profile"):
            CONTRACTS.append(Contract("%s of %s without signal dimension" % (_k, _d), written(_k, _d, nav=True), WRITE + READ))
CONTRACTS += [Contract("%d %s of booleans" % (_n, _k), written(_k, "?", frames=_n), WRITE + READ) for _k in ("profiles", "images")
              for _n in (1, 3, 5)]
CONTRACTS += [Contract("files of other programs: type %d, %d bits%s" % (_k, _b, ", special points" if _s else ""), foreign(_k, _b, _s), READ)
              for _k in (1, 2, 20) for _b in (16, 32) for _s in (False, True)]
CONTRACTS += [Contract("colours of %s%s%s" % (_d, ", series of %d" % _n if _n else "", ", alpha" if _a else ""), colours(_d, _n, _c, _a),
                       WRITE + READ + [H + "_split_rgbserie", H + "_build_RGB_image_series"] if _n else
                       WRITE + READ + [H + "_split_rgb", H + "_build_RGB_image"])
              for _d in ("u1", "u2") for _n in (0, 1, 2) for _c, _a in ((True, False), (False, False), (True, True))]
CONTRACTS += [Contract("comments and zones" + ("" if _c else ", not compressed"), zones(_c), WRITE + READ) for _c in (True, False)]
CONTRACTS += [Contract("%s refused" % _d, refused(_d), WRITE) for _d in ("u4", "u8", "i8", "c8", "c16")]

ASSUMPTIONS = [
    "floats are mathematical reals; single precision is a rounding with a relative error of at most 2**-24, exact for integers up to 2**24 "
    "(numpy computing in single instead of double precision is looked for by the search)",
    "numpy min, max, nanmin, nanmax, isnan, any, sum of truth values, stack, frombuffer, round and the cast of floats to integers do what numpy "
    "documents; zlib.decompress gives the bytes that were compressed; struct as documented (C05 proves the field functions byte by byte)",
    "an object holds less than 4 GB, and its number of points fits the 32 bit fields of the header",
    "series have 1 to 5 members in the contracts (their sizes are not bounded); names, units, comments and zones are given texts, any in the search",
    "the date is taken from the metadata by get_date_time_from_metadata (C08)",
]

# place in the file of each field of the header: name, offset, struct format
LAYOUT = [("_01_Signature", 0, "12s"), ("_02_Format", 12, "<h"), ("_03_Number_of_Objects", 14, "<H"), ("_04_Version", 16, "<h"),
          ("_05_Object_Type", 18, "<h"), ("_06_Object_Name", 20, "30s"), ("_07_Operator_Name", 50, "30s"), ("_08_P_Size", 80, "<h"),
          ("_11_Special_Points", 86, "<h"), ("_12_Absolute", 88, "<h"), ("_14_W_Size", 94, "<I"), ("_15_Size_of_Points", 98, "<h"),
          ("_16_Zmin", 100, "<i"), ("_17_Zmax", 104, "<i"), ("_18_Number_of_Points", 108, "<i"), ("_19_Number_of_Lines", 112, "<i"),
          ("_20_Total_Nb_of_Pts", 116, "<i"), ("_21_X_Spacing", 120, "<f"), ("_22_Y_Spacing", 124, "<f"), ("_23_Z_Spacing", 128, "<f"),
          ("_24_Name_of_X_Axis", 132, "16s"), ("_25_Name_of_Y_Axis", 148, "16s"), ("_26_Name_of_Z_Axis", 164, "16s"),
          ("_27_X_Step_Unit", 180, "16s"), ("_28_Y_Step_Unit", 196, "16s"), ("_29_Z_Step_Unit", 212, "16s"),
          ("_35_Z_Unit_Ratio", 284, "<f"), ("_40_Seconds", 306, "<h"), ("_41_Minutes", 308, "<h"), ("_42_Hours", 310, "<h"),
          ("_43_Day", 312, "<h"), ("_44_Month", 314, "<h"), ("_45_Year", 316, "<h"), ("_48_Compressed_data_size", 324, "<I"),
          ("_50_Comment_size", 334, "<h"), ("_51_Private_size", 336, "<h"), ("_53_X_Offset", 466, "<f"), ("_54_Y_Offset", 470, "<f"),
          ("_55_Z_Offset", 474, "<f"), ("_56_T_Spacing", 478, "<f"), ("_57_T_Offset", 482, "<f"), ("_58_T_Axis_Name", 486, "13s"),
          ("_59_T_Step_Unit", 499, "13s")]


def objects(raw):
    """the objects of a file, by the description of the format"""
    import zlib
    pos, out = 0, []
    while pos < len(raw):
        h = {}
        for n, o, f in LAYOUT:
            v, = _struct.unpack_from(f, raw, pos + o)
            h[n] = v.decode("latin-1").strip(" \t\n") if isinstance(v, bytes) else v
        pos += 512
        h["comment"] = raw[pos:pos + h["_50_Comment_size"]].decode("latin-1")
        pos += h["_50_Comment_size"]
        h["private"] = raw[pos:pos + h["_51_Private_size"]]
        pos += h["_51_Private_size"]
        if h["_01_Signature"] == "DSCOMPRESSED":
            end = pos + h["_48_Compressed_data_size"]
            n, = _struct.unpack_from("<I", raw, pos)
            sizes = _struct.unpack_from("<%dI" % (2 * n), raw, pos + 4)
            pos += 4 + 8 * n
            b = b""
            for i in range(n):
                piece = zlib.decompress(raw[pos:pos + sizes[2 * i + 1]])
                if len(piece) != sizes[2 * i]:
                    raise ValueError("size of a stream")
                b += piece
                pos += sizes[2 * i + 1]
            if pos != end:
                raise ValueError("size of the compressed data")
        else:
            n = h["_20_Total_Nb_of_Pts"] * max(h["_14_W_Size"], 1) * h["_15_Size_of_Points"] // 8
            b = raw[pos:pos + n]
            pos += n
        h["points"] = np.frombuffer(b, "<i2" if h["_15_Size_of_Points"] == 16 else "<i4")
        if h["points"].size != h["_20_Total_Nb_of_Pts"] * max(h["_14_W_Size"], 1):
            raise ValueError("number of points")
        out.append(h)
    return out


def search(s):
    import copy
    import warnings
    warnings.simplefilter("ignore")
    from rsciio.digitalsurf import file_reader, file_writer
    from rsciio.digitalsurf._api import DigitalSurfHandler
    rng = s.rng
    base = os.path.join(s.tmp, "c25")
    os.makedirs(base)
    path = os.path.join(base, "a.sur")
    kinds = list(PLAIN) + ["rgb", "rgbs"]
    f4 = lambda v: float(np.float32(v))  # noqa: E731

    def word(n):
        return "".join(rng.choice("abcXYZ09µÅé_/") for _ in range(rng.randint(1, n)))

    def num(zero=False):
        return rng.choice([1.0, 0.5, 0.1, 1e-9, 3.7e6, 2, rng.uniform(-5, 5)] + ([0.0, 0] if zero else []))

    def values(dt, shape):
        if dt == "?":
            return np.array([rng.random() < 0.5 for _ in range(int(np.prod(shape)))], bool).reshape(shape)
        n = int(np.prod(shape))
        if np.dtype(dt).kind == "f":
            how = rng.choice(["plain", "plain", "same", "large", "small", "integers", "zero"])
            a = {"plain": lambda: rng.uniform(-3, 7), "same": lambda: 2.5, "large": lambda: rng.uniform(0, 1) * (1e4 if dt == "f2" else 1e25),
                 "small": lambda: rng.uniform(-1, 1) * (1e-3 if dt == "f2" else 1e-20), "integers": lambda: float(rng.randint(0, 5)),
                 "zero": lambda: 0.0}[how]
            return np.array([a() for _ in range(n)]).reshape(shape).astype(dt)
        info = np.iinfo(dt)
        lo, hi = rng.choice([(info.min, info.max), (0, 5), (max(info.min, -9), 3), (info.max - 3, info.max), (info.min, info.min)])
        return np.array([rng.randint(lo, hi) for _ in range(n)], object).reshape(shape).astype(dt)
    try:
        for k in range(s.n(900, 40000)):
            if not s.left():
                break
            kind = kinds[k % len(kinds)]
            dt = rng.choice(["i1", "u1", "i2", "u2", "i4", "f4", "f8", "f2", ">f4"] + (["?"] if kind != "rgb" else []))
            nav = rng.random() < 0.15 and kind in ("image", "profile")
            a, b, c = rng.randint(1, 5), rng.randint(1, 6), rng.randint(1, 4)
            spec = rng.choice(["Wavelength", "Energy", "Energy Loss", "E"])
            if kind == "lines":
                a += 1
            ax = {"image": [(word(8), a, nav), (word(8), b, nav)], "profile": [(word(16), b, nav)], "spectrum": [(spec, b, False)],
                  "lines": [(word(8), a, True), (spec, b, False)], "profiles": [(word(13), a, True), (word(8), b, False)],
                  "images": [(word(13), c, True), (word(8), a, False), (word(8), b, False)],
                  "map": [(word(8), a, True), (word(8), b, True), (rng.choice([spec, word(13)]), c, False)],
                  "rgb": [(word(8), a, False), (word(8), b, False)],
                  "rgbs": [(word(13), c, True), (word(8), a, False), (word(8), b, False)]}[kind]
            ax = [("x" + n if n == "E" and kind not in ("spectrum", "lines", "map") else n, z, v) for n, z, v in ax]
            axes = [dict(name=n, size=z, navigate=v, scale=num(), offset=num(True), units=rng.choice(["", "nm", word(13), "µm"])) for n, z, v in ax]
            shape = tuple(z for _, z, _ in ax)
            special, compressed = rng.random() < 0.4, rng.random() < 0.6
            if kind in ("rgb", "rgbs"):
                dt = rng.choice(["u1", "u2"])
                names = rng.choice(["RGB", "RGB", "RGBA"])
                data = np.zeros(shape, [(n, dt) for n in names])
                for n in names:
                    data[n] = values(dt, shape)
            else:
                data = values(dt, shape)
                if special and data.dtype.kind == "f" and data.size > 1 and rng.random() < 0.7:
                    if kind in ("images", "profiles"):
                        ok = [i for i in range(len(data)) if data[i].size > 1]
                        for i in ok:
                            if rng.random() < 0.6:
                                data[i].flat[rng.randrange(data[i].size)] = np.nan
                    else:
                        data.flat[rng.randrange(data.size)] = np.nan
                if rng.random() < 0.2:
                    data = np.asfortranarray(data)
            md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}}
            q = rng.choice(["", "Height", "CL Intensity", "Height (nm)", "Peak height (µm)", "Area (1/s)"])
            md["Signal"]["quantity"] = q
            date = time = ""
            if rng.random() < 0.6:
                date = "%04d-%02d-%02d" % (rng.randint(1950, 2060), rng.randint(1, 12), rng.randint(1, 28))
                time = "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(1, 59))
                md["General"].update(date=date, time=time)
            extra = dict(private_zone=bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 7]))), client_zone=word(9).encode(),
                         object_name=word(9), operator_name=rng.choice(["", word(20)]), absolute=rng.randint(0, 3))
            comments = {"k%d" % i + word(5): {"a" + word(4): rng.choice([3, 2.5, -7, "text"]) for _ in range(rng.randint(1, 3))}
                        for i in range(rng.randint(0, 3))}
            for v in comments.values():
                for n in list(v):
                    if rng.random() < 0.3:
                        v[n + "_units"] = rng.choice(["nm", "eV", "s-1"])
            sig = dict(data=data, axes=copy.deepcopy(axes), metadata=copy.deepcopy(md), original_metadata={})
            case = dict(kind=kind, data=data.tolist(), dtype=str(data.dtype), axes=axes, metadata=md, special=special, compressed=compressed,
                        comments=comments, extra={n: repr(v) for n, v in extra.items()})
            s.note(case)
            before = data.copy()
            try:
                file_writer(path, sig, set_comments="custom", comments=comments, is_special=special, compressed=compressed, **extra)
                r, = file_reader(path)
                with open(path, "rb") as fh:
                    raw = fh.read()
                objs = objects(raw)
            except (ValueError, TypeError, KeyError, IndexError, AttributeError, OverflowError, _struct.error, NameError) as exc:
                s.fail("saving or reading fails: %r" % exc, case)
                continue
            s.check(repr(sig["axes"]) == repr(axes) and repr(sig["metadata"]) == repr(md) and sig["data"].dtype == before.dtype and
                    (before.dtype.names and (before == sig["data"]).all() or np.array_equal(before, sig["data"], equal_nan=before.dtype.kind == "f")),
                    "saving leaves the signal as it was", case)
            got = r["data"]
            case["got"] = repr((np.asarray(got).tolist(), r["axes"], r["metadata"]))[:3000]
            order = [r["axes"][i] for i in ((1, 2) if kind == "rgb" else (0, 1, 2) if kind == "rgbs" else range(len(r["axes"])))]
            s.check([x["index_in_array"] for x in r["axes"]] == list(range(got.ndim)), "dimension of each axis", case)
            s.check(len(order) == len(axes) and len(r["axes"]) == got.ndim and all(x["size"] == n for x, n in zip(r["axes"], got.shape)),
                    "an axis for each dimension, of its size", case)
            ok = [(x["name"], x["units"], x["size"], x["offset"]) == (y["name"], y["units"], y["size"], f4(y["offset"])) and
                  x["scale"] == f4(y["scale"]) and (nav or kind in ("rgb", "rgbs") or x["navigate"] is y["navigate"])
                  for x, y in zip(order, axes)]
            s.check(all(ok), "axes", case)
            # values
            if kind in ("rgb", "rgbs"):
                img = np.moveaxis(got, 0, -1) if kind == "rgb" else got
                s.check(img.shape == shape + (3,) and all(np.array_equal(img[..., i], data[n]) for i, n in enumerate("RGB")), "colours", case)
                s.check([getattr(f, "__name__", "") for f in r.get("post_process", [])] == ["post_process_RGB"], "colours", case)
            elif got.shape != shape:
                s.fail("shape", case)
            elif data.dtype.kind != "f" and (kind in ("image", "images") or data.dtype.itemsize < 4):
                s.check(np.array_equal(got, data), "integers are read back as they were", case)
            else:
                d = data.astype("f8")
                parts = range(len(d)) if kind in ("profiles", "images") else [...]
                ok = True
                for i in parts:
                    x, y = np.asarray(got[i], "f8"), d[i]
                    lo, hi = np.nanmin(y), np.nanmax(y)
                    nan = np.isnan(y)
                    ok = ok and np.array_equal(np.isnan(x), nan) and bool((np.abs(x - y)[~nan] <= (hi - lo + abs(lo)) * 2.0 ** -23 + 1e-38).all())
                s.check(ok, "values are read back within the precision of the format", case)
            g = r["metadata"]
            s.check(g["Signal"]["quantity"] == q and g["General"]["date"] == date and g["General"]["time"] == time and
                    g["General"]["authors"] == extra["operator_name"], "quantity, date and author", case)
            # the file, by the description of the format
            n = {"profiles": a, "images": c, "rgb": 3, "rgbs": 3 * c}.get(kind, 1)
            om = r["original_metadata"]
            keys = ["Object_%d_Channel_%d" % ((i // 3, i % 3) if kind in ("rgb", "rgbs") else (i, 0)) for i in range(n)]
            s.check(len(objs) == n and sorted(om) == sorted(keys), "objects of the file", case)
            if len(objs) != n or sorted(om) != sorted(keys):
                continue
            ok = all(h["H" + f.lstrip("_")] == o[f] for key, o in zip(keys, objs) for h in [om[key]["Header"]] for f, _, _ in LAYOUT)
            s.check(ok, "header of each object", case)
            o = objs[0]
            s.check(o["private"] == extra["private_zone"] and o["_06_Object_Name"] == extra["object_name"] and o["_12_Absolute"] == extra["absolute"] and
                    raw[338:466] == extra["client_zone"].ljust(128, b"\0") and o["_11_Special_Points"] == int(special), "zones and names", case)
            want = {key: v for key, v in comments.items()}
            s.check(om[keys[0]].get("Parsed", {}) == want, "comments", case)
            ok = all(((o["points"].astype("f8") - o["_16_Zmin"]) * o["_23_Z_Spacing"] / o["_35_Z_Unit_Ratio"] + o["_55_Z_Offset"]).size for o in objs)
            s.check(ok and o["_48_Compressed_data_size"] == (0 if not compressed else o["_48_Compressed_data_size"]), "points of the file", case)
            # several streams
            pts = np.array([rng.randint(-2 ** 15, 2 ** 15 - 1) for _ in range(rng.randint(1, 40))], rng.choice(["i2", "i4"]))
            z = DigitalSurfHandler._compress_data(pts, nstreams=rng.randint(1, 8))
            w = DigitalSurfHandler(path)
            w.signal_dict = dict(data=pts, axes=[dict(name="x", size=pts.size, navigate=False, scale=1.0, offset=0.0, units="")],
                                 metadata={"General": {}, "Signal": {}}, original_metadata={})
            w._build_sur_file_contents()
            h, = w._list_sur_file_content
            zmin, zs, zr, zo = rng.randint(-2 ** 15, 2 ** 15), rng.choice([1.0, 2.0, 0.5]), rng.choice([1.0, 4.0]), rng.choice([0.0, 3.0, -2.5])
            if rng.random() < 0.5:
                zmin = int(pts[0]) + 2
            sp, kd = rng.randint(0, 1), rng.choice([1, 2, 20])
            h.update(_62_points=z, _48_Compressed_data_size=len(z), _16_Zmin=zmin, _23_Z_Spacing=zs, _35_Z_Unit_Ratio=zr, _55_Z_Offset=zo,
                     _05_Object_Type=kd, _11_Special_Points=sp, _08_P_Size=0)
            case = dict(points=pts.tolist(), dtype=str(pts.dtype), zmin=zmin, spacing=zs, ratio=zr, offset=zo, special=sp, type=kd)
            w._write_sur_file()
            try:
                r, = file_reader(path)
            except (ValueError, TypeError, KeyError, IndexError, OverflowError, _struct.error) as exc:
                s.fail("reading several streams fails: %r" % exc, case)
                continue
            want = (pts.astype("f8") - zmin) * (zs / zr) + zo
            if sp:
                want[pts == zmin - 2] = np.nan
            s.check(np.array_equal(np.asarray(r["data"], "f8").ravel(), want, equal_nan=True), "values as the header describes them", case)
        for dt in ("u4", "u8", "i8", "c8", "c16"):
            target = os.path.join(base, "no.sur")
            try:
                file_writer(target, dict(data=np.ones(3, dt), axes=[dict(name="x", size=3, navigate=False, scale=1.0, offset=0.0, units="")],
                                         metadata={"General": {}, "Signal": {}}, original_metadata={}))
                s.fail("values that do not fit are refused", dict(dtype=dt))
            except DigitalSurfHandler.__init__.__globals__["MountainsMapFileError"]:
                s.check(not os.path.exists(target), "no file is made", dict(dtype=dt))
    finally:
        shutil.rmtree(base, ignore_errors=True)
