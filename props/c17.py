"""C17: signals saved to Semper files are read back unchanged."""
import itertools
import os
import shutil
import struct as _struct
import types

from pyvc.binfile import entails

from .common import *

ID = "C17"
U = "rsciio/semper/_api.py"
S_ = U + ":SemperFormat."
FN = [S_ + f for f in ("from_signal", "_check_format", "save_to_unf", "_get_label", "load_from_unf", "_read_label", "to_dictionary",
                       "_convert_date_time_from_label")] + [U + ":" + f for f in ("_read_data", "file_reader", "file_writer")]
FORM = {"i1": ("i1", 0), "i2": ("i2", 1), ">i2": ("i2", 1), "f4": ("f4", 2), ">f4": ("f4", 2), "f2": ("f4", 2), "c8": ("c8", 3), ">c8": ("c8", 3),
        "i4": ("i4", 4), ">i4": ("i4", 4)}
F32 = z3.Function("float32", R, R)


class Packed:
    """a number in the bytes of a file"""

    def __init__(self, fmt, v):
        self.fmt, self.v = fmt, v

    def vc_len(self):
        return 4


class Token(Sym):
    """a byte of a 32 bit float, as a number"""

    def __init__(self, v, i):
        self.v, self.i = v, i


def pack(fmt, v):
    expect(fmt == "<f", "a little-endian float")
    return [Token(v, i) for i in range(4)]


def unpack(fmt, xs):
    xs = list(xs)
    expect(fmt == "<f" and len(xs) == 4, "the four bytes of a little-endian float")
    if not isinstance(xs[0], Token):
        return _struct.unpack("<f", bytes(xs))[0]
    expect(all(isinstance(x, Token) and x.v is xs[0].v and x.i == i for i, x in enumerate(xs)), "the bytes of one number, in their order")
    v = xs[0].v
    return mk_real(F32(re_(v)))


class Rec:
    """structured array with one record, of integers"""

    def __init__(self, dtype, values=None):
        self.dtype = np.dtype(dtype)
        self.values = {}
        for n in self.dtype.names:
            t = self.dtype.fields[n][0]
            a = np.zeros((1,) + t.shape, object) if values is None else values[n].copy()
            self.values[n] = a

    shape = (1,)

    def __len__(self):
        return 1

    def fit(self, n):
        for x in self.values[n].flat:
            if isinstance(x, Token):
                continue
            if is_sym(x):
                if not C().fork(z3.And(ie(x) >= -2 ** 15, ie(x) < 2 ** 15)):
                    raise OverflowError("Python integer out of bounds for int16")
            elif not -2 ** 15 <= int(x) < 2 ** 15:
                raise OverflowError("Python integer %r out of bounds for int16" % (x,))

    def __setitem__(self, n, v):
        a = self.values[n]
        if isinstance(v, (list, tuple)):
            b = np.empty(len(v), object)
            for i, x in enumerate(v):
                b[i] = x
            a[...] = b
        else:
            for i in np.ndindex(a.shape):
                a[i] = v
        self.fit(n)

    def __getitem__(self, n):
        rec = self

        class Field:
            shape = rec.values[n].shape

            def __len__(self):
                return 1

            def __getitem__(self, k):
                return rec.values[n][k]

            def __setitem__(self, k, v):
                a = rec.values[n]
                b = np.empty(len(v), object)
                for i, x in enumerate(v):
                    b[i] = x
                a[k] = b
                rec.fit(n)
        return Field()

    def tobytes(self):
        return self

    def vc_len(self):
        return self.dtype.itemsize


class Pixels(Sym):
    """array whose elements are known by their place"""

    def __init__(self, shape, dtype, native=None, view=None):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)

    ndim = property(lambda self: len(self.shape))

    def astype(self, dt, **k):
        return Pixels(self.shape, dt)

    def min(self):
        return C().ghost["range"][0]

    def max(self):
        return C().ghost["range"][1]

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if all(k is None for k in key):
            return Pixels((1,) * len(key) + self.shape, self.dtype)
        key = tuple(k for k in key if not (isinstance(k, slice) and k == slice(None)) and k is not Ellipsis)
        expect(len(key) == 2 and self.ndim == 3, "a row")
        for k, n in zip(key, self.shape):
            prove(z3.And(ie(k) >= 0, ie(k) < ie(n)), "a row of the data")
        return Row(key, self.shape[2], self.dtype)

    def squeeze(self):
        return Pixels([n for n in self.shape if is_sym(n) or n != 1], self.dtype)


class Row(Sym):
    def __init__(self, at, n, dtype):
        self.at, self.n, self.dtype = at, n, dtype

    def tobytes(self):
        return self

    def vc_len(self):
        return self.n * self.dtype.itemsize


class Read(Pixels):
    """array that is filled row by row"""

    def __init__(self, shape, dtype):
        super().__init__(shape, dtype)
        self.rows = []

    def vc_havoc(self):
        self.rows = []

    def __setitem__(self, key, row):
        C().may_write(self) if hasattr(C(), "may_write") else None
        key = tuple(k for k in key if not (isinstance(k, slice) and k == slice(None)))
        expect(len(key) == 2 and isinstance(row, Row), "a row is set")
        prove(eqi(row.n, self.shape[2]), "a row has the columns of the data")
        self.rows.append((key, row))


class Part(Sym):
    """the elements read from a record"""

    def __init__(self, row, count):
        self.row, self.count = row, count

    def __getitem__(self, k):
        expect(isinstance(k, slice) and k.start is None and k.step is None, "the first elements")
        if k.stop is not None:
            prove(z3.And(ie(k.stop) <= ie(self.count), ie(k.stop) == ie(self.row.n)), "the elements of the row")
        else:
            prove(ie(self.count) == ie(self.row.n), "the elements of the row")
        return self.row


class File(Sym):
    """pieces one after another; the rows written by a loop are known by their number"""

    def __init__(self, disk, name, mode):
        expect(mode in ("rb", "wb"), "binary files")
        self.disk, self.mode, self.pos, self.closed = disk, mode, 0, False
        self.inside = False
        if mode == "wb":
            disk["pieces"] = []
        self.cur = disk["pieces"] if mode == "wb" else None
        disk["opened"] = name
        disk["files"] = disk.get("files", []) + [self]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def vc_havoc(self):
        self.pos = fresh_int("pos")
        self.cur = []

    def tell(self):
        return self.pos

    def seek(self, n):
        self.pos = n

    def write(self, x):
        expect(not self.closed and self.mode == "wb", "the file is open")
        n = vlen_(x)
        if isinstance(x, SymBytes):
            # padding
            for count in (0, 1):
                if entails(eqi(n, count)):
                    if count:
                        prove(ie(x[0]) == 0, "padding")
                    x, n = bytes(count), count
                    break
        if is_sym(n) or n:
            self.cur.append((self.pos, n, x))
            self.pos = self.pos + n

    def next(self):
        expect(not self.closed and self.mode == "rb", "the file is open")
        g = self.disk
        for pos, n, x in g["pieces"]:
            if entails(eqi(pos, self.pos)):
                self.pos = pos + n
                return x
        if g.get("rows") is not None:
            base, at = g["rows"], g["at"]
            start = base + number_of(g, at) * g["record"]
            off = 0
            for n, x in record(g, at):
                if entails(ie(self.pos) == ie(start + off)):
                    self.pos = start + off + n
                    return x
                off = off + n
        expect(False, "the file is read at a place where a piece begins")
        raise PathEnd("no piece")

    def read(self, n):
        x = self.next()
        prove(eqi(vlen_(x), n), "a whole piece is read")
        return x


def vlen_(x):
    from pyvc.sym import vlen
    return vlen(x)


def number_of(g, at):
    return at[0] * g["shape"][1] + at[1]


def record(g, at):
    """what lies in the file for one row"""
    n = g["shape"][2] * g["dtype"].itemsize
    if g["odd"]:
        n = n + 1
    out = [(4, Packed("<i", n)), (g["shape"][2] * g["dtype"].itemsize, Row(at, g["shape"][2], g["dtype"]))]
    if g["odd"]:
        out.append((1, b"\0"))
    return out + [(4, Packed("<i", n))]


def environment(disk, dask):
    def zeros(shape, dtype=float, **k):
        dt = np.dtype(dtype)
        if dt.names:
            return Rec(dt)
        return np.zeros(shape, dtype)

    def fromfile(f, dtype=float, count=-1):
        if isinstance(dtype, list) or np.dtype(dtype).names:
            x, dt = f.next(), np.dtype(dtype)
            expect(isinstance(x, Rec) and count == 1 and [(n, x.dtype.fields[n]) for n in x.dtype.names] == [(n, dt.fields[n]) for n in dt.names],
                   "a record is read with the layout it was written in")
            return Rec(dt, x.values)
        dt = np.dtype(dtype)
        if dt == np.dtype("c"):
            x = f.next()
            expect(isinstance(x, bytes) and len(x) == count, "the title")
            return np.frombuffer(x, "c")
        x = f.next()
        if isinstance(x, Packed):
            expect(not is_sym(count) and count == 1 and dt == np.dtype("<i4"), "a length is read as it was written")
            return [x.v]
        expect(isinstance(x, Row) and dt.newbyteorder("=") == x.dtype and dt.isnative, "elements are read with the type they have")
        if disk["odd"]:
            # a count that reaches to the end of the record takes the padding with it
            prove(z3.Or(ie(count) * dt.itemsize == ie(x.n) * dt.itemsize, ie(count) * dt.itemsize == ie(x.n) * dt.itemsize + 1), "the elements of the row")
            if not entails(ie(count) == ie(x.n)):
                f.pos = f.pos + 1
        else:
            prove(ie(count) == ie(x.n), "the elements of the row")
        return Part(x, count)

    def frombuffer(x, dtype=float, **k):
        expect(isinstance(x, Packed) and np.dtype(dtype) == np.dtype("<i4"), "a length is read as it was written")
        return [x.v]

    def empty(shape, dtype=float, **k):
        disk["read"] = Read(shape, dtype)
        return disk["read"]

    class Delayed:
        def __init__(self, fn):
            self.fn = fn

        def __call__(self, *a, **k):
            self.a, self.k = a, k
            return self

    def from_delayed(task, shape, dtype=None, **k):
        class Lazy(Pixels):
            pass
        out = Lazy(shape, dtype)
        dask.append((task, tuple(shape), np.dtype(dtype)))
        return out

    struct = types.SimpleNamespace(pack=lambda fmt, v: Packed(fmt, v), unpack=_struct.unpack)
    return load_module(U, {"struct": struct, "pack_to_intbytes": pack, "unpack_from_intbytes": unpack},
                       np_over={"zeros": zeros, "fromfile": fromfile, "frombuffer": frombuffer, "empty": empty,
                                "asanyarray": lambda a, *r, **k: a, "asarray": lambda a, *r, **k: a},
                       builtin_over={"open": lambda name, mode="r", *a, **k: File(disk, name, mode)},
                       instrument=("rsciio.utils._array",), patch={"dask:delayed": Delayed, "dask.array:from_delayed": from_delayed})


def loops(disk):
    """the loops over layers and rows, while writing and reading: record number layer * rows + row lies at its place"""
    def current():
        return disk["files"][-1]

    def where(fn, loc, it):
        return is_sym(vlen_(it))

    def which():
        """layers or rows"""
        if disk.get("layer") is not None:
            return 1
        return 0 if is_sym(disk["shape"][0]) else 1

    spec = {}

    def make(level):
        def mine(fn, loc, it):
            return (hasattr(it, "vc_len") or isinstance(it, Sym)) and is_sym(vlen_(it)) and which() == level

        def setup(v):
            if disk.get("base") is None or disk.get("base_of") is not current():
                disk["base"], disk["base_of"] = current().pos, current()

        def inv(v, k):
            f = current()
            at = (disk["layer"], k) if level and disk.get("layer") is not None else (0, k) if level else (k, 0)
            out = {"place of the record": ie(f.pos) == ie(disk["base"] + number_of(disk, at) * disk["record"])}
            if disk.get("iteration") is not None and disk["iteration"][0] == level:
                here = disk["iteration"][1]
                done(disk, f, here)
            return out

        def on_item(v, k, item):
            prove(ie(item) == ie(k), "the layers and rows in their order")
            if not level:
                disk["layer"] = k
                if is_sym(disk["shape"][1]):
                    return
            here = (disk["layer"] if disk.get("layer") is not None else 0, k if level else 0)
            disk["at"] = here
            disk["iteration"] = (level, here)

        def after(v, k):
            if level == 0 or disk.get("layer") is None:
                if current().mode == "wb":
                    disk["rows"] = disk["base"]
                    current().cur = disk["pieces"]
                else:
                    disk["all_read"] = True
            disk["iteration"] = None

        def mutates(v):
            return [current()] + ([disk["read"]] if disk.get("read") is not None else [])
        return LoopSpec("layers" if not level else "rows", inv, where=mine, setup=setup, on_item=on_item, after=after, mutates=mutates)
    C().run.loop_specs = [make(0), make(1)]


def done(disk, f, here):
    """the iteration wrote, or read, the record of one row"""
    if f.mode == "wb":
        check_record(disk, f.cur, here)
    else:
        check_read(disk["read"], here)


def check_record(disk, pieces, here):
    want = record(disk, here)
    got = [(n, x) for _, n, x in pieces]
    expect(len(got) == len(want), "length, elements and length of the row")
    for (n, x), (wn, w) in zip(got, want):
        expect(type(x) is type(w), "length, elements and length of the row")
        prove(eqi(n, wn), "size of a piece of the record")
        if isinstance(w, Packed):
            expect(x.fmt == "<i", "lengths are little-endian numbers of 32 bits")
            prove(eqi(x.v, w.v), "the length of the record")
        elif isinstance(w, Row):
            expect(x.dtype == w.dtype and x.dtype.isnative, "element type and byte order in the file")
            prove(z3.And([eqi(a, b) for a, b in zip(x.at, w.at)]), "the row of the data")
        else:
            expect(x == w, "padding")


def check_read(data, here):
    expect(len(data.rows) == 1, "each row is read once")
    (k, j), row = data.rows[0]
    prove(z3.And(eqi(k, here[0]), eqi(j, here[1]), eqi(row.at[0], here[0]), eqi(row.at[1], here[1])), "the row is read to its place")


TITLES = ["", "a title", "x" * 200, "\u00b5m \u00e5", "y" * 1500, "\u00e9" * 700, "\U0001d4d0", None]
DATES = [("2016-08-06", "11:55:00", "11:55:00"), ("1999-12-31", "23:59:58.25", "23:59:58"), ("2024-02-29", "01:02:03+01:00", "01:02:03"),
         ("2024-02-29", "01:02:03.5Z", "01:02:03"), None]
UNITS = [("nm", "eV", "1/nm"), (None, "\u00b5m", "s"), ("\u00c5", "counts", "<undefined>"), ("\U0001d4d0", "", None)]


def roundtrip(one, ndim, dtype, lazy, title, date, units, navigate, rng, odd):
    """one: which dimensions are 1"""
    def run():
        dims = tuple(1 if c else fresh_int("n%d" % i, 2, inp=True) for i, c in enumerate(one))
        for d in dims:
            if is_sym(d):
                assume(d < 2 ** 15)
        dt, form = FORM[dtype]
        full = (1,) * (3 - ndim) + dims
        if dt == "i1" and is_sym(full[2]):
            half = fresh_int("half", 0)
            assume(mk_bool(ie(full[2]) == 2 * half.e + (1 if odd else 0)))
        disk, dask = {"shape": full, "dtype": np.dtype(dt), "odd": dt == "i1" and (odd if is_sym(full[2]) else True)}, []
        n = full[2] * disk["dtype"].itemsize
        disk["record"] = n + 8 + (1 if disk["odd"] else 0)
        m = environment(disk, dask)
        C().ghost["range"] = rng
        loops(disk)
        cal = [(fresh_real("scale%d" % i, inp=True), fresh_real("offset%d" % i, inp=True)) for i in range(ndim)]
        axes = [dict(index_in_array=i, name="axis%d" % i, size=dims[i], scale=cal[i][0], offset=cal[i][1], units=units[i],
                     navigate=i < ndim - navigate) for i in range(ndim)]
        general = {}
        if title is not None:
            general["title"] = title
        if date:
            general["date"], general["time"] = date[:2]
        signal = dict(data=Pixels(dims, dtype), axes=[dict(a) for a in axes], metadata={"General": general}, original_metadata={}, attributes={"_lazy": False})
        m.file_writer("f.unf", signal)
        disk["layer"] = disk["iteration"] = None
        if disk.get("rows") is None:
            # a single row
            pieces = disk["pieces"]
            check_record(disk, pieces[len(pieces) - (4 if disk["odd"] else 3):], (0, 0))
        # header
        p = [x for _, _, x in disk["pieces"]]
        h = p[1].values
        text = (title or "").encode()[:999].decode(errors="ignore")
        raw = text.encode()
        expect([x.v for x in (p[0], p[2])] == [12, 12] and p[1].dtype.itemsize == 12, "header")
        for name, v in zip(("NCOL", "NROW", "NLAY"), full[::-1]):
            prove(eqi(h[name][0], v), "sizes in the header")
        expect((h["IFORM"][0], h["IFLAG"][0]) == (form, 21000 + len(raw)), "form, version and length of the title in the header")
        expect(h["ICLASS"][0] == {1: 4, 2: 1}.get(min(navigate, ndim), 6), "class in the header")
        expect(p[0].fmt == "<i" and all(t.base == np.dtype("<i2") for t, *_ in p[1].dtype.fields.values()), "little-endian header")
        if raw:
            expect(p[3].v == p[5].v == len(raw) and p[4] == raw, "title")
        i = 6 if raw else 3
        expect(p[i].v == p[i + 2].v == 512 and p[i + 1].dtype.itemsize == 512, "label")
        L = p[i + 1].values
        for name, v in zip(("NCOL", "NROW", "NLAY"), full[::-1]):
            prove(eqi(L[name + "H"][0] * 65536 + L[name][0][0] * 256 + L[name][0][1], v), "sizes in the label")
            prove(eqi(L["IC" + name[1:] + "NH"][0] * 65536 + L["IC" + name[1:] + "N"][0][0] * 256 + L["IC" + name[1:] + "N"][0][1],
                      v // 2 + 1), "centre in the label")
        expect("".join(map(chr, L["SEMPER"][0])) == "Semper" and (L["IFORM"][0], L["REALCO"][0]) == (form, 1), "label")
        # what is read
        r, = m.file_reader("f.unf", lazy=lazy)
        data = r["data"]
        if lazy:
            (task, shape, t), = dask
            expect(t == np.dtype(dt), "element type announced")
            for a, b in zip(shape, full):
                prove(eqi(a, b), "shape announced")
            expect(r["attributes"]["_lazy"] is True and disk["files"][-1].closed, "lazy")
            data = None
            out = task.fn(*task.a, **task.k)
        else:
            out = disk["read"]
        expect(isinstance(out, Read) and out.dtype == np.dtype(dt) and out.dtype.isnative, "element type")
        for a, b in zip(out.shape, full):
            prove(eqi(a, b), "shape of the data")
        if disk.get("rows") is None:
            check_read(out, (0, 0))
        else:
            expect(disk.get("all_read") is True, "all rows are read")
        keep = [k for k in range(ndim) if not one[k]]
        shape = r["data"].shape
        expect(len(shape) == len(keep) == len(r["axes"]), "an axis for each dimension with more than one element")
        for a, k, n in zip(r["axes"], keep, shape):
            prove(z3.And(eqi(a["size"], dims[k]), eqi(n, dims[k])), "size of the axis")
            prove(z3.And(re_(a["scale"]) == F32(re_(cal[k][0])), re_(a["offset"]) == F32(re_(cal[k][1]))), "scale and offset of the axis")
            u = units[k] or ""
            u = "".join(c if ord(c) < 2 ** 15 else "?" for c in u[:4])
            expect(a["units"] == u, "units of the axis")
        g = r["metadata"]["General"]
        expect(g["title"] == text, "title")
        if date:
            expect((g["date"], g["time"]) == (date[0], date[2]), "date and time")
    return run


CONTRACTS = []
_i = 0
for _n in (1, 2, 3):
    for _o in itertools.product((False, True), repeat=_n):
        for _d in FORM:
            for _odd in ((False, True) if _d == "i1" and not _o[-1] else (False,)):
                for _l in (False, True):
                    _i += 1
                    _r = (-1.5, 7) if _d[-2:] != "c8" else (-1.234567e-105 - 1.2345e-107j, 1e200 + 1e-100j)
                    CONTRACTS.append(Contract("singletons %s, %s%s%s, case %d" % ("".join("01"[x] for x in _o), _d, ", odd rows" if _odd else "",
                                     ", lazy" if _l else "", _i), roundtrip(_o, _n, _d, _l, TITLES[_i % len(TITLES)], DATES[_i % len(DATES)],
                                     UNITS[_i % len(UNITS)], (1, 2, 0, 3)[_i // 3 % 4], _r, _odd), FN))



def refused(ndim, dtype):
    def run():
        dims = tuple(fresh_int("n%d" % i, 1, inp=True) for i in range(ndim))
        for d in dims:
            assume(d < 2 ** 15)
        disk, dask = {}, []
        m = environment(disk, dask)
        axes = [dict(index_in_array=i, name="axis%d" % i, size=d, scale=fresh_real("scale%d" % i), offset=fresh_real("offset%d" % i), units="nm", navigate=False)
                for i, d in enumerate(dims)]
        signal = dict(data=Pixels(dims, dtype), axes=axes, metadata={"General": {"title": "t"}}, original_metadata={}, attributes={"_lazy": False})
        try:
            m.file_writer("f.unf", signal)
        except (IOError, AssertionError, ValueError, TypeError):
            expect("opened" not in disk, "no file is touched")
            return
        expect(False, "a signal the format cannot hold is refused")
    return run


for _n in (1, 2, 3, 4, 5):
    for _d in ("u1", "u2", ">u2", "u4", "u8", "i8", "f8", ">f8", "c16", "?", "S3", "O") if _n < 4 else ("i1", "i2", "f4", "c8", "i4"):
        CONTRACTS.append(Contract("%d dimensions, %s" % (_n, _d), refused(_n, _d), FN))

ASSUMPTIONS = [
    "numpy: element-wise conversion between number types, the bytes of rows and records, fromfile and empty (replaced by a file of pieces that are read "
    "where they were written; every use states its layout)",
    "struct: a 32 bit float is read back as the number that was packed (float32 rounding is an uninterpreted function, the same for writing and reading)",
    "at most 32767 columns, rows and layers (the header holds 16 bit numbers; numpy raises OverflowError for more), up to three dimensions",
    "titles, dates and units are taken from a list (empty, long, characters of several bytes, characters outside the 16 bit range)",
    "dask: delayed and from_delayed call the function with the arguments given",
]


def search(s):
    import tempfile

    import dask.array as da
    from rsciio.semper._api import file_reader, file_writer

    root = tempfile.mkdtemp(prefix="c17-")
    n = s.n(150, 1500)
    rng = np.random.default_rng(s.rng.randrange(2 ** 32))
    try:
        for i in range(n):
            if not s.left():
                break
            ndim = 1 + i % 3
            dims = tuple(int(x) for x in rng.choice([1, 2, 3, 4, 5, 7, 300][: 7 if ndim < 3 else 6], ndim))
            dtype = ("i1", "i2", ">i2", "f4", ">f4", "f2", "c8", ">c8", "i4", ">i4")[i // 3 % 10]
            t = np.dtype(dtype)
            if t.kind == "c":
                data = (rng.normal(size=dims) * 1e30 + 1j * rng.normal(size=dims) * 1e-30).astype(t)
            elif t.kind == "f":
                data = (rng.normal(size=dims) * (1e30 if t.itemsize > 2 else 1e3)).astype(t)
            else:
                data = rng.integers(np.iinfo(t).min, np.iinfo(t).max, dims, endpoint=True).astype(t)
            if i % 4 == 1:
                data = data[..., ::-1]
            if i % 4 == 2:
                data = np.asfortranarray(data)
            expected = data.astype(FORM[dtype][0])
            title, date, units = TITLES[i % len(TITLES)], DATES[i % len(DATES)], UNITS[i % len(UNITS)]
            cal = [(float(rng.normal() * 10.0 ** rng.integers(-20, 20)), float(rng.normal() * 10.0 ** rng.integers(-20, 20))) for _ in dims]
            navigate = i // 2 % 4
            axes = [dict(index_in_array=k, name="axis%d" % k, size=dims[k], scale=cal[k][0], offset=cal[k][1], units=units[k], navigate=k < ndim - navigate)
                    for k in range(ndim)]
            general = {}
            if title is not None:
                general["title"] = title
            if date:
                general["date"], general["time"] = date[:2]
            lazy_in, lazy = i % 5 == 0, i % 2 == 0
            signal = dict(data=da.from_array(data, chunks=2) if lazy_in else data, axes=axes, metadata={"General": general}, original_metadata={},
                          attributes={"_lazy": lazy_in})
            name = os.path.join(root, "f%d.unf" % i)
            case = dict(case=i, dims=dims, dtype=dtype, title=title, date=date, units=units, lazy=lazy, lazy_in=lazy_in, cal=cal)
            s.note(case)
            try:
                file_writer(name, signal)
                r, = file_reader(name, lazy=lazy)
                got = r["data"].compute() if lazy else r["data"]
            except Exception as e:
                s.fail("written and read without an error", dict(case, error=repr(e)))
            want = expected.squeeze()
            s.check(got.shape == want.shape and got.dtype == want.dtype and r["data"].shape == want.shape and r["data"].dtype == want.dtype
                    and got.tobytes() == want.tobytes(), "data", case)
            keep = [k for k in range(ndim) if dims[k] > 1]
            expected_axes = [(dims[k], np.float32(cal[k][0]), np.float32(cal[k][1]),
                              "".join(c if ord(c) < 2 ** 15 else "?" for c in (units[k] or "")[:4])) for k in keep]
            found = [(a["size"], np.float32(a["scale"]), np.float32(a["offset"]), a["units"]) for a in r["axes"]]
            s.check(found == expected_axes, "axes", case)
            g = r["metadata"]["General"]
            s.check(g["title"] == (title or "").encode()[:999].decode(errors="ignore"), "title", case)
            if date:
                s.check((g["date"], g["time"]) == (date[0], date[2]), "date", case)
            # the layout of the file, taken from the description of the format
            raw = open(name, "rb").read()
            full = (1,) * (3 - ndim) + dims
            text = (title or "").encode()[:999].decode(errors="ignore").encode()
            head = _struct.unpack("<i6hi", raw[:20])
            s.check(head[0] == head[7] == 12 and head[1:4] == full[::-1] and head[5:7] == (FORM[dtype][1], 21000 + len(text)), "header", case)
            at = 20 + (len(text) + 8 if text else 0) + 520
            L = (None,) + _struct.unpack("<256h", raw[at - 516: at - 4])
            sizes = [L[57 + k] * 65536 + L[7 + 2 * k] * 256 + L[8 + 2 * k] for k in range(6)]
            s.check("".join(map(chr, L[1:7])) == "Semper" and sizes == list(full[::-1]) + [x // 2 + 1 for x in full[::-1]] and L[20] == FORM[dtype][1]
                    and L[63] == 1, "label", case)
            row = full[2] * expected.dtype.itemsize
            row += row % 2
            ok = len(raw) == at + full[0] * full[1] * (row + 8)
            rows = expected.astype(expected.dtype.newbyteorder("<")).reshape(-1, full[2])
            for k, x in enumerate(rows):
                if not ok:
                    break
                piece = raw[at + k * (row + 8): at + (k + 1) * (row + 8)]
                mark = _struct.pack("<i", row)
                ok = piece == mark + x.tobytes().ljust(row, b"\0") + mark
            s.check(ok, "records", case)
            os.remove(name)
        for dtype in ("u1", "u2", "u4", "u8", "i8", "f8", "c16", "?"):
            name = os.path.join(root, "old.unf")
            with open(name, "wb") as f:
                f.write(b"old")
            data = np.ones((3, 4), dtype)
            axes = [dict(index_in_array=k, name="a", size=n, scale=1.0, offset=0.0, units="nm", navigate=False) for k, n in enumerate(data.shape)]
            signal = dict(data=data, axes=axes, metadata={"General": {"title": "t"}}, original_metadata={}, attributes={"_lazy": False})
            try:
                file_writer(name, signal)
                ok = False
            except Exception:
                ok = open(name, "rb").read() == b"old"
            s.check(ok, "refused", dict(dtype=dtype))
    finally:
        shutil.rmtree(root, ignore_errors=True)
