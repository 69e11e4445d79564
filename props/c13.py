"""C13: frames saved to TVIPS files are read back unchanged, at their place in the scan."""
import contextlib
import datetime
import os
import shutil
import types

from pyvc.binfile import entails
from pyvc.sym import vlen
from pyvc.text import Atom, Text, mk

from .common import *

ID = "C13"
U = "rsciio/tvips/_api.py"
F_ = [U + ":" + f for f in ("file_writer", "_get_main_header_from_signal", "_get_frame_record_dtype_from_signal", "_guess_image_mode")]
F_R = [U + ":" + f for f in ("file_reader", "_is_valid_first_tvips_file")]
HEAD = [("size", "<u4"), ("version", "<u4"), ("dimx", "<u4"), ("dimy", "<u4"), ("bitsperpixel", "<u4"), ("offsetx", "<u4"), ("offsety", "<u4"), ("binx", "<u4"),
        ("biny", "<u4"), ("pixelsize", "<u4"), ("ht", "<u4"), ("magtotal", "<u4"), ("frameheaderbytes", "<u4"), ("dummy", "S204")]
FRAME = [("num", "<u4"), ("timestamp", "<u4"), ("ms", "<u4"), ("LUTidx", "<u4"), ("fcurrent", "<f4"), ("mag", "<u4"), ("mode", "<u4"), ("stagex", "<f4"),
         ("stagey", "<f4"), ("stagez", "<f4"), ("stagea", "<f4"), ("stageb", "<f4"), ("rotidx", "<u4"), ("temperature", "<f4"), ("objective", "<f4")]


def eqr(a, b):
    return re_(a) == re_(b)


def number(x):
    return mk_real(x) if isinstance(x, z3.ExprRef) and z3.is_real(x) else mk_int(x) if isinstance(x, z3.ExprRef) else x


class Arr(Sym):
    """array known by its shape and its elements"""

    def __init__(self, shape, fn):
        self.shape, self.fn = tuple(shape), fn

    ndim = property(lambda self: len(self.shape))
    dtype = np.dtype("int64")

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def _el(self, o, f):
        if isinstance(o, Arr):
            expect(o.ndim == self.ndim, "arrays of the same shape")
            for a, b in zip(self.shape, o.shape):
                prove(eqi(a, b), "arrays of the same shape")
            return Arr(self.shape, lambda *i: f(self.fn(*i), o.fn(*i)))
        return Arr(self.shape, lambda *i: f(self.fn(*i), o))

    def __add__(self, o):
        return self._el(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._el(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._el(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._el(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._el(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._el(o, lambda a, b: a / b)

    def __floordiv__(self, o):
        return self._el(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._el(o, lambda a, b: a % b)

    def round(self, *a):
        return Arr(self.shape, lambda *i: half_even(self.fn(*i)))

    def astype(self, t, **k):
        t = np.dtype(t)
        expect(t.kind in "iu" and t.itemsize == 8, "whole numbers of 64 bits")

        def trunc(x):
            if is_sym(x):
                return x.__trunc__() if isinstance(x, SymReal) else x
            return int(x)
        return Arr(self.shape, lambda *i: trunc(self.fn(*i)))

    def copy(self):
        return Arr(self.shape, self.fn)

    def reshape(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        expect(self.ndim == 1, "a row of numbers is reshaped")
        new = 1
        for d in shape:
            new = new * d
        prove(eqi(new, self.shape[0]), "as many elements as before")
        fn = self.fn

        def at(*i):
            lin = 0
            for a, d in zip(i, shape):
                lin = lin * d + a
            return fn(lin)
        return Arr(shape, at)

    def ravel(self):
        return Raveled(self)

    def axes(self, key):
        """for each axis: (length, index -> index, the index is met by this index) or None for a dropped one"""
        key = key if isinstance(key, tuple) else (key,)
        if Ellipsis in key:
            e = key.index(Ellipsis)
            key = key[:e] + (slice(None),) * (self.ndim - len(key) + 1) + key[e + 1:]
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (self.ndim - len(key))
        out = []
        for k, n in zip(key, self.shape):
            if not isinstance(k, slice):
                expect(not is_sym(k) and k >= 0, "an element")
                prove(ie(n) > k, "index in range")
                out.append(k)
                continue
            step = 1 if k.step is None else k.step
            if is_sym(step) or is_sym(k.start) or k.stop is not None or step == 0:
                raise Unsupported("slice %r" % (k,))
            if step > 0:
                a = k.start or 0
                expect(a >= 0, "slice")
                m = n - a
                m = mk_int(z3.If(ie(m) > 0, (ie(m) + step - 1) / step, z3.IntVal(0)))
                out.append((m, a, step))
            else:
                if k.start is not None:
                    raise Unsupported("slice %r" % (k,))
                m = mk_int((ie(n) - 1 - step - 1 + 1) / -step)
                out.append((m, n - 1, step))
        return out

    def __getitem__(self, key):
        ax = self.axes(key)
        if all(not isinstance(a, tuple) for a in ax):
            return self.fn(*ax)
        fn = self.fn

        def at(*i):
            i = iter(i)
            return fn(*[a if not isinstance(a, tuple) else a[1] + next(i) * a[2] for a in ax])
        return Arr([a[0] for a in ax if isinstance(a, tuple)], at)

    def __setitem__(self, key, value):
        ax = self.axes(key)
        old, new = self.fn, value.fn if isinstance(value, Arr) else (lambda *i: value)
        if isinstance(value, Arr):
            dims = [a[0] for a in ax if isinstance(a, tuple)]
            expect(len(dims) == value.ndim, "as many dimensions as the place has")
            for a, b in zip(dims, value.shape):
                prove(eqi(a, b), "array of the shape of its place")

        def at(*i):
            conds, rel = [], []
            for x, a in zip(i, ax):
                if not isinstance(a, tuple):
                    conds.append(ie(x) == a)
                    continue
                d = ie(x) - ie(a[1])
                s = abs(a[2])
                d = d if a[2] > 0 else -d
                conds += [d >= 0] + ([d % s == 0] if s > 1 else [])
                rel.append(mk_int(d / s if s > 1 else d))
            return mk_int(z3.If(z3.And(conds), ie(new(*rel)), ie(old(*i))))
        self.fn = at


class Raveled:
    def __init__(self, of):
        self.of = of


def half_even(x):
    if not is_sym(x):
        return float(np.round(x))
    return number(z3.ToReal(ie(x.__round__(None)))) if isinstance(x, SymReal) else x


def roll(a, shift, axis=None):
    expect(axis is not None, "an axis is rolled")
    axis %= a.ndim
    n, fn = a.shape[axis], a.fn

    def at(*i):
        i = list(i)
        i[axis] = mk_int((ie(i[axis]) - ie(shift)) % ie(n))
        return fn(*i)
    return Arr(a.shape, at)


class RecordType:
    """frame header, padding and frame"""

    def __init__(self, fields):
        fields = list(fields)
        expect([(n, np.dtype(t)) for n, t in fields[:15]] == [(n, np.dtype(t)) for n, t in FRAME], "layout of the frame header")
        rest = fields[15:]
        self.extra = 0
        if rest and rest[0][0] == "extra":
            expect(getattr(rest[0][1], "__name__", "").startswith(("bytes", "vc_bytes")), "padding")
            self.extra = rest.pop(0)[2]
        expect(len(rest) == 1 and rest[0][0] == "data", "a frame header is followed by the frame")
        self.data, (self.dy, self.dx) = np.dtype(rest[0][1]), rest[0][2]
        size = ie(60 + self.extra) + ie(self.dy) * ie(self.dx) * self.data.itemsize
        known = C().ghost.setdefault("itemsizes", [])
        for e, v in known:
            if entails(e == size):
                self.itemsize = v
                return
        # one number, for the solver
        self.itemsize = fresh_int("itemsize", 60)
        assume(mk_bool(self.itemsize.e == size))
        known.append((size, self.itemsize))


class Head(Sym):
    """the main header"""

    def __init__(self, values=None):
        self.dtype, self.values = np.dtype(HEAD), dict(values or {})
        self.itemsize = 256

    shape = (1,)

    def __len__(self):
        return 1

    def __setitem__(self, n, v):
        expect(n in self.dtype.names, "field %s of the header" % n)
        if n != "dummy":
            if is_sym(v):
                if not C().fork(z3.And(re_(v) >= 0, re_(v) < 2 ** 32)):
                    raise OverflowError("out of bounds for uint32")
            elif not 0 <= v < 2 ** 32:
                raise OverflowError("out of bounds for uint32")
        self.values[n] = v

    def __getitem__(self, n):
        return [self.values.get(n, 0)]

    def tofile(self, f):
        f.write(self)


def dtype(x):
    if isinstance(x, list):
        if [n for n, *_ in x] == [n for n, _ in HEAD]:
            return np.dtype(x)
        if [n for n, *_ in x] != [n for n, _ in FRAME]:
            return RecordType(x)
    return np.dtype(x)


def zeros(shape, dtype=float):
    expect(shape in ((1,), 1) and np.dtype(dtype) == np.dtype(HEAD), "the main header")
    return Head()


def arange(*a, **k):
    if not any(is_sym(x) for x in a):
        return np.arange(*a, **k)
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return Arr((mk_int(z3.If(ie(hi) > ie(lo), ie(hi) - ie(lo), z3.IntVal(0))),), lambda i: lo + i)


def np_round(x, *a):
    return x.round(*a) if isinstance(x, Arr) else np.round(x, *a)


def np_divmod(a, b):
    return (a // b, a % b) if isinstance(a, Arr) else np.divmod(a, b)


class Quantity:
    def __init__(self, v, u):
        self.v, self.u = v, u

    def __rmul__(self, o):
        return Quantity(o * self.v, self.u)

    __mul__ = __rmul__

    def is_compatible_with(self, u):
        return self.u.is_compatible_with(u)

    def to(self, u):
        return Quantity(self.v * float(self.u.to(u).magnitude), None)

    magnitude = property(lambda self: self.v)


def ureg(u):
    from rsciio.utils._units import _UREG
    return Quantity(1, _UREG(u))


class Junk(Sym):
    """what a variable of the loop body was before it is set"""
    vc_unset = True

    def __getattr__(self, k):
        if k.startswith(("__", "vc_")):
            raise AttributeError(k)
        raise Unsupported("a variable is used that an earlier file has set")

    def __bool__(self):
        raise Unsupported("a variable is used that an earlier file has set")


# ------------------------------------------------------------------ writing

class Disk:
    """what the writer leaves"""

    def __init__(self):
        self.opened, self.head, self.map, self.it, self.maps, self.base = None, None, None, None, 0, None


class Opened:
    def __init__(self, disk, name, mode):
        expect(mode == "wb", "the first file is made anew")
        self.disk, self.name, self.pos = disk, name, 0
        disk.opened = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        expect(isinstance(x, Head) and self.pos == 0, "the main header comes first")
        self.disk.head = (self.name, x)
        self.pos = 256

    def tell(self):
        return self.pos


class Map(Sym):
    """np.memmap of records to write"""

    def __init__(self, disk, filename, dtype=None, mode=None, offset=0, shape=None):
        self.name, self.dtype, self.mode, self.offset, self.shape = filename, dtype, mode, offset, shape
        self.fields = {}
        disk.maps += 1
        expect(disk.it is not None and disk.map is None, "one file is written in each pass")
        disk.map = self

    def __setitem__(self, k, v):
        if k == "data":
            expect(isinstance(v, Frames) and not v.lazy, "frames")
            v.into(self)
        else:
            expect(k in [n for n, _ in FRAME], "field %s of the frame header" % k)
            if isinstance(v, Arr):
                expect(v.ndim == 1, "a number for each frame")
                prove(eqi(v.shape[0], self.shape), "a number for each frame")
            self.fields[k] = v

    def __getitem__(self, k):
        expect(k == "data", "the frames")
        return self

    def flush(self):
        pass


class Frames(Sym):
    """frames first to last of the signal"""

    def __init__(self, first, count, dy, dx, dt, lazy):
        self.first, self.count, self.dy, self.dx, self.dtype, self.lazy = first, count, dy, dx, dt, lazy

    shape = property(lambda self: (self.count, self.dy, self.dx))

    def __getitem__(self, k):
        expect(isinstance(k, slice) and k.step is None, "consecutive frames")
        a, b = k.start or 0, self.count if k.stop is None else k.stop
        prove(z3.And(ie(a) >= 0, ie(a) <= ie(b), ie(b) <= ie(self.count)), "frames of the signal")
        return Frames(self.first + a, b - a, self.dy, self.dx, self.dtype, self.lazy)

    def into(self, m):
        prove(z3.And(eqi(self.count, m.shape), eqi(self.dy, m.dtype.dy), eqi(self.dx, m.dtype.dx)), "as many frames as the file holds")
        expect(self.dtype.itemsize == m.dtype.data.itemsize and self.dtype.kind == m.dtype.data.kind, "element type")
        m.fields["data"] = self

    def store(self, m, **k):
        expect(self.lazy and isinstance(m, Map), "lazy frames are stored")
        self.into(m)


class Data(Sym):
    def __init__(self, shape, dt, lazy):
        self.shape, self.dtype, self.lazy = tuple(shape), np.dtype(dt), lazy

    ndim = property(lambda self: len(self.shape))

    def reshape(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 else shape
        expect(len(shape) == 3, "a stack of frames")
        n = 1
        for d in self.shape[:-2]:
            n = n * d
        prove(z3.And(eqi(shape[0], n), eqi(shape[1], self.shape[-2]), eqi(shape[2], self.shape[-1])), "a stack of frames")
        return Frames(0, n, shape[1], shape[2], self.dtype, self.lazy)


def same_name(x, base, k, ext):
    """base_kkk.ext with at least three digits"""
    if not isinstance(x, Text):
        expect(isinstance(x, str) and x.startswith(base + "_") and x.endswith(ext), "name of the file")
        d = x[len(base) + 1:len(x) - len(ext)]
        expect(len(d) == 3 and d.isdigit(), "name of the file")
        prove(eqi(int(d), k), "number in the name of the file")
        return
    p = x.parts
    expect(len(p) == 3 and (p[0], p[2]) == (base + "_", ext) and p[1].kind == "digits" and p[1].ref[1] == 3, "name of the file")
    prove(eqi(p[1].ref[0], k), "number in the name of the file")


UNITS = {"nm": (1, "nm"), "um": (1, "nm"), "1/nm": (2, "1/nm"), "1/pm": (2, "1/nm"), "": (None, None), "foo": (None, None), "mrad": (None, None)}
FIX = {"nm": 1, "um": 1000, "1/nm": 1, "1/pm": 1000}
TIMES = {"s": 1000, "ms": 1, "min": 60000, "": None, "nm": None, "foo": None}
DATES = [("1993-06-18", "12:34:56", "UTC"), ("2024-02-29", "23:59:59.75", None), ("2001-01-01", "01:02:03", "+02:00"), (None, None, None)]


def moment(d):
    day, time, zone = d
    if day is None:
        return 0.0
    t = datetime.datetime.fromisoformat(day + "T" + time + ("+00:00" if zone in (None, "UTC") else zone))
    return t.timestamp()


def written(nav, dt, unit="nm", tunit="s", limit=False, extra=False, lazy=False, date=DATES[0], given=None, name="d/a_000.tvips"):
    def run():
        dims = [fresh_int("n%d" % i, 1, inp=True) for i in range(nav)]
        dy, dx = fresh_int("dy", 1, inp=True), fresh_int("dx", 1, inp=True)
        for d in dims + [dy, dx]:
            assume(d < 2 ** 31)
        scale, ox, oy, inc = [fresh_real(n, inp=True) for n in ("scale", "ox", "oy", "increment")]
        for x in (scale, ox, oy):
            assume(mk_bool(z3.And(x.e >= 0, x.e < 10 ** 6)))
        assume(mk_bool(inc.e >= 0))
        axes = [dict(name="", size=n, scale=inc if i == nav - 1 else fresh_real("s%d" % i), offset=0.0, units=tunit, navigate=True, index_in_array=i)
                for i, n in enumerate(dims)]
        axes += [dict(name="dy", size=dy, scale=scale, offset=oy, units=unit, navigate=False, index_in_array=nav),
                 dict(name="dx", size=dx, scale=fresh_real("s"), offset=ox, units=unit, navigate=False, index_in_array=nav + 1)]
        tem = dict(Stage={k: fresh_real(k) for k in ("x", "y", "z", "tilt_alpha", "tilt_beta")}, beam_current=fresh_real("current"),
                   beam_energy=fresh_int("ht", 0), camera_length=fresh_int("cl", 1), magnification=fresh_int("mag", 1))
        assume(mk_bool(z3.And(ie(tem["beam_energy"]) < 10 ** 6, ie(tem["camera_length"]) < 10 ** 6, ie(tem["magnification"]) < 10 ** 6)))
        if UNITS[unit][0] == 1:
            del tem["camera_length"]
        elif UNITS[unit][0] == 2:
            del tem["magnification"]
        general = {k: v for k, v in zip(("date", "time", "time_zone"), date) if v is not None}
        signal = dict(data=Data(dims + [dy, dx], dt, lazy), axes=axes, metadata=dict(General=general, Acquisition_instrument=dict(TEM=tem)),
                      original_metadata={}, attributes={"_lazy": lazy})
        disk = Disk()
        C().ghost["str_of"] = True
        N = 1
        for d in dims:
            N = N * d
        pad = fresh_int("extra", 1, 2 ** 16, inp=True) if extra else 0
        most = fresh_int("max_file_size", 1, inp=True) if limit else None
        item = RecordType(FRAME + [("extra", bytes, pad), ("data", dt, (dy, dx))]).itemsize
        m = load_module(U, {"os": types.SimpleNamespace(path=os.path), "get_progress_bar_context_manager": lambda *a: contextlib.nullcontext},
                        np_over={"dtype": dtype, "zeros": zeros, "arange": arange, "round": np_round, "divmod": np_divmod, "rint": np_round,
                                 "memmap": lambda *a, **k: Map(disk, *a, **k)},
                        builtin_over={"open": lambda f, mode="r", *a, **k: Opened(disk, f, mode)},
                        patch={"rsciio.utils._units:_UREG": ureg})
        first = moment(date)
        mode = given or UNITS[unit][0] or 2
        step = inc * TIMES[tunit] if nav and TIMES[tunit] else 1

        def inv(v, k):
            out = {"frames": z3.And(ie(v.current_frame) >= 0, ie(v.frames_to_save) == ie(N) - ie(v.current_frame), ie(v.frames_to_save) >= 0,
                                    (ie(k) == 0) == (ie(v.current_frame) == 0)),
                   "number of the file": ie(v.file_index) == ie(k)}
            if disk.it:
                check(v, *disk.it)
            return out

        def on_item(v, k, item):
            disk.it = (k, v.current_frame)

        def check(v, k, c0):
            mp = disk.map
            expect(mp is not None, "a file is written")
            start = entails(ie(k) == 0)
            same_name(mp.name, "d/a", k, ".tvips")
            if start:
                expect(disk.head is not None and (mp.offset, mp.mode) == (256, "r+"), "the first file begins with the main header")
                same_name(disk.head[0], "d/a", 0, ".tvips")
                h = disk.head[1].values
                prove(z3.And(eqi(h["dimx"], dx), eqi(h["dimy"], dy), eqi(h["frameheaderbytes"], 60 + pad)), "main header")
                expect((h["size"], h["version"], h["bitsperpixel"]) == (256, 2, 8 * np.dtype(dt).itemsize), "main header")
            else:
                expect(disk.opened is None and (mp.offset, mp.mode) == (0, "w+"), "the other files hold frames only")
            n = mp.shape
            prove(z3.And(ie(n) >= 1, ie(v.current_frame) == ie(c0) + ie(n)), "at least one frame, and the next file goes on behind it")
            if limit:
                prove(mp.offset + ie(n) * item.e <= z3.If(most.e < 256 + item.e, 256 + item.e, most.e), "size of the file")
            d = mp.dtype
            prove(z3.And(eqi(d.dy, dy), eqi(d.dx, dx), eqi(d.extra, pad)), "layout of the records")
            expect(d.data == np.dtype(dt).newbyteorder("<"), "element type and byte order of the file")
            f = mp.fields
            prove(eqi(f["data"].first, c0), "the frames in their order")
            j = fresh_int("j", 0)
            assume(j < n)
            at = {x: (y.fn(j) if isinstance(y, Arr) else y) for x, y in f.items() if x != "data"}
            prove(eqi(at["rotidx"], c0 + j + 1), "frames are numbered from one")
            prove(z3.And(z3.IsInt(re_(at["timestamp"])), z3.IsInt(re_(at["ms"])), re_(at["ms"]) >= 0, re_(at["ms"]) < 1000), "whole seconds and milliseconds")
            t = re_(at["timestamp"]) * 1000 + re_(at["ms"]) - re_(first) * 1000 - z3.ToReal(ie(c0 + j)) * re_(step)
            prove(z3.And(t * 2 <= 1, t * 2 >= -1), "time of the frame")
            expect(at["mode"] == mode, "image or diffraction pattern")
            for x, y in (("stagex", "x"), ("stagey", "y"), ("stagez", "z"), ("stagea", "tilt_alpha"), ("stageb", "tilt_beta")):
                prove(eqr(at[x], tem["Stage"][y]), "stage")
            prove(eqr(at["fcurrent"], tem["beam_current"]), "beam current")

        def is_loop(fn, loc, it):
            return "frames_to_save" in loc
        junk = {n: lambda old: Junk() for n in ("filename", "data")}
        C().run.loop_specs = [LoopSpec("files", inv, kind="while", where=is_loop, on_item=on_item, types=junk)]
        m.file_writer(name, signal, max_file_size=most, frame_header_extra_bytes=pad, mode=given)
        # only ends when all frames are saved
        expect(disk.map is None, "the last pass wrote nothing")
    return run


def header(nav, dt, unit, given=None, extra=0):
    """the main header"""
    def run():
        dy, dx = fresh_int("dy", 1, inp=True), fresh_int("dx", 1, inp=True)
        for d in (dy, dx):
            assume(d < 2 ** 31)
        scale, ox, oy = [fresh_real(n, inp=True) for n in ("scale", "ox", "oy")]
        for x in (scale, ox, oy):
            assume(mk_bool(z3.And(x.e >= 0, x.e < 10 ** 6)))
        axes = [dict(name="", size=3, scale=fresh_real("s%d" % i), offset=fresh_real("o%d" % i), units="s", navigate=True, index_in_array=i) for i in range(nav)]
        axes += [dict(name="dy", size=dy, scale=scale, offset=oy, units=unit, navigate=False, index_in_array=nav),
                 dict(name="dx", size=dx, scale=scale, offset=ox, units=unit, navigate=False, index_in_array=nav + 1)]
        e, cl, mag = fresh_int("ht", 0, 10 ** 6), fresh_int("cl", 1, 10 ** 6), fresh_int("mag", 1, 10 ** 6)
        mode, to = UNITS[unit]
        tem = dict(beam_energy=e)
        if mode != 1:
            tem["camera_length"] = cl
        if mode != 2:
            tem["magnification"] = mag
        signal = dict(data=Data([3] * nav + [dy, dx], dt, False), axes=axes, metadata=dict(Acquisition_instrument=dict(TEM=tem)), original_metadata={},
                      attributes={"_lazy": False})
        m = load_module(U, np_over={"dtype": dtype, "zeros": zeros}, patch={"rsciio.utils._units:_UREG": ureg})
        h = m._get_main_header_from_signal(signal, 2, extra)
        expect(isinstance(h, Head), "the header")
        g = lambda n: h[n][0]
        expect((g("size"), g("version"), g("bitsperpixel"), g("frameheaderbytes")) == (256, 2, 8 * np.dtype(dt).itemsize, 60 + extra), "sizes")
        prove(z3.And(eqi(g("dimx"), dx), eqi(g("dimy"), dy)), "size of the frames")
        expect((g("binx"), g("biny")) == (1, 1), "binning")
        for n, v in (("pixelsize", scale), ("offsetx", ox), ("offsety", oy)):
            f = FIX.get(unit, 1)
            d = re_(g(n)) - re_(v) * f
            if to is None:
                prove(d == 0, "calibration as it is")
            else:
                prove(z3.And(2 * d <= 1 + re_(v) / 10 ** 6, 2 * d >= -1 - re_(v) / 10 ** 6, z3.IsInt(re_(g(n)))), "calibration in nm or 1/nm")
        prove(eqi(g("ht"), e), "beam energy")
        prove(eqi(g("magtotal"), mag if mode == 1 else cl if mode == 2 else 0), "magnification or camera length")
    return run


def refused(nav, sig, dt):
    def run():
        dims = [fresh_int("n%d" % i, 1, inp=True) for i in range(nav + sig)]
        axes = [dict(name="", size=n, scale=1.0, offset=0.0, units="nm", navigate=i < nav, index_in_array=i) for i, n in enumerate(dims)]
        signal = dict(data=Data(dims, dt, False), axes=axes, metadata={}, original_metadata={}, attributes={"_lazy": False})
        disk = Disk()
        m = load_module(U, np_over={"dtype": dtype, "zeros": zeros, "arange": arange, "memmap": lambda *a, **k: Map(disk, *a, **k)},
                        builtin_over={"open": lambda f, mode="r", *a, **k: Opened(disk, f, mode)}, patch={"rsciio.utils._units:_UREG": ureg})
        try:
            m.file_writer("d/a.tvips", signal)
        except (ValueError, TypeError, NotImplementedError):
            expect(disk.opened is None and disk.maps == 0, "no file is touched")
            return
        expect(False, "a signal the format cannot hold is refused")
    return run


# ------------------------------------------------------------------ reading

class Parts:
    """a sequence of files: file k holds the frames start(k) to start(k + 1)"""

    def __init__(self, files, frames):
        self.files, self.frames = files, frames
        self.start = z3.Function("start", I, I)
        C().assume(self.start(0) == 0)
        C().assume(self.start(ie(files)) == ie(frames))

    def span(self, k):
        a, b = self.start(ie(k)), self.start(ie(k) + 1)
        C().assume(z3.And(a >= 0, b > a, b <= ie(self.frames)))
        return mk_int(a), mk_int(b - a)


class Names(Sym):
    """list of the names of files 1 to n"""

    def __init__(self, ext, n=0):
        self.ext, self.n = ext, n

    def append(self, x):
        same_name(x, "d/a", self.n + 1, self.ext)
        self.n = self.n + 1

    def vc_havoc(self):
        self.n = fresh_int("names", 0)

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return Text(["d/a_", Atom("digits", (k + 1, 3), alphabet=set("0123456789")), self.ext])


class Pieces(Sym):
    """list of arrays, known by what they are one after another"""

    def __init__(self, first):
        self.kind, self.whole = type(first), first
        self.end = first.count
        expect(entails(eqi(first.first, 0)), "the first file")

    def append(self, x):
        expect(type(x) is self.kind, "frames of the next file")
        prove(eqi(x.first, self.end), "the files in their order")
        self.end = self.end + x.count

    def vc_havoc(self):
        self.end = fresh_int("end", 0)

    def one(self):
        return self.kind(0, self.end, self.whole.of)

    def __iter__(self):
        yield self.one()

    def __getitem__(self, k):
        expect(k == 0, "the first file")
        return self.one()


class Records:
    """records first to first + count of the sequence"""

    def __init__(self, first, count, of):
        self.first, self.count, self.of = first, count, of

    def __getitem__(self, k):
        if isinstance(k, str):
            expect(k == "data", "the frames")
            return Stack(self.first, self.count, self.of)
        expect(sorted(k) == sorted(n for n, _ in FRAME), "the frame headers")
        return Meta(self.first, self.count, self.of)


class Meta(Records):
    def __getitem__(self, k):
        return Arr((self.count,), lambda j: self.of.field(k, self.first + j))


class Stack(Sym):
    """frames first to first + count of the sequence"""

    def __init__(self, first, count, of):
        self.first, self.count, self.of = first, count, of

    shape = property(lambda self: (self.count, self.of.dy, self.of.dx))
    ndim = 3

    def __getitem__(self, k):
        expect(isinstance(k, Raveled), "frames are chosen by their numbers")
        i = [fresh_int("i%d" % a, 0) for a in range(k.of.ndim)]
        for a, n in zip(i, k.of.shape):
            assume(a < n)
        v = ie(k.of.fn(*i))
        prove(z3.And(v >= 0, v < ie(self.count)), "frames of the sequence")
        return Chosen(k.of, self.of)

    def rechunk(self, chunks):
        self.of.chunks = chunks
        return self


class Chosen(Sym):
    def __init__(self, idx, of, shape=None):
        self.idx, self.of, self.shape = idx, of, shape

    ndim = property(lambda self: len(self.shape))

    def reshape(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 else shape
        expect(len(shape) == self.idx.ndim + 2, "shape of the scan")
        for a, b in zip(shape, self.idx.shape + (self.of.dy, self.of.dx)):
            prove(eqi(a, b), "shape of the scan")
        return Chosen(self.idx, self.of, shape)

    def rechunk(self, chunks):
        self.of.chunks = chunks
        return self


class Sequence:
    """what is on disk"""

    def __init__(self, files, frames, head, mode, name, ext):
        self.parts, self.files, self.frames, self.head, self.name, self.ext, self.mode = Parts(files, frames), files, frames, head, name, ext, mode
        self.dy, self.dx, self.chunks = head.values["dimy"], head.values["dimx"], None
        self.F = {n: fresh_real(n, inp=True) for n in ("fcurrent", "stagex", "stagey", "stagez", "stagea", "stageb", "objective")}
        self.t = z3.Function("timestamp", I, I)
        self.ms = z3.Function("ms", I, I)

    def field(self, n, k):
        zero = not is_sym(k) and k == 0 or is_sym(k) and entails(ie(k) == 0)
        if n == "timestamp":
            return 740406896 if zero else mk_int(self.t(ie(k)))
        if n == "ms":
            return 250 if zero else mk_int(self.ms(ie(k)))
        if n == "mode":
            return self.mode
        expect(zero and n in self.F, "field %s of the first frame" % n)
        return self.F[n]

    def memmap(self, filename, dtype=None, mode="r+", offset=0, **k):
        expect(mode == "r" and not k, "the files are only read")
        rec = dtype if isinstance(dtype, RecordType) else RecordType(dtype)
        prove(z3.And(eqi(rec.dy, self.dy), eqi(rec.dx, self.dx), eqi(60 + rec.extra, self.head.values["frameheaderbytes"])), "layout of the records")
        expect(rec.data == np.dtype("<u%d" % (self.head.values["bitsperpixel"] // 8)), "element type")
        if isinstance(filename, Text):
            p = filename.parts
            expect(len(p) == 3 and (p[0], p[2]) == ("d/a_", self.ext) and p[1].ref[1] == 3, "name of the file")
            k = p[1].ref[0]
            prove(z3.And(ie(k) >= 1, ie(k) < ie(self.files)), "a file of the sequence")
            expect(offset == 0, "the other files have no header")
        else:
            expect(filename == self.name, "the first file")
            prove(eqi(offset, self.head.values["size"]), "the frames lie behind the header")
            k = 0
        return Records(*self.parts.span(k), self)

    def exists(self, fn):
        p = fn.parts if isinstance(fn, Text) else ()
        expect(len(p) == 3 and (p[0], p[2]) == ("d/a_", self.ext) and p[1].kind == "digits" and p[1].ref[1] == 3, "name of the next file")
        k = p[1].ref[0]
        prove(ie(k) >= 1, "name of the next file")
        return mk_bool(ie(k) < ie(self.files))


class Reading:
    def __init__(self, head):
        self.head, self.pos = head, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def seek(self, n, *a):
        self.pos = n

    def tell(self):
        return self.pos


def read(scan, lazy=False, mode=2, winding=None, bits=16, start=True, chunks="auto", ext=".tvips", enough=True):
    """scan: number of scan axes, or None for a stack"""
    def run():
        dy, dx, size, pad = fresh_int("dy", 1, inp=True), fresh_int("dx", 1, inp=True), fresh_int("header", 256, inp=True), fresh_int("extra", 0, 2 ** 16, inp=True)
        files, frames = fresh_int("files", 1, inp=True), fresh_int("frames", 1, inp=True)
        assume(files <= frames)
        px, ox, oy, ht, mag = [fresh_int(n, 0) for n in ("pixelsize", "offsetx", "offsety", "ht", "magtotal")]
        head = Head(dict(size=size, version=2, dimx=dx, dimy=dy, bitsperpixel=bits, offsetx=ox, offsety=oy, pixelsize=px, ht=ht, magtotal=mag,
                         frameheaderbytes=60 + pad))
        name = "d/a_000" + ext
        seq = Sequence(files, frames, head, mode, name, ext)
        C().ghost["str_of"] = True

        def open_(f, md="r", *a, **k):
            expect((f, md) == (name, "rb"), "the first file is read")
            return Reading(head)

        def fromfile(f, dtype=None, count=-1):
            expect(f.pos == 0 and count == 1 and np.dtype(dtype) == np.dtype(HEAD), "the main header")
            f.pos = 256
            return head

        def concatenate(x, axis=0):
            expect(axis == 0, "the files are put together along the frames")
            x = [a for a in x]
            expect(len(x) == 1, "the files are put together")
            x = x[0]
            n = x.count if isinstance(x, Stack) else x.shape[0]
            prove(eqi(n, frames), "all files are put together")
            return x

        def array(x, *a, **k):
            return np.array(x, *a, **k)
        m = load_module(U, {"os": types.SimpleNamespace(path=types.SimpleNamespace(exists=seq.exists, splitext=os.path.splitext, split=os.path.split,
                                                                                    basename=os.path.basename, join=os.path.join)),
                            "sarray2dict": lambda x, *a: {"header": x},
                            "dask": types.SimpleNamespace(config=types.SimpleNamespace(set=lambda **k: contextlib.nullcontext()))},
                        np_over={"dtype": dtype, "arange": arange, "fromfile": fromfile, "memmap": seq.memmap, "concatenate": concatenate, "roll": roll,
                                 "array": array},
                        builtin_over={"open": open_}, patch={"dask.array:concatenate": concatenate})

        def lists(loc):
            return {n: v for n, v in loc.items() if isinstance(v, (list, Pieces, Names)) and not n.startswith("_vc")}

        def counting(fn, loc, it):
            return "other_files" in loc and "header" not in loc

        def inv1(v, k):
            return {"names": z3.And(ie(vlen(v.other_files)) == ie(k), ie(v.file_index) == ie(k) + 1, ie(k) < ie(files))}

        def loading(fn, loc, it):
            return isinstance(it, Names)

        def inv2(v, k):
            a = seq.parts.span(k)
            return {"frames": z3.And(ie(v.all_array_data.end) == ie(a[0]) + ie(a[1]), ie(v.all_metadata.end) == ie(a[0]) + ie(a[1]))}

        def piece(old):
            if isinstance(old, Pieces):
                return old
            expect(isinstance(old, list) and len(old) == 1, "the first file")
            return Pieces(old[0])
        C().run.loop_specs = [
            LoopSpec("names of the files", inv1, kind="while", where=counting, types={"other_files": lambda old: old if isinstance(old, Names) else Names(ext), "fn": lambda old: Junk()}),
            LoopSpec("files", inv2, kind="for", where=loading, types={"all_array_data": piece, "all_metadata": piece, "records": lambda old: Junk()})]
        kw = {}
        if scan is not None:
            shape = tuple(fresh_int("scan%d" % i, 1, inp=True) for i in range(scan))
            total = 1
            for n in shape:
                total = total * n
            first = fresh_int("first", 0, inp=True) if start else 0
            if enough:
                assume(mk_bool(ie(first) + ie(total) <= ie(frames)))
            else:
                assume(mk_bool(ie(first) + ie(total) > ie(frames)))
            kw = dict(scan_shape=shape)
            if start:
                kw["scan_start_frame"] = first
            if winding is not None:
                h = fresh_int("hysteresis", inp=True)
                kw.update(winding_scan_axis=winding, hysteresis=h)
        if lazy:
            kw["rechunking"] = chunks
        try:
            r, = m.file_reader(name, lazy=lazy, **kw)
        except ValueError:
            expect(not enough, "a scan that lies in the file can be read")
            return
        expect(enough, "a scan that does not lie in the file is refused")
        data, axes = r["data"], r["axes"]
        du = "1/nm" if mode == 2 else "nm"
        if scan is None:
            expect(isinstance(data, Stack), "a stack")
            prove(z3.And(eqi(data.first, 0), eqi(data.count, frames)), "all frames")
            nav = [(frames, "time", "s", None)]
        else:
            expect(isinstance(data, Chosen) and data.idx.ndim == scan, "a scan")
            i = [fresh_int("i%d" % a, 0) for a in range(scan)]
            for a, n, q in zip(i, data.idx.shape, shape):
                prove(eqi(n, q), "shape of the scan")
                assume(a < q)
            got = data.idx.fn(*i)
            j = list(i)
            if winding in ("x", 0):
                back = (ie(shape[-1]) - 1) - (ie(i[-1]) - ie(h)) % ie(shape[-1])
                j[-1] = mk_int(z3.If(ie(i[-2]) % 2 == 0, back, ie(i[-1])))
            elif winding in ("y", 1):
                back = (ie(shape[-2]) - 1) - (ie(i[-2]) - ie(h)) % ie(shape[-2])
                j[-2] = mk_int(z3.If(ie(i[-1]) % 2 == 0, back, ie(i[-2])))
            lin = 0
            for a, n in zip(j, shape):
                lin = lin * n + a
            prove(eqi(got, first + lin), "frame at a position of the scan")
            nav = [(n, x, "nm" if x else "", 1) for n, x in zip(shape, ["", "y", "x"][-scan:])]
        expect(len(axes) == len(nav) + 2, "axes")
        for k, (a, (n, x, u, c)) in enumerate(zip(axes, nav)):
            prove(eqi(a["size"], n), "size of the axis")
            expect((a["name"], a["units"], a["navigate"], a["index_in_array"]) == (x, u, True, k), "navigation axis")
            if c is not None:
                expect((a["scale"], a["offset"]) == (1, 0), "scans are not calibrated")
            else:
                prove(re_(a["offset"]) == z3.Q(740406896250, 1000), "time of the first frame")
                if C().fork(ie(frames) > 1):
                    prove(re_(a["scale"]) * 1000 == z3.ToReal(seq.t(1) * 1000 + seq.ms(1) - 740406896250), "time between the frames")
                else:
                    expect(a["scale"] == 1, "a single frame")
        for k, (a, n, x, o) in enumerate(zip(axes[-2:], (dy, dx), ("dy", "dx"), (oy, ox))):
            prove(z3.And(eqi(a["size"], n), eqr(a["scale"], px), eqr(a["offset"], o)), "axes of the frames")
            expect((a["name"], a["units"], a["navigate"], a["index_in_array"]) == (x, du, False, len(nav) + k), "axes of the frames")
        g, t = r["metadata"]["General"], r["metadata"]["Acquisition_instrument"]["TEM"]
        expect((g["date"], g["time"], g["time_zone"], g["original_filename"]) == ("1993-06-18", "12:34:56", "UTC", "a_000" + ext), "date and time")
        prove(z3.And(eqi(t["magnification"], mag), eqi(t["beam_energy"], ht), eqr(t["beam_current"], seq.F["fcurrent"])), "metadata")
        for k, n in (("tilt_alpha", "stagea"), ("tilt_beta", "stageb"), ("x", "stagex"), ("y", "stagey"), ("z", "stagez")):
            prove(eqr(t["Stage"][k], seq.F[n]), "stage")
        expect(("Signal" in r["metadata"]) is (mode == 2), "signal type")
        if lazy:
            ch = seq.chunks
            if chunks == "auto":
                k = len(nav)
                expect(ch == {**{a: "auto" for a in range(k)}, k: None, k + 1: None}, "chunks of whole frames")
            else:
                expect(ch == (chunks or None), "chunks asked for")
    return run


CONTRACTS = []
for _u in UNITS:
    for _n, _d in ((0, "u1"), (1, ">u2"), (2, "u4")):
        CONTRACTS.append(Contract("header, %d navigation axes, %r" % (_n, _u), header(_n, _d, _u, extra=10 * _n), F_[1:]))
for _n in (0, 1, 2, 3):
    for _l in (False, True):
        for _lim in (False, True):
            CONTRACTS.append(Contract("writing, %d navigation axes%s%s" % (_n, ", lazy" * _l, ", several files" * _lim),
                                      written(_n, ("u2", ">u4", "u1", "u8")[_n], limit=_lim, lazy=_l, extra=_n % 2, date=DATES[_n]), F_))
for _i, (_u, _t) in enumerate([(u, "ms") for u in UNITS] + [("nm", t) for t in TIMES]):
    CONTRACTS.append(Contract("writing, units %r, %r" % (_u, _t), written(1, "u2", unit=_u, tunit=_t, date=DATES[_i % 4], given=(None, 1, 2)[_i % 3], limit=_i % 2 == 1,
                              name=("d/a_000.tvips", "d/a.tvips")[_i % 2]), F_))
for _n, _s, _d in ((1, 1, "u2"), (0, 3, "u2"), (2, 0, "u1"), (1, 2, "i2"), (1, 2, "f4"), (0, 2, "c8"), (1, 2, "f8"), (2, 2, ">i4")):
    CONTRACTS.append(Contract("refused: %d navigation, %d signal axes, %s" % (_n, _s, _d), refused(_n, _s, _d), F_))
for _s in (None, 1, 2, 3):
    for _w in (None, "x", "y", 0, 1) if _s in (2, 3) else (None,):
        for _l in (False, True):
            CONTRACTS.append(Contract("reading, %s%s%s" % ("stack" if _s is None else "%d scan axes" % _s, ", winding along %s" % _w if _w is not None else "", ", lazy" * _l),
                             read(_s, _l, mode=2 - _l, winding=_w, bits=(8, 16, 32, 64)[len(CONTRACTS) % 4], start=_w != 0, chunks=("auto", {0: 2}, False)[len(CONTRACTS) % 3]
                                  if _l else "auto", ext=(".tvips", ".TVIPS")[len(CONTRACTS) // 2 % 2]), F_R))
for _s in (1, 2, 3):
    CONTRACTS.append(Contract("reading, %d scan axes, too many frames" % _s, read(_s, enough=False), F_R))

ASSUMPTIONS = [
    "numpy: memmap of a file (the records are modelled by the fields that are set, as functions of the number of the frame), fromfile, element-wise "
    "arithmetic, round to even, and indexing a stack with a list of frame numbers",
    "calibrations and the beam energy, magnification and camera length are written as whole non-negative numbers below 2^32 (the header has no fractions); the "
    "contracts treat stage positions and the beam current as numbers that are stored exactly (float32 rounding is left to the search)",
    "dates are taken from a list (with and without time zones and fractions of a second); dateutil is used as it is",
    "every file of a sequence holds at least one frame, and the files of the sequence are those that exist on disk without a gap",
    "pint: conversion of the listed units (nm, um, pm, 1/nm, 1/A, mrad, none, ms, s, ...) is used as it is",
    "scan_shape=\"auto\" (rotator index) is decided by the search only",
]


def search(s):
    import tempfile
    import time as _time
    import warnings

    import dask.array as da
    from rsciio.tvips._api import file_reader, file_writer

    root = tempfile.mkdtemp(prefix="c13-")
    rng = np.random.default_rng(s.rng.randrange(2 ** 32))
    tz0 = os.environ.get("TZ")

    def pixels(dims, t):
        return rng.integers(0, np.iinfo(t).max, dims, endpoint=True, dtype=np.dtype(t).newbyteorder("=")).astype(t)

    def make(data, nav, unit="1/nm", tunit="ms", cal=(1.0, 0.0, 0.0), inc=1.0, meta=None, lazy=False, chunks=2):
        axes = [dict(index_in_array=k, name="a%d" % k, size=n, scale=inc if k == nav - 1 else 1.0, offset=0.0, units=tunit if k == nav - 1 else "nm",
                     navigate=True) for k, n in enumerate(data.shape[:nav])]
        axes += [dict(index_in_array=nav + k, name="yx"[k], size=n, scale=cal[0], offset=cal[1 + k], units=unit, navigate=False)
                 for k, n in enumerate(data.shape[nav:])]
        return dict(data=da.from_array(data, chunks=chunks) if lazy else data, axes=axes, metadata=meta or {}, original_metadata={},
                    attributes={"_lazy": lazy})

    def value(x):
        return x.compute() if hasattr(x, "compute") else np.asarray(x)
    try:
        for i in range(s.n(150, 1500)):
            if not s.left():
                break
            nav = (0, 1, 1, 2, 2, 3)[i % 6]
            frame = tuple(int(x) for x in rng.choice([1, 2, 3, 5, 8, 17], 2))
            scan = tuple(int(x) for x in rng.choice([1, 2, 3, 4, 6] if nav > 1 else [1, 2, 3, 12, 25], nav))
            t = ("u1", "u2", ">u2", "u4", ">u4", "u8", ">u8")[i % 7]
            data = pixels(scan + frame, t)
            if i % 4 == 1:
                data = data[..., ::-1]
            if i % 4 == 2:
                data = np.asfortranarray(data)
            frames = int(np.prod(scan, dtype=int))
            extra = (0, 0, 1, 40, 196)[i % 5]
            record = 60 + extra + int(np.prod(frame)) * data.dtype.itemsize
            per = int(rng.integers(1, frames + 1))
            limit = (None, 256 + per * record + int(rng.integers(0, record)), 1)[i % 3]
            unit, to, mode = (("1/nm", 1, 2), ("nm", 1, 1), ("um", 1000, 1), ("1/angstrom", 10, 2), ("mrad", None, 2))[i // 2 % 5]
            tunit, ms = (("ms", 1), ("s", 1000), ("us", .001), ("widgets", None), ("min", 60000))[i // 3 % 5]
            inc = float(rng.choice([1, 0.25, 7.5, 20]))
            cal = tuple(int(x) for x in rng.integers(0, 4000, 3))
            meta, when = {}, None
            if i % 4:
                d, tm, zone, stamp = (("2024-02-29", "23:59:59.500", "UTC", 1709251199500), ("2001-09-09", "01:46:40", "+00:00", 1000000000000),
                                      ("1999-12-31", "20:00:00.004", "+02:00", 946663200004))[i % 3]
                meta["General"] = dict(date=d, time=tm, time_zone=zone)
            else:
                stamp = 0
            tem = {}
            if i % 3:
                tem["Stage"] = {k: float(np.float32(rng.normal() * 50)) for k in ("x", "y", "z", "tilt_alpha", "tilt_beta")}
                tem["beam_current"] = float(np.float32(rng.random()))
                tem["beam_energy"] = int(rng.choice([80, 200, 300]))
                tem[("camera_length", "magnification")[i % 2]] = int(rng.integers(1, 2 ** 31))
                meta["Acquisition_instrument"] = {"TEM": tem}
            lazy_in, lazy = i % 5 == 0, i % 3 == 0
            mode_given = (None, 1, 2)[i // 5 % 3]
            folder = os.path.join(root, "d%d" % i)
            os.mkdir(folder)
            given = os.path.join(folder, ("a.tvips", "a_000.tvips", "b.c_1.tvips", "x_000_000.tvips")[i % 4])
            first = os.path.join(folder, ("a_000.tvips", "a_000.tvips", "b.c_1_000.tvips", "x_000_000.tvips")[i % 4])
            case = dict(case=i, scan=scan, frame=frame, dtype=t, extra=extra, max_file_size=limit, unit=unit, tunit=tunit, inc=inc, cal=cal, lazy=lazy,
                        lazy_in=lazy_in, mode=mode_given, meta=meta)
            s.note(case)
            signal = make(data, nav, unit, tunit, cal, inc, meta, lazy_in)
            zone = (None, "America/New_York", "Asia/Tokyo")[i % 3]
            if zone:
                os.environ["TZ"] = zone
                _time.tzset()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    file_writer(given, signal, max_file_size=limit, frame_header_extra_bytes=extra, mode=mode_given, show_progressbar=False)
                    r, = file_reader(first, lazy=lazy)
                    got = value(r["data"])
            except Exception as e:
                s.fail("written and read without an error", dict(case, error=repr(e)))
            finally:
                if zone:
                    if tz0 is None:
                        os.environ.pop("TZ", None)
                    else:
                        os.environ["TZ"] = tz0
                    _time.tzset()
            stack = data.reshape((frames,) + frame)
            s.check(got.shape == stack.shape and got.dtype == data.dtype.newbyteorder("=") and np.array_equal(got, stack), "stack", case)
            s.check(hasattr(r["data"], "compute") is lazy, "lazy", case)
            # the files
            files = sorted(os.listdir(folder))
            most = limit and max(limit, 256 + record)
            sizes = [os.path.getsize(os.path.join(folder, f)) for f in files]
            base = os.path.basename(first)[:-9]
            s.check(files == [base + "%03d.tvips" % k for k in range(len(files))] and sum(sizes) == 256 + frames * record
                    and (all(x <= most for x in sizes) if most else len(sizes) == 1), "files", dict(case, files=files, sizes=sizes))
            # axes
            m = mode_given or mode
            du = {1: "nm", 2: "1/nm"}[m]
            a = r["axes"]
            s.check([x["size"] for x in a] == list(got.shape) and [x["units"] for x in a] == ["s", du, du]
                    and [x["navigate"] for x in a] == [True, False, False], "axes", case)
            f = to or 1
            s.check([(x["scale"], x["offset"]) for x in a[1:]] == [(cal[0] * f, cal[1] * f), (cal[0] * f, cal[2] * f)], "calibration", case)
            step = inc * ms if nav and ms else 1
            s.check(abs(a[0]["offset"] - stamp / 1000) < 1e-6, "time of the first frame", dict(case, found=float(a[0]["offset"])))
            if frames > 1:
                s.check(abs(a[0]["scale"] - round(step) / 1000) <= .00051, "time between the frames", dict(case, found=float(a[0]["scale"])))
            g = r["metadata"]["General"]
            want = datetime.datetime.fromtimestamp(stamp // 1000, datetime.timezone.utc)
            want_date = want.date().isoformat()
            s.check((g["date"], g["time"], g["time_zone"]) == (want.date().isoformat(), want.time().isoformat(), "UTC"), "date", dict(case, found=g))
            q = r["metadata"]["Acquisition_instrument"]["TEM"]
            s.check(all(float(q["Stage"][k]) == v for k, v in tem.get("Stage", {}).items()), "stage", case)
            s.check(float(q["beam_current"]) == tem.get("beam_current", 0) and q["beam_energy"] == tem.get("beam_energy", 0), "microscope", case)
            key = {1: "magnification", 2: "camera_length"}
            s.check(q["magnification"] == (tem.get(key[mode], 0) if to else tem.get("camera_length", 0) * (unit == "x")) or not to, "magnification", case)
            s.check(("Signal" in r["metadata"]) == (m == 2), "signal type", case)
            # scans
            for w in (None, "x", "y", 0, 1):
                n = int(rng.integers(1, 4))
                if w is not None:
                    n = max(n, 2)
                shape = tuple(int(x) for x in rng.integers(1, 5, n))
                total = int(np.prod(shape))
                if total > frames:
                    try:
                        file_reader(first, scan_shape=shape, lazy=lazy)
                        ok = False
                    except ValueError:
                        ok = True
                    s.check(ok, "scan beyond the end", dict(case, shape=shape))
                    shape = (1,) * (n - 1) + (frames,) if w in (None, "x", 0) else (1,) * (n - 2) + (frames, 1)
                    total = frames
                start = int(rng.integers(0, frames - total + 1))
                h = int(rng.integers(-3, 4)) if w is not None else 0
                c2 = dict(case, shape=shape, start=start, winding=w, hysteresis=h)
                try:
                    r, = file_reader(first, scan_shape=shape, scan_start_frame=start, winding_scan_axis=w, hysteresis=h, lazy=lazy,
                                     rechunking=("auto", False)[i % 2])
                    got = value(r["data"])
                except Exception as e:
                    s.fail("scan", dict(c2, error=repr(e)))
                try:
                    file_reader(first, scan_shape=shape, scan_start_frame=frames - total + 1, lazy=lazy)
                    ok = False
                except ValueError:
                    ok = True
                s.check(ok, "scan beyond the end", dict(c2, start=frames - total + 1))
                idx = np.arange(start, start + total).reshape(shape)
                want = idx.copy()
                for p in np.ndindex(shape):
                    q = list(p)
                    if w in ("x", 0) and p[-2] % 2 == 0:
                        q[-1] = shape[-1] - 1 - (p[-1] - h) % shape[-1]
                    if w in ("y", 1) and p[-1] % 2 == 0:
                        q[-2] = shape[-2] - 1 - (p[-2] - h) % shape[-2]
                    want[p] = idx[tuple(q)]
                s.check(np.array_equal(got, stack[want.ravel()].reshape(shape + frame)) and got.dtype == stack.dtype.newbyteorder("="), "scan", c2)
                k = [(x["size"], x["navigate"], x["index_in_array"]) for x in r["axes"]]
                s.check(k == [(x, j < n, j) for j, x in enumerate(got.shape)], "axes of the scan", c2)
                u = (["", "nm", "nm"] if n == 3 else ["nm"] * n) + [du, du]
                s.check([x["units"] for x in r["axes"]] == u and [x["name"] for x in r["axes"]] == ["", "y", "x"][-n:] + ["dy", "dx"], "axes of the scan", c2)
                s.check(all(float(x["scale"]) == cal[0] * f for x in r["axes"][-2:]) and all((x["scale"], x["offset"]) == (1, 0) for x in r["axes"][:-2])
                        and [float(x["offset"]) for x in r["axes"][-2:]] == [cal[1] * f, cal[2] * f], "calibration of a scan", c2)
                s.check(not lazy or i % 2 or all(len(c) == 1 for c in r["data"].chunks[-2:]), "chunks of whole frames", c2)
            side = int(np.sqrt(frames))
            if frames > 1 and side * side == frames:
                r, = file_reader(first, scan_shape="auto", lazy=lazy)
                s.check(np.array_equal(value(r["data"]), stack.reshape((side, side) + frame)), "automatic scan", case)
            # a longer header and another spelling of the extension
            old, size = open(first, "rb").read(), int(rng.integers(257, 600))
            for f in files:
                os.rename(os.path.join(folder, f), os.path.join(folder, f[:-5] + "TVIPS"))
            with open(first[:-5] + "TVIPS", "wb") as f:
                f.write(int(size).to_bytes(4, "little") + old[4:256] + bytes(size - 256) + old[256:])
            other = frames > 1
            if other:
                # the second frame: another kind of image, date and position
                at = (size + record) if len(files) == 1 or sizes[0] > 256 + record else 0
                with open(os.path.join(folder, (files[0] if at else files[1])[:-5] + "TVIPS"), "r+b") as f:
                    f.seek(at + 4)
                    f.write(int(stamp // 1000 + 86400 * 400).to_bytes(4, "little"))
                    f.seek(at + 16)
                    f.write(np.full(2, 7.5, "<f4").tobytes() + int(3 - m).to_bytes(4, "little") + np.full(5, 7.5, "<f4").tobytes())
            try:
                r, = file_reader(first[:-5] + "TVIPS", lazy=lazy)
                ok = np.array_equal(value(r["data"]), stack) and r["metadata"]["General"]["original_filename"] == os.path.basename(first)[:-5] + "TVIPS"
            except Exception as e:
                s.fail("longer header", dict(case, size=size, error=repr(e)))
            q, g = r["metadata"]["Acquisition_instrument"]["TEM"], r["metadata"]["General"]
            s.check(ok, "longer header", dict(case, size=size))
            s.check(("Signal" in r["metadata"]) == (m == 2) and g["date"] == want_date and (not tem or all(float(q["Stage"][k]) == v for k, v in tem["Stage"].items())
                                                                                         and float(q["beam_current"]) == tem["beam_current"]),
                    "metadata of the first frame", dict(case, size=size))
            shutil.rmtree(folder)
        for t in ("i1", "i2", ">i4", "f4", "f8", "c8", "?"):
            folder = os.path.join(root, "refused")
            os.mkdir(folder)
            try:
                file_writer(os.path.join(folder, "a.tvips"), make(np.ones((3, 4, 4), t), 1), show_progressbar=False)
                ok = False
            except (ValueError, TypeError):
                ok = os.listdir(folder) == []
            s.check(ok, "refused", dict(dtype=t))
            shutil.rmtree(folder)
        # an older, longer sequence of the same name
        folder = os.path.join(root, "again")
        os.mkdir(folder)
        name = os.path.join(folder, "a_000.tvips")
        for n in (6, 2):
            data = pixels((n, 4, 4), "u2")
            file_writer(name, make(data, 1), max_file_size=256 + 92, show_progressbar=False)
        r, = file_reader(name)
        s.check(np.array_equal(r["data"], data), "written over a longer sequence", dict(frames=2, before=6, read=len(r["data"])), tag="tvips-stale-parts")
        shutil.rmtree(folder)
        os.mkdir(folder)
        data = pixels((2, 4, 4), "u2")
        file_writer(name, make(data, 1), version=1, show_progressbar=False)
        try:
            r, = file_reader(name)
            ok = np.array_equal(r["data"], data)
        except Exception:
            ok = False
        s.check(ok, "version 1", dict(version=1), tag="tvips-version-1")
    finally:
        shutil.rmtree(root, ignore_errors=True)
