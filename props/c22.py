"""C22: TIA (ser/emi) files give the data, calibration and metadata that they hold."""
import itertools
import os
import struct
import types
import warnings

from .common import *

ID = "C22"
F = "rsciio/tia/_api.py"
READ = [F + ":" + f for f in ("ser_reader", "load_ser_file", "load_only_data", "get_header_dtype_list", "get_lengths", "dimension_array_dtype",
                              "get_data_dtype_list", "get_data_tag_dtype_list", "guess_record_by", "_guess_units_from_mode", "file_reader")]
EMI = [F + ":" + f for f in ("emi_reader", "get_xml_info_from_emi", "emixml2dtb", "parse_ExperimentalDescription", "parse_TrueImageHeaderInfo",
                             "convert_xml_to_dict", "_get_date_time")]
CODES = {1: "<u1", 2: "<u2", 3: "<u4", 4: "<i1", 5: "<i2", 6: "<i4", 7: "<f4", 8: "<f8", 9: "<c8", 10: "<c16"}


def code_of(dt):
    return dt if isinstance(dt, str) else np.dtype(dt).str.replace("|", "<")


class Values:
    """what lies in a file: a value of a type at a place"""

    def __init__(self):
        self.fns = {}
        self.known = {}

    def fn(self, dt):
        dt = code_of(np.dtype(dt))
        if dt not in self.fns:
            self.fns[dt] = fresh_fn("value_" + dt[1:], I, R if np.dtype(dt).kind in "fc" else I)
        return self.fns[dt]

    def expr(self, pos, dt):
        """at a place that is no part of the head"""
        return self.fn(dt)(ie(pos))

    def get(self, pos, dt):
        p = z3.simplify(ie(pos))
        if z3.is_int_value(p):
            k = (p.as_long(), code_of(np.dtype(dt)))
            if k in self.known:
                return self.known[k]

            prove(False, "the head has a field of the type %s at %d" % (k[1], k[0]))
        e = self.expr(p, dt)
        d = np.dtype(dt)
        if d.kind in "iu":
            info = np.iinfo(d)
            C().assume(z3.And(e >= int(info.min), e <= int(info.max)))
            return mk_int(e)
        return SymReal(e)


class Bytes:
    def __init__(self, values, pos, n):
        self.values, self.pos, self.n = values, pos, n


class SerFile(Sym):
    def __init__(self, values):
        self.values, self.pos, self.closed = values, 0, False
        self.serial = C().next_serial()

    def vc_havoc(self):
        self.pos = fresh_int("pos", 0)

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def move(self, n):
        from pyvc.sym import check_write
        check_write(self)
        expect(not self.closed, "the file is open")
        self.pos = mk_int(ie(self.pos) + ie(n))

    def seek(self, n, whence=0):
        from pyvc.sym import check_write
        check_write(self)
        expect(whence in (0, 1), "place in the file")
        self.pos = n if whence == 0 else mk_int(ie(self.pos) + ie(n))

    def read(self, n):
        p = self.pos
        self.move(n)
        return Bytes(self.values, p, n)


def unpack(fmt, b):
    expect(isinstance(b, Bytes) and not is_sym(b.n) and struct.calcsize(fmt) == b.n and len(fmt) == 2 and fmt[0] == "<", "a number of the file")
    return (b.values.get(b.pos, "<%s%d" % ("u" if fmt[1].isupper() else "i", b.n)),)


class Layout:
    """structured type whose arrays can have any size"""

    def __init__(self, fields):
        self.fields, at = {}, 0
        for f in fields:
            name, t = f[0], f[1]
            sub = ()
            if isinstance(t, tuple):
                t, sub = t
            if getattr(t, "__name__", "") in ("bytes", "vc_bytes"):
                self.fields[name] = (bytes, at, sub)
                at = at + sub
                continue
            t = np.dtype(t)
            sub = tuple(sub) if isinstance(sub, (tuple, list)) else (sub,)
            self.fields[name] = (t, at, sub)
            n = t.itemsize
            for s in sub:
                n = mk_int(ie(n) * ie(s)) if is_sym(s) or is_sym(n) else n * s
            at = mk_int(ie(at) + ie(n)) if is_sym(n) or is_sym(at) else at + n
        self.itemsize = at
        self.names = tuple(self.fields)
        self.subdtype = None


class Cell:
    """field of an array with one record"""

    def __init__(self, v):
        self.v = v

    shape = (1,)

    def __len__(self):
        return 1

    def __getitem__(self, k):
        expect(not is_sym(k) and k in (0, -1), "the only record")
        return self.v

    def __int__(self):
        return int(self.v)

    __index__ = __int__

    def __bool__(self):
        return bool(self.v)


def _op(name):
    import operator
    f = getattr(operator, name)

    def g(self, o):
        return f(self.v, o.v if isinstance(o, Cell) else o)
    return g


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Cell, "__%s__" % _n, _op(_n))
Cell.__hash__ = None


class Rec:
    def __init__(self, values, pos, layout):
        self.values, self.pos, self.dtype = values, pos, layout
        self.shape = (1,)

    def __getitem__(self, k):
        if not isinstance(k, str):
            return self
        if k not in self.dtype.fields:
            raise ValueError("no field of name %s" % k)
        t, at, sub = self.dtype.fields[k]
        if getattr(t, "__name__", "") in ("bytes", "vc_bytes"):
            return Cell(self.values.get(mk_int(ie(self.pos) + ie(at)), "S%d" % sub) if sub else b"")
        expect(sub == (), "a number")
        return Cell(self.values.get(mk_int(ie(self.pos) + ie(at)), t))


class Elements(Sym):
    """records, the k-th at place(k) of the file"""

    def __init__(self, values, n, layout, place):
        self.values, self.n, self.dtype, self.place = values, n, layout, place
        self.count = 0
        self.serial = C().next_serial()

    def vc_havoc(self):
        self.count = fresh_int("records", 0)

    def vc_len(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __setitem__(self, k, rec):
        from pyvc.sym import check_write
        check_write(self)
        expect(isinstance(rec, Rec) and rec.dtype is not None and rec.dtype.names == self.dtype.names and all(
            rec.dtype.fields[n][0] == self.dtype.fields[n][0] for n in rec.dtype.names), "a record of the layout of the elements")
        prove(z3.And([eqi(rec.dtype.fields[n][1], self.dtype.fields[n][1]) for n in rec.dtype.names]), "the places of the fields")
        prove(eqi(k, self.count), "the record that follows")
        prove(eqi(rec.pos, self.place(self.count)), "the record lies where the list of offsets says")
        self.count = mk_int(ie(self.count) + 1)

    def __getitem__(self, k):
        if not isinstance(k, str):
            return self
        prove(eqi(self.count, self.n), "all records are read")
        if k not in self.dtype.fields:
            raise ValueError("no field of name %s" % k)
        t, at, sub = self.dtype.fields[k]
        values, place = self.values, self.place

        def fn(idx):
            lin = ravel_index(list(idx[1:]), sub) if sub else z3.IntVal(0)
            return values.expr(ie(place(mk_int(idx[0]))) + ie(at) + t.itemsize * lin, t)
        return SymArr.func(fn, (self.n,) + tuple(sub), t, k)


from pyvc.sym import floordiv_e, mod_e  # noqa: E402
from pyvc.arr import ravel_index  # noqa: E402


def text(v):
    """str() of a number that is known"""
    if isinstance(v, SymInt):
        for k in range(1, 11):
            if not C().feasible(v.e != k):
                return str(k)
        raise Unsupported("str of an unknown number")
    return str(v)


def names_of(array, dictionary=None):
    d = {} if dictionary is None else dictionary
    d.update({k: ("field", k) for k in array.dtype.names})
    return d


def euclid(a, b, q, r):
    """quotient and remainder are unique"""
    prove(z3.And(b > 0, a == b * q + r, 0 <= r, r < b), "lemma: quotient and remainder")
    C().assume(z3.And(a / b == q, a % b == r, floordiv_e(a, b) == q, mod_e(a, b) == r))


def xml(mode, camera, length):
    return ("<ObjectInfo><AcquireDate>Mon Feb 22 11:50:36 2016</AcquireDate><ExperimentalDescription><Root>%s<Data><Label>High tension</Label>"
            "<Value>200</Value><Unit>kV</Unit></Data></Root></ExperimentalDescription><AcquireInfo>%s<DwellTimePath>1</DwellTimePath></AcquireInfo></ObjectInfo>" % (
                "<Data><Label>Mode</Label><Value>%s</Value><Unit></Unit></Data>" % mode if mode else "", "<CameraNamePath>c</CameraNamePath>" if camera else ""))


def reciprocal(mode, camera, size, unit):
    """units of images by the kind of the acquisition"""
    if not mode:
        return False
    if "STEM" in mode:
        return camera or (unit != "" and size != 1)
    return "Diffraction" in mode


def read(version=0x220, dims=1, image=False, code=5, units="meters", desc="Position", tags=True, order="F", part=None, only=True, lazy=False, obj=None, ext="ser"):
    """part: None all recorded, 'some' the series stopped, 'one' after the first element"""
    def run():
        vals = Values()
        w = 4 if version <= 528 else 8
        uw = "<u%d" % w
        D = [fresh_int("size%d" % (k + 1), 1, inp=True) for k in range(dims)]
        total = D[0] if dims == 1 else mk_int(D[0].e * D[1].e)
        n = total
        if part == "some":
            n = fresh_int("recorded", 2, inp=True)
            C().assume(n.e < total.e)
        elif part == "one":
            n = 1
            C().assume(total.e > 1)
        O = fresh_int("list_of_offsets", 64, inp=True)
        known = vals.known
        known.update({(0, "<u2"): 0x4949, (2, "<u2"): 0x197, (4, "<u2"): version, (6, "<u4"): 16674 if image else 16672,
                      (10, "<u4"): 16706 if tags else 16722, (14, "<u4"): total, (18, "<u4"): n, (22, uw): O, (22 + w, "<u4"): dims})
        at = 26 + w
        place = {}
        for k in range(dims):
            off, delta, el = fresh_real("offset%d" % (k + 1), inp=True), fresh_real("delta%d" % (k + 1), inp=True), fresh_int("element%d" % (k + 1), 0)
            place[k] = (D[k], off, delta, el)
            d, u = desc.encode(), units.encode()
            known.update({(at, "<u4"): D[k], (at + 4, "<f8"): off, (at + 12, "<f8"): delta, (at + 20, "<u4"): el, (at + 24, "<u4"): len(d),
                          (at + 28, "<S%d" % len(d)): d, (at + 28 + len(d), "<u4"): len(u), (at + 32 + len(d), "<S%d" % len(u)): u})
            at += 32 + len(d) + len(u)
        A = lambda k: vals.expr(O.e + w * ie(k), uw)
        k_ = z3.Int("k!")
        C().assume(z3.ForAll([k_], A(mk_int(k_)) >= 64))
        A0 = A(0)
        typ = np.dtype(CODES[code])
        head = 50 if image else 26
        C().assume(vals.expr(A0 + (40 if image else 20), "<u2") == code)
        sub = [mk_int(vals.expr(A0 + (46 if image else 22), "<u4"))]
        if image:
            sub.append(mk_int(vals.expr(A0 + 42, "<u4")))
        for x in sub:
            C().assume(x.e >= 1)
        tag = head
        size = mk_int(typ.itemsize * (sub[0].e * sub[1].e if image else sub[0].e))
        posy = lambda k: vals.expr(A(k) + head + size.e + 16, "<f8")
        if tags and part != "one":
            eq = posy(0) == posy(1)
            C().assume(z3.Implies(n.e > 1, eq if order == "F" else z3.Not(eq)) if is_sym(n) else eq)
            if dims == 2 and order == "F":
                C().assume(D[0].e > 1)                       # one column: the second element lies in another row
            elif dims == 2:
                C().assume(n.e > 1)
        files = []

        def opened(name, mode="r", *a, **k):
            expect(name == "d/f." + ext and mode == "rb", "the file is opened to read it")
            files.append(SerFile(vals))
            return files[-1]

        def dtype(d, *a, **k):
            return Layout(d) if isinstance(d, list) else d if isinstance(d, Layout) else np.dtype(d, *a, **k)

        def fromfile(f, dtype=None, count=-1):
            p = f.pos
            if isinstance(dtype, Layout):
                expect(not is_sym(count) and count == 1, "one record")
                f.move(dtype.itemsize)
                return Rec(vals, p, dtype)
            t = np.dtype(dtype)
            f.move(mk_int(ie(count) * t.itemsize))
            pe = ie(p)
            return SymArr.func(lambda idx: vals.expr(pe + t.itemsize * idx[0], t), (count,), t, "numbers of the file")
        made = []

        def empty(shape, dtype=None, **k):
            made.append(Elements(vals, shape, dtype, lambda k: mk_int(A(k))))
            return made[-1]
        lazily = []

        def delayed(f, **k):
            def call(*a, **kw):
                lazily.append((a, kw))
                return f(*a, **kw)
            return call

        def from_delayed(v, shape=None, dtype=None, **k):
            expect(len(shape) == v.ndim and np.dtype(dtype) == v.dtype, "shape and type of lazy data")
            prove(z3.And([eqi(a, b) for a, b in zip(shape, v.shape)] + [z3.BoolVal(True)]), "shape of lazy data")
            return v
        nan = fresh_real("nan").e
        m = load_module(F, np_over={"nan": SymReal(nan), "dtype": dtype, "fromfile": fromfile, "empty": empty}, builtin_over={"open": opened, "str": text},
                        patch={"dask:delayed": delayed, "dask.array:from_delayed": from_delayed})
        m.struct = types.SimpleNamespace(unpack=unpack, calcsize=struct.calcsize)
        m.log_struct_array_values = lambda *a: None
        m.sarray2dict = names_of

        def inv(v, k):
            return {"the place of the file": eqi(files[-1].pos, A(k)), "records read": eqi(made[-1].count, k)}
        C().run.loop_specs = [LoopSpec("elements", inv, mutates=lambda v: [files[-1], made[-1]], where=lambda fn, loc, it: bool(made))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if obj is None:
                (r,) = m.file_reader("d/f." + ext, lazy=lazy, only_valid_data=only)
            else:
                (r,) = m.ser_reader("d/f." + ext, [xml(*obj)], lazy, only)
        expect(all(f.closed for f in files), "the file is closed")
        expect(bool(lazily) == lazy, "lazy as asked")
        # axes of the header
        seq = list(range(dims)) if order == "C" else list(range(dims))[::-1]
        stopped = dims == 1 and part is not None and only
        nav, names = [], ["x"] if dims == 1 else ["y", "x"]
        for j, k in enumerate(seq):
            if stopped:
                if part == "one":
                    continue
                nav.append((k, n))
            elif image and C().fork(D[k].e == 1):
                continue
            else:
                nav.append((k, D[k]))
        axes = r["axes"]
        expect(len(axes) == len(nav) + (2 if image else 1), "number of axes")
        nm = names[:]
        for a, (k, length) in zip(axes, nav):
            s_, off, delta, el = place[k]
            prove(eqi(a["size"], length), "size of a navigation axis")
            f = {"meters": 10 ** 9}.get(units, 1)
            prove(re_(a["scale"]) == re_(delta) * f, "scale of a navigation axis")
            prove(re_(a["offset"]) == (re_(off) - z3.ToReal(ie(el)) * re_(delta)) * f, "offset of a navigation axis")
            expect(a["units"] == ("nm" if units == "meters" else units or None), "units of a navigation axis")
            expect(a["name"] == (nm.pop(0) if units == "meters" else None), "name of a navigation axis")
            expect(a["navigate"] is True, "navigation axis")
        rec = (lambda o, t: vals.expr(A0 + o, t))
        sig = [("y", 20, sub[0]), ("x", 0, sub[1])] if image else [("Energy", 0, sub[0])]
        inverse = image and obj is not None and reciprocal(obj[0], obj[1], None, units)
        if image and obj is not None and obj[0] and "STEM" in obj[0] and not obj[1]:
            inverse = units != "" and C().fork(D[0].e > 1)
        for a, (name, o, length) in zip(axes[len(nav):], sig):
            prove(eqi(a["size"], length), "size of a signal axis")
            f = 1 if not image else z3.RealVal("1/1000000000") if inverse else 10 ** 9
            prove(re_(a["scale"]) == rec(o + 8, "<f8") * f, "scale of a signal axis")
            prove(re_(a["offset"]) == (rec(o, "<f8") - z3.ToReal(rec(o + 16, "<u4")) * rec(o + 8, "<f8")) * f, "offset of a signal axis")
            expect(a["units"] == ("eV" if not image else "1 / nm" if inverse else "nm"), "units of a signal axis")
            expect(a["name"] == name and a["navigate"] is False, "signal axis")
        if not image:
            expect(axes[-1]["index_in_array"] == len(axes) - 1, "place of the energy axis")
        # data
        d = r["data"]
        expect(isinstance(d, SymArr) and d.dtype == typ and d.ndim == len(axes), "type and axes of the data")
        prove(z3.And([eqi(a["size"], s_) for a, s_ in zip(axes, d.shape)]), "the axes have the sizes of the data")
        idx = [fresh_int("i%d" % k, 0) for k in range(d.ndim)]
        for i, s_ in zip(idx, d.shape):
            C().assume(i.e < ie(s_))
        at_ = {k: i.e for (k, _), i in zip(nav, idx)}
        i1, i2 = at_.get(0, z3.IntVal(0)), at_.get(1, z3.IntVal(0))
        e = i1 if dims == 1 else i1 + ie(D[0]) * i2 if order == "F" else i1 * ie(D[1]) + i2
        inner = idx[len(nav):]
        lin = inner[0].e if not image else (sub[0].e - 1 - inner[0].e) * sub[1].e + inner[1].e
        per = sub[0].e * sub[1].e if image else sub[0].e
        C().assume(z3.And(0 <= lin, lin < per))
        if image:
            # L: place among all numbers; line and column of the element in the array of the records
            sx = sub[1].e                                # records hold (x, y) arrays
            yy, xx = sub[0].e - 1 - inner[0].e, inner[1].e
            q1, r1 = fresh_int("quotient", 0).e, fresh_int("rest", 0).e
            C().assume(z3.And(lin == q1 * sub[0].e + r1, r1 < sub[0].e))     # exists for every lin
            prove(q1 < sx, "lemma: line of the record")
            C().assume(q1 < sx)
            euclid((e * sub[0].e + yy) * sx + xx, sub[0].e, e * sx + q1, r1)
            euclid(e * sx + q1, sx, e, q1)
        else:
            euclid(e * per + lin, per, e, lin)
        if dims == 2:
            fast, slow, w_ = (i1, i2, ie(D[0])) if order == "F" else (i2, i1, ie(D[1]))
            h_ = ie(D[1] if order == "F" else D[0])
            C().assume((h_ - 1 - slow) * w_ >= 0)           # product of two numbers that are not negative
            prove(z3.And(h_ - 1 - slow >= 0, w_ >= 0), "lemma: inside the map")
        prove(z3.And(e >= 0, e < ie(total)), "lemma: inside the series")
        want = vals.expr(A(mk_int(e)) + head + typ.itemsize * lin, typ)
        got = d.expr(*idx)
        if part is not None and not stopped:
            prove(z3.Implies(e < ie(n), got == want), "recorded elements")
            prove(z3.Implies(e >= ie(n), got == (nan if typ.kind == "f" else 0)), "elements that are not recorded")
        else:
            prove(got == want, "every element")
        g = r["metadata"]
        expect(g["General"]["original_filename"] == "f." + ext and g["Signal"]["signal_type"] == "", "metadata")
        if obj is not None:
            expect(g["General"].get("date") == "2016-02-22" and g["General"].get("time") == "11:50:36", "date and time")
        keys = r["original_metadata"]["ser_header_parameters"]
        expect("Array" not in keys and "ValidNumberElements" in keys, "the values of the header")
    return run


CONTRACTS = []


def add(name, **k):
    CONTRACTS.append(Contract(name, read(**k), READ))


for _image in (False, True):
    _n = "images" if _image else "spectra"
    for _dims in (1, 2):
        for _v in (0x210, 0x220):
            for _order in "FC":
                add("%d dimensions of %s, version %#x, %s order" % (_dims, _n, _v, _order), dims=_dims, image=_image, version=_v, order=_order)
        for _part in ("some", "one"):
            for _only in (True, False):
                for _code in (4, 7):
                    add("%d dimensions of %s, %s recorded, %s, code %d" % (_dims, _n, _part, "only those" if _only else "filled", _code),
                        dims=_dims, image=_image, part=_part, only=_only, code=_code, tags=_part == "some", order="F" if _part == "some" else "C")
        add("%d dimensions of %s, no positions" % (_dims, _n), dims=_dims, image=_image, tags=False, order="C")
        add("%d dimensions of %s, lazy" % (_dims, _n), dims=_dims, image=_image, lazy=True)
        add("%d dimensions of %s, lazy, some recorded" % (_dims, _n), dims=_dims, image=_image, lazy=True, part="some")
        for _u, _d in (("", "Number"), ("s", ""), ("meters", "é"), ("", "")):
            add("%d dimensions of %s, units %r, description %r" % (_dims, _n, _u, _d), dims=_dims, image=_image, units=_u, desc=_d)
    for _c in CODES:
        add("%s of code %d" % (_n, _c), image=_image, code=_c)
    add("%s of a file SER" % _n, image=_image, ext="SER")
for _m in ("STEM nP SA Zoom Diffraction", "TEM uP SA Zoom Image", "Diffraction", ""):
    for _cam in (True, False):
        for _u in ("", "meters"):
            add("mode %r, camera %s, units %r" % (_m, _cam, _u), image=True, obj=(_m, _cam, 1), units=_u)
add("spectra with the time", obj=("STEM", True, 1))


def emi_read(numbers, objects, lazy=False, only=True, ext="emi", others=()):
    """the ser files of an emi file in their order, each with the metadata of its own"""
    def run():
        text = b"JI head"
        for k in range(objects):
            text += b"uuid%d" % k + ("<ObjectInfo><AcquireDate>Mon Feb %02d 11:50:36 2016</AcquireDate><Uuid>é%d</Uuid></ObjectInfo>" % (k + 1, k + 1)).encode() + b"\xff\x00tail"
        calls, patterns = [], []

        class File:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def read(self):
                return text

        def opened(name, mode="r", *a, **k):
            expect(name == "d[1]/f_1." + ext and mode == "rb", "the emi file is opened to read it")
            return File()

        def ser_reader(name, objects=None, lazy=False, only_valid_data=True):
            calls.append((name, objects, lazy, only_valid_data))
            return [{"original_metadata": {"ser_header_parameters": {"a": name}}, "axes": [], "metadata": {}}]
        m = load_module(F, builtin_over={"open": opened})
        m.ser_reader = ser_reader
        m.glob = lambda p, *a, **k: patterns.append(p) or ["d[1]/f_1_%s.ser" % x for x in list(numbers) + list(others)]
        out = m.file_reader("d[1]/f_1." + ext, lazy=lazy, only_valid_data=only)
        import fnmatch
        expect(len(patterns) == 1 and all(fnmatch.fnmatchcase("d[1]/f_1_%s.ser" % x, patterns[0]) for x in numbers), "files that are looked for")
        order = sorted(numbers, key=int)
        expect([c[0] for c in calls] == ["d[1]/f_1_%s.ser" % x for x in order] and len(out) == len(order), "every ser file once, in their order")
        for x, c, r in zip(order, calls, out):
            k = int(x)
            expect(c[2] is lazy and c[3] is only, "lazy and recorded data as asked")
            own = r["original_metadata"]
            expect(own["ser_header_parameters"] == {"a": c[0]}, "the header of the ser file")
            if k <= objects:
                expect(len(c[1]) >= 1 and "<Uuid>é%d</Uuid>" % k in c[1][0], "the metadata of this file")
                expect(own["ObjectInfo"]["Uuid"] == "é%d" % k and own["ObjectInfo"]["AcquireDate"] == "Mon Feb %02d 11:50:36 2016" % k, "the metadata of this file")
            else:
                expect(not c[1] and "ObjectInfo" not in own, "files without metadata")
    return run


def emi_add(name, *a, **k):
    CONTRACTS.append(Contract(name, emi_read(*a, **k), EMI))


emi_add("one ser file", ["1"], 1)
emi_add("ser files in no order", ["10", "2", "1", "11", "9", "3"], 11)
emi_add("ser files with gaps", ["2", "5"], 6, lazy=True)
emi_add("more ser files than metadata", ["3", "1", "2"], 1, only=False)
emi_add("no metadata", ["1", "2"], 0)
emi_add("ser files of others", ["1", "2"], 2, others=["1_1", "2b"], ext="EMI")
emi_add("no ser files", [], 3)


ASSUMPTIONS = [
    "np.fromfile, struct and open: the bytes of the place where the file stands, and the place moves behind them; numbers are values of their type; real arithmetic for the calibration",
    "xml.etree.ElementTree, dateutil and box: run as they are",
    "numpy structured arrays: modelled by the sizes and places of their fields; the assignment of a record copies it",
    "sarray2dict: its own code is covered by the search only",
    "glob: gives the files of the pattern in any order",
]

UNITS = ("meters", "", "s", "deg")
LABEL = [("High tension", "200", "kV", "High tension_kV"), ("Microscope", "Microscope Titan 300", "", "Microscope"), ("Stage A", "1.5", "deg", "Stage A_deg"),
         ("Magnification", "inf. focus", "x", "Magnification_x"), ("Camera length", "0.115", "m", "Camera length_m")]


def element(rng, image, code, shape):
    t = np.dtype(CODES[code])
    cal = [(rng.choice([0.0, -3.5, rng.uniform(-1e-7, 1e-7)]), rng.choice([1e-9, 5.0, rng.uniform(1e-12, 1e-8)]), rng.choice([0, 0, 3, 1023])) for _ in range(2 if image else 1)]
    raw = bytes(rng.getrandbits(8) for _ in range(t.itemsize * int(np.prod(shape)))) if t.kind in "iu" else np.array(
        [rng.uniform(-9, 9) for _ in range(int(np.prod(shape)) * (2 if t.kind == "c" else 1))], "<f%d" % (t.itemsize // (2 if t.kind == "c" else 1))).tobytes()
    return cal, raw


def write_ser(rng, path, image, dims, recorded, version, code, shape, order, tags):
    """dims: (size, offset, delta, element, description, units); shape: (x, y) or (channels,); gives what the elements hold"""
    w = "<I" if version <= 528 else "<Q"
    total = int(np.prod([d[0] for d in dims]))
    head = b""
    for size, off, delta, el, desc, units in dims:
        d, u = desc.encode(), units.encode()
        head += struct.pack("<IddI", size, off, delta, el) + struct.pack("<I", len(d)) + d + struct.pack("<I", len(u)) + u
    body_at = 22 + struct.calcsize(w) + 4 + len(head)
    # the list of offsets lies before or after the elements
    first = rng.random() < 0.3
    out, at = [], body_at + (struct.calcsize(w) * 2 * total + 16 if first else 0)
    offs, tag_offs, raws = [], [], []
    xs = dims[0][0]
    pieces = {}
    cal = None
    places = list(range(recorded))
    for k in range(recorded):
        c, raw = element(rng, image, code, shape)
        cal = cal or c
        raws.append(raw)
        e = b"".join(struct.pack("<ddI", *x) for x in cal) + struct.pack("<H", code) + b"".join(struct.pack("<I", n) for n in shape) + raw
        x, y = (k % xs, k // xs) if order == "F" else (k // dims[-1][0], k % dims[-1][0])
        t = struct.pack("<HHI", 0x4142 if tags else 0x4152, 0, 1456141836 + k)
        if tags:
            if len(dims) == 1:
                px, py = (1e-9 * k, 2e-9) if order == "F" else (2e-9, 1e-9 * k)
            else:
                px, py = 1e-9 * x, 2e-9 * y
            t += struct.pack("<dd", px, py)
        gap = b"\x55" * rng.choice([0, 0, 5])
        offs.append(at)
        tag_offs.append(at + len(e))
        out.append(e + t + gap)
        at += len(e + t + gap)
    body = b"".join(out)
    table = b"".join(struct.pack(w, o) for o in offs + [0] * (total - recorded) + tag_offs + [0] * (total - recorded))
    where = body_at if first else at
    with open(path, "wb") as f:
        f.write(struct.pack("<HHHIIII", 0x4949, 0x197, version, 0x4122 if image else 0x4120, 0x4142 if tags else 0x4152, total, recorded)
                + struct.pack(w, where) + struct.pack("<I", len(dims)) + head)
        f.write(table.ljust(struct.calcsize(w) * 2 * total + 16, b"\0") + body if first else body + table + b"\0" * 8)
    return cal, raws


def rand_ser(s, path):
    rng = s.rng
    image = rng.random() < 0.45
    nd = rng.choice([1, 1, 2])
    code = rng.randrange(1, 11)
    sizes = [rng.randrange(1, 5)] if nd == 1 else [rng.randrange(2, 4), rng.randrange(1, 4)]
    total = int(np.prod(sizes))
    recorded = total if rng.random() < 0.6 else rng.randrange(1 if nd == 1 else 2, total + 1)
    order = rng.choice("FFC")
    tags = rng.random() < 0.7
    if not tags:
        order = "C"
    if nd == 2 and order == "C" and sizes[1] == 1:
        sizes, total = [sizes[0], 2], sizes[0] * 2
        recorded = min(recorded, total)
    dims = [(n, rng.choice([0.0, rng.uniform(-1e-6, 1e-6)]), rng.choice([1.0, rng.uniform(1e-9, 1e-6)]), rng.choice([0, 0, 2, 7]), rng.choice(["Position", "", "Número"]),
             rng.choice(UNITS) if nd == 1 else "meters") for n in sizes]
    shape = (rng.randrange(1, 5), rng.randrange(1, 5)) if image else (rng.randrange(1, 7),)
    version = rng.choice([0x210, 0x220])
    cal, raws = write_ser(rng, path, image, dims, recorded, version, code, shape, order, tags)
    return {"image": image, "dims": dims, "recorded": recorded, "version": hex(version), "code": code, "shape": shape, "order": order, "tags": tags}, cal, raws


def signal(case, cal, raws, only, obj=None):
    """data and axes that the file holds"""
    image, dims, order, n = case["image"], case["dims"], case["order"], case["recorded"]
    t = np.dtype(CODES[case["code"]])
    sizes = [d[0] for d in dims]
    total = int(np.prod(sizes))
    if len(dims) == 1 and only and n != total:
        sizes = [n]
    shape = tuple(case["shape"][::-1])
    full = np.full((int(np.prod(sizes)),) + shape, np.nan if t.kind == "f" else 0, t)
    for k, raw in enumerate(raws):
        full[k] = np.frombuffer(raw, t).reshape(shape)
    if image:
        full = full[:, ::-1]
    nav = list(range(len(dims)))
    if order == "F":
        nav = nav[::-1]
    data = full.reshape(tuple(sizes[k] for k in nav) + shape)
    axes = []
    names = ["y", "x"] if len(dims) == 2 else ["x"]
    keep = []
    for k, size, name in zip(nav, [sizes[k] for k in nav], names):
        if len(dims) == 1 and only and n != total and n == 1:
            continue
        if image and dims[k][0] == 1:
            continue
        keep.append((k, size))
    if image:
        data = data.reshape(tuple(size for _, size in keep) + shape)
    elif not keep:
        data = data.reshape(shape)
    for k, size in keep:
        _, off, delta, el, _, u = dims[k]
        f = 1e9 if u == "meters" else 1
        axes.append((size, (off - el * delta) * f, delta * f, "nm" if u == "meters" else u or None, names.pop(0) if u == "meters" else None, True))
    inverse = False
    if image and obj and obj[0]:
        inverse = (obj[1] or (dims[0][5] != "" and dims[0][0] > 1)) if "STEM" in obj[0] else "Diffraction" in obj[0]
    for (off, delta, el), size, name in zip(cal[::-1], shape, ["y", "x"] if image else ["Energy"]):
        f = 1 if not image else 1e-9 if inverse else 1e9
        axes.append((size, (off - el * delta) * f, delta * f, "eV" if not image else "1 / nm" if inverse else "nm", name, False))
    return data, axes


def compare(s, r, case, cal, raws, only, name, obj=None):
    data, axes = signal(case, cal, raws, only, obj)
    got = np.asarray(r["data"])
    s.check(got.dtype == data.dtype and got.shape == data.shape and got.tobytes() == np.ascontiguousarray(data).tobytes() or
            (got.dtype == data.dtype and got.shape == data.shape and np.array_equal(got, data, equal_nan=data.dtype.kind in "fc")), "the data of the file", case)
    s.check(len(r["axes"]) == len(axes), "number of axes", case)
    for a, (size, off, scale, units, label, nav) in zip(r["axes"], axes):
        near = lambda x, y, z: abs(x - y) <= 1e-9 * (abs(y) + abs(z))
        s.check(a["size"] == size and near(a["offset"], off, 2000 * scale) and near(a["scale"], scale, 0), "size, offset and scale of the axes", case)
        s.check(a["units"] == units and a["name"] == label and a["navigate"] is nav, "units, name and kind of the axes", case)
    s.check(case["image"] or r["axes"][-1]["index_in_array"] == len(axes) - 1, "place of the energy axis", case)
    s.check(r["metadata"]["General"]["original_filename"] == name, "name of the file", case)
    h = r["original_metadata"]["ser_header_parameters"]
    s.check(h["ValidNumberElements"] == case["recorded"] and "Array" not in h and h["Dim-1_DimensionSize"] == case["dims"][0][0] and
            np.all(np.atleast_1d(h["Time"]) == 1456141836 + np.arange(case["recorded"])), "the values of the header", case)


def object_xml(rng, k, mode, camera):
    labels = rng.sample(LABEL, rng.randrange(len(LABEL) + 1))
    data = "".join("<Data><Label>%s</Label><Value>%s</Value><Unit>%s</Unit></Data>" % x[:3] for x in labels)
    if mode:
        data += "<Data><Label>Mode</Label><Value>%s</Value><Unit></Unit></Data>" % mode
    true_image = {str(i): rng.uniform(-5, 5) for i in range(rng.randrange(4))}
    inner = "<Root>%s</Root>" % "".join("<Data><Index>%s</Index><Value>%r</Value></Data>" % x for x in true_image.items())
    day = rng.randrange(1, 29)
    text = ("<ObjectInfo><Uuid>id-%d</Uuid><AcquireDate>Mon Feb %02d 11:50:36 2016</AcquireDate><ExperimentalDescription><Root>%s</Root></ExperimentalDescription>"
            "<AcquireInfo>%s<DwellTimePath>0.5</DwellTimePath></AcquireInfo><DetectorRange><Start>%d</Start></DetectorRange>%s</ObjectInfo>" % (
                k, day, data, "<CameraNamePath>BM-Ceta</CameraNamePath>" if camera else "", k,
                "<TrueImageHeaderInfo>%s</TrueImageHeaderInfo>" % inner.replace("<", "&lt;").replace(">", "&gt;")))
    want = {}
    for label, value, unit, key in labels:
        try:
            want[key] = float(value) if unit else value
        except ValueError:
            want[key] = value
    return text, day, want, true_image


def search(s):
    from rsciio.tia import _api as t
    import logging
    logging.getLogger("rsciio.tia._api").setLevel(logging.ERROR)
    tmp = getattr(s, "tmp", None) or "."
    rng = s.rng
    errors = (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, struct.error, UnicodeDecodeError, OverflowError, AssertionError)
    for k in range(s.n(700, 8000)):
        if not s.left():
            break
        ext = rng.choice(["ser", "SER"])
        path = os.path.join(tmp, "f%d.%s" % (k, ext))
        case, cal, raws = rand_ser(s, path)
        s.note(case)
        only, lazy = rng.random() < 0.6, rng.random() < 0.3
        case = dict(case, only_valid_data=only, lazy=lazy)
        try:
            (r,) = t.file_reader(path, lazy=lazy, only_valid_data=only)
            if lazy:
                r = dict(r, data=r["data"].compute())
        except errors as e:
            s.fail("ser files are read (%s: %s)" % (type(e).__name__, str(e)[:60]), case)
            continue
        compare(s, r, case, cal, raws, only, os.path.basename(path))
        os.remove(path)
    for k in range(s.n(150, 2000)):
        if not s.left():
            break
        base = os.path.join(tmp, rng.choice(["e%d", "e[%d]", "e_%d", "é %d"]) % k)
        numbers = rng.sample(range(1, 13), rng.randrange(1, 4))
        objects = rng.randrange(0, 13)
        files = {}
        for n in numbers:
            files[n] = rand_ser(s, "%s_%d.ser" % (base, n))
        xml_ = []
        kinds = []
        for j in range(objects):
            mode, camera = rng.choice(["", "STEM nP", "TEM uP Image", "TEM Diffraction"]), rng.random() < 0.5
            kinds.append((mode, camera))
            xml_.append(object_xml(rng, j + 1, mode, camera))
        with open(base + ".emi", "wb") as f:
            f.write(b"JI\x05\x02\xff".ljust(40, b"\xfe") + b"".join(bytes(rng.getrandbits(8) for _ in range(20)) + x[0].encode() + b"\n" for x in xml_))
        only, lazy = rng.random() < 0.6, rng.random() < 0.3
        case = {"numbers": numbers, "objects": objects, "name": os.path.basename(base)}
        s.note(case)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = t.file_reader(base + ".emi", lazy=lazy, only_valid_data=only)
        except errors as e:
            s.fail("emi files are read (%s: %s)" % (type(e).__name__, str(e)[:60]), case)
            continue
        s.check(len(out) == len(numbers), "every ser file is read", case)
        for n, r in zip(sorted(numbers), out):
            c, cal, raws = files[n]
            c = dict(c, number=n, **case)
            has = n <= objects
            if lazy:
                r = dict(r, data=r["data"].compute())
            compare(s, r, c, cal, raws, only, "%s_%d.ser" % (os.path.basename(base), n), kinds[n - 1] if has else None)
            g, o = r["metadata"]["General"], r["original_metadata"]
            if has:
                _, day, want, true_image = xml_[n - 1]
                s.check(g.get("date") == "2016-02-%02d" % day and g.get("time") == "11:50:36", "date and time", c)
                info = o["ObjectInfo"]
                s.check(info["Uuid"] == "id-%d" % n and info["DetectorRange"]["Start"] == str(n) and info["AcquireInfo"]["DwellTimePath"] == "0.5", "metadata of the file", c)
                desc = {a: b for a, b in info["ExperimentalDescription"].items() if a != "Mode"}
                s.check(desc == want, "experimental description", c)
                s.check(info["TrueImageHeaderInfo"] == true_image, "values of the true image header", c)
            else:
                s.check("date" not in g and "ObjectInfo" not in o, "no metadata of another file", c)
        for n in numbers:
            os.remove("%s_%d.ser" % (base, n))
        os.remove(base + ".emi")
