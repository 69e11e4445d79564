"""C05: fixed-width binary fields are decoded from exactly their bytes, in the
stated byte order, and written fields read back as written."""
import io
import struct as _struct

from .common import *

ID = "C05"
RF = "rsciio/utils/_readfile.py"
TIA = "rsciio/tia/_api.py"
DS = "rsciio/digitalsurf/_api.py"
SEM = "rsciio/semper/_api.py"

# name -> (bytes, kind); the format's own definition of the field
READERS = {
    "read_short": (2, "i"), "read_ushort": (2, "u"), "read_long": (4, "i"), "read_ulong": (4, "u"),
    "read_long_long": (8, "i"), "read_ulong_long": (8, "u"), "read_float": (4, "f"),
    "read_double": (8, "f"), "read_boolean": (1, "u"), "read_byte": (1, "i"), "read_char": (1, "c"),
}


def spec_value(f, pos, n, kind, endian):
    """positional value of n bytes at pos"""
    order = range(n - 1, -1, -1) if endian == "little" else range(n)
    u = z3.IntVal(0)
    for j in order:
        b = f.at(mk_int(ie(pos) + j))
        assume(z3.And(b >= 0, b <= 255))
        u = u * 256 + b
    if kind == "i":
        return z3.If(u >= 2 ** (8 * n - 1), u - 2 ** (8 * n), u)
    return u


def same(r, f, pos, n, kind, endian):
    want = spec_value(f, pos, n, kind, endian)
    if kind == "f":
        from pyvc.arr import float_decode
        return re_(r) == float_decode(n)(want)
    if kind == "c":
        return z3.And(ie(r.vc_len()) == 1, r.byte(0) == want)
    return ie(r) == want


def reader(name, endian):
    n, kind = READERS[name]

    def run():
        m = load_module(RF)
        f = SymFile("f", pos=fresh_int("pos", 0, inp=True))
        p0 = f.pos
        assume(ie(p0) <= ie(f.length))
        enough = bool(mk_bool(ie(p0) + n <= ie(f.length)))
        try:
            r = getattr(m, name)(f, endian)
        except _struct.error:
            prove(not enough, "an error only when fewer than %d bytes are left" % n)
            return
        prove(enough, "a truncated field is an error")
        prove(same(r, f, p0, n, kind, endian), "value of the %d bytes, %s endian" % (n, endian))
        prove(ie(f.pos) == ie(p0) + n, "position advances by %d" % n)
    return run


def bad_endian():
    m = load_module(RF)
    from rsciio.exceptions import ByteOrderError
    for name in READERS:
        f = SymFile("f", pos=fresh_int("pos", 0))
        p0 = f.pos
        raised = False
        try:
            getattr(m, name)(f, "middle")
        except Exception as e:
            raised = type(e).__name__ == "ByteOrderError"
        expect(raised, name + ": unknown byte order is an error")
        prove(eqi(f.pos, p0), name + ": nothing is read then")


def tia_reader(name, n):
    def run():
        m = load_module(TIA)
        f = SymFile("f", pos=fresh_int("pos", 0, inp=True))
        p0 = f.pos
        assume(ie(p0) + n <= ie(f.length))
        r = getattr(m, name)(f)
        prove(same(r, f, p0, n, "u", "little"), "value of the %d bytes" % n)
        prove(ie(f.pos) == ie(p0) + n, "position advances by %d" % n)
    return run


def tia_lengths():
    """get_lengths: 24 bytes, then two counted strings"""
    m = load_module(TIA)
    f = SymFile("f", pos=fresh_int("pos", 0, inp=True))
    p0 = ie(f.pos)
    d = spec_value(f, mk_int(p0 + 24), 4, "u", "little")
    u = spec_value(f, mk_int(p0 + 28 + d), 4, "u", "little")
    assume(p0 + 32 + d + u <= ie(f.length))
    a, b = m.get_lengths(f)
    prove([ie(a) == d, ie(b) == u], "the two string lengths")
    prove(ie(f.pos) == p0 + 32 + d + u, "position just after the dimension entry")


class Loop_(io.RawIOBase):
    """what was written, read back"""

    def __init__(self, parts):
        self.parts = parts

    def read(self, n):
        expect(len(self.parts) == 1, "one write per field")
        b = self.parts[0]
        prove(eqi(b.vc_len() if is_sym(b) else len(b), n), "as many bytes written as read")
        return b


def ds_field(suffix, n, kind):
    def run():
        m = load_module(DS)
        H = m.DigitalSurfHandler
        f = SymFile("out", length=0)
        lo, hi = (-(2 ** (8 * n - 1)), 2 ** (8 * n - 1)) if kind == "i" else (0, 2 ** (8 * n))
        v = fresh_real("value", inp=True) if kind == "f" else fresh_int("value", lo, hi, inp=True)
        getattr(H, "_set_" + suffix)(f, v)
        prove(eqi(f.pos, n), "field width")
        r = getattr(H, "_get_" + suffix)(Loop_([b for _, b in f.out]))
        prove(re_(r) == re_(v) if kind == "f" else ie(r) == ie(v), "reads back as written")
        b = f.out[0][1]
        if kind != "f":
            u = z3.IntVal(0)
            for j in range(n - 1, -1, -1):
                u = u * 256 + b.byte(j)
            prove(u == z3.If(ie(v) < 0, ie(v) + 2 ** (8 * n), ie(v)), "little endian two's complement")
        # reading from a file at any position
        g = SymFile("f", pos=fresh_int("pos", 0, inp=True))
        p0 = g.pos
        assume(ie(p0) + n <= ie(g.length))
        r = getattr(H, "_get_" + suffix)(g)
        prove(same(r, g, p0, n, kind, "little"), "value of the %d bytes" % n)
        prove(ie(g.pos) == ie(p0) + n, "position advances by %d" % n)
    return run


def ds_range(suffix, n, kind):
    """a value that does not fit is an error, never a wrapped field"""
    def run():
        m = load_module(DS)
        f = SymFile("out", length=0)
        v = fresh_int("value", inp=True)
        lo, hi = (-(2 ** (8 * n - 1)), 2 ** (8 * n - 1)) if kind == "i" else (0, 2 ** (8 * n))
        try:
            getattr(m.DigitalSurfHandler, "_set_" + suffix)(f, v)
        except _struct.error:
            prove(z3.Or(v.e < lo, v.e >= hi), "rejected only when out of range")
            return
        prove(z3.And(v.e >= lo, v.e < hi), "accepted only when in range")
    return run


def semper_pack():
    m = load_module(SEM)
    v = fresh_real("value", inp=True)
    bs = m.pack_to_intbytes("<f", v)
    expect(len(bs) == 4, "four label words")
    for b in bs:
        prove(z3.And(ie(b) >= 0, ie(b) < 256), "each label word is one byte")
    r = m.unpack_from_intbytes("<f", bs)
    prove(re_(r) == re_(v), "a calibration value reads back as written")


CONTRACTS = [Contract("%s, %s" % (n, e), reader(n, e), [RF + ":" + n])
             for n in READERS for e in ("little", "big")]
CONTRACTS += [Contract("unknown byte order", bad_endian, [RF + ":" + n for n in READERS])]
CONTRACTS += [Contract("TIA " + n, tia_reader(n, w), [TIA + ":" + n])
              for n, w in (("readLELongLong", 8), ("readLELong", 4), ("readLEShort", 2))]
CONTRACTS += [Contract("TIA dimension entry", tia_lengths, [TIA + ":get_lengths"])]
CONTRACTS += [Contract("digitalsurf " + s, ds_field(s, n, k), [DS + ":_set_" + s, DS + ":_get_" + s])
              for s, n, k in (("uint16", 2, "u"), ("int16", 2, "i"), ("uint32", 4, "u"),
                              ("int32", 4, "i"), ("float", 4, "f"))]
CONTRACTS += [Contract("digitalsurf range " + s, ds_range(s, n, k), [DS + ":_set_" + s])
              for s, n, k in (("uint16", 2, "u"), ("int16", 2, "i"), ("uint32", 4, "u"), ("int32", 4, "i"))]
CONTRACTS += [Contract("semper label floats", semper_pack,
                       [SEM + ":pack_to_intbytes", SEM + ":unpack_from_intbytes"])]

ASSUMPTIONS = [
    "IEEE 754 encoding and decoding are uninterpreted inverse functions in the proofs (the bytes "
    "handed to them and their order are proved); single precision values are assumed representable",
    "struct.pack/unpack follow their documentation",
]


def ref(data, n, kind, endian):
    b = data if endian == "big" else data[::-1]
    u = 0
    for x in b:
        u = u * 256 + x
    if kind == "i" and u >= 2 ** (8 * n - 1):
        u -= 2 ** (8 * n)
    if kind == "f":
        s = -1.0 if u >> (8 * n - 1) else 1.0
        eb, mb = (8, 23) if n == 4 else (11, 52)
        e = (u >> mb) & (2 ** eb - 1)
        m = u & (2 ** mb - 1)
        if e == 2 ** eb - 1:
            return None
        return s * (m / 2 ** mb) * 2.0 ** (2 - 2 ** (eb - 1)) if e == 0 else \
            s * (1 + m / 2 ** mb) * 2.0 ** (e - 2 ** (eb - 1) + 1)
    return u


def search(s):
    import rsciio.utils._readfile as iou
    import rsciio.tia._api as tia
    from rsciio.digitalsurf._api import DigitalSurfHandler as H
    import rsciio.semper._api as sem
    from rsciio.exceptions import ByteOrderError
    rng = s.rng

    def blob(n):
        k = rng.random()
        if k < 0.25:
            return bytes(rng.choice([0, 1, 127, 128, 255]) for _ in range(n))
        return bytes(rng.randrange(256) for _ in range(n))
    for it in range(s.n(300, 5000)):
        if not s.left():
            break
        for name, (n, kind) in READERS.items():
            fn = getattr(iou, name)
            endian = rng.choice(["little", "big"])
            pre, data = blob(rng.randint(0, 5)), blob(n)
            f = io.BytesIO(pre + data + blob(3))
            f.seek(len(pre))
            r = fn(f, endian)
            case = dict(reader=name, endian=endian, data=list(data), before=list(pre), got=repr(r))
            want = data if kind == "c" else ref(data, n, kind, endian)
            s.check(want is None or (r == want and (kind != "f" or True)), "%s decodes its bytes" % name, case)
            s.check(f.tell() == len(pre) + n, "%s advances by its width" % name, case)
            f = io.BytesIO(data[:rng.randrange(n)])
            try:
                fn(f, endian)
                s.fail("%s accepts a truncated field" % name, case)
            except _struct.error:
                pass
            try:
                fn(io.BytesIO(data), "middle")
                s.fail("%s accepts an unknown byte order" % name, case)
            except ByteOrderError:
                pass
        for name, n in (("readLELongLong", 8), ("readLELong", 4), ("readLEShort", 2)):
            data = blob(n)
            f = io.BytesIO(data + b"xx")
            r = getattr(tia, name)(f)
            s.check(r == ref(data, n, "u", "little") and f.tell() == n, "TIA %s" % name, dict(data=list(data), got=r))
        d, u = rng.randint(0, 40), rng.randint(0, 40)
        raw = blob(3) + blob(24) + d.to_bytes(4, "little") + blob(d) + u.to_bytes(4, "little") + blob(u) + b"zz"
        f = io.BytesIO(raw)
        f.seek(3)
        r = tia.get_lengths(f)
        s.check(tuple(r) == (d, u) and f.tell() == len(raw) - 2, "TIA dimension entry",
                dict(description=d, units=u, got=list(r), position=f.tell()))
        for suf, n, kind in (("uint16", 2, "u"), ("int16", 2, "i"), ("uint32", 4, "u"), ("int32", 4, "i"), ("float", 4, "f")):
            data = blob(n)
            v = ref(data, n, kind, "little")
            if v is None:
                continue
            f = io.BytesIO()
            getattr(H, "_set_" + suf)(f, v)
            case = dict(field=suf, value=v, written=list(f.getvalue()))
            s.check(f.getvalue() == data or (v == 0 and kind == "f"), "digitalsurf writes %s little endian" % suf, case)
            f.seek(0)
            s.check(getattr(H, "_get_" + suf)(f) == v, "digitalsurf %s reads back" % suf, case)
        for suf, n, kind in (("uint16", 2, "u"), ("int16", 2, "i"), ("uint32", 4, "u"), ("int32", 4, "i")):
            lo, hi = (-(2 ** (8 * n - 1)), 2 ** (8 * n - 1)) if kind == "i" else (0, 2 ** (8 * n))
            v = rng.choice([lo - 1, hi, hi + 5, lo - 70000])
            f = io.BytesIO()
            try:
                getattr(H, "_set_" + suf)(f, v)
                s.fail("digitalsurf %s accepts a value that does not fit" % suf, dict(value=v, written=list(f.getvalue())))
            except _struct.error:
                s.check(True, "digitalsurf range", None)
        n = rng.randint(0, 30)
        txt = "".join(rng.choice("abc XYZé µ.1\t") for _ in range(rng.randint(0, 40)))
        f = io.BytesIO()
        H._set_str(f, txt, n)
        raw = f.getvalue()
        f.seek(0)
        got = H._get_str(f, n)
        s.check(raw == txt.encode("latin-1")[:n].ljust(n) and got == txt[:n].strip(" \t\n"), "digitalsurf text field is exactly its width",
                dict(text=txt, size=n, written=list(raw), got=got))
        data = blob(rng.randint(0, 20))
        f = io.BytesIO()
        H._set_bytes(f, data, n)
        s.check(f.getvalue() == data[:n] + b"\0" * max(0, n - len(data)), "digitalsurf byte field is exactly its width",
                dict(data=list(data), size=n, written=list(f.getvalue())))
        v = ref(blob(4), 4, "f", "little")
        if v is not None:
            bs = sem.pack_to_intbytes("<f", v)
            s.check(list(bs) == list(_struct.pack("<f", v)) and sem.unpack_from_intbytes("<f", bs) == v,
                    "semper label float", dict(value=v, words=list(bs)))
