"""C07: framing of the tag tree of Digital Micrograph files."""
import io

from .common import *
from .c05 import spec_value
from pyvc.arr import float_decode
from pyvc.load import CompSpec
from pyvc.sym import SymDecoded, SymOpaque

ID = "C07"
DM = "rsciio/digitalmicrograph/_api.py"
RFM = "rsciio.utils._readfile"

# encoded type -> (bytes, kind), from the DM3/DM4 format description
SIMPLE = {2: (2, "i"), 3: (4, "i"), 4: (2, "u"), 5: (4, "u"), 6: (4, "f"), 7: (8, "f"), 8: (1, "u"),
          9: (1, "c"), 10: (1, "i"), 11: (8, "i"), 12: (8, "u")}


def load(**k):
    return load_module(DM, instrument=(RFM,), **k)


def reader(m, version=3, endian="little"):
    f = SymFile("f", length=fresh_int("file_size", 0, inp=True), pos=fresh_int("pos", 0, inp=True))
    r = m.DigitalMicrographReader(f)
    r.dm_version = version
    r.endian = endian
    return r, f


def width(version):
    return 8 if version == 4 else 4


def val(f, pos, t, endian):
    n, kind = SIMPLE[t]
    return spec_value(f, mk_int(pos), n, kind, endian), n, kind


def is_value(r, f, pos, t, endian):
    want, n, kind = val(f, pos, t, endian)
    if kind == "f":
        return re_(r) == float_decode(n)(want)
    if kind == "c":
        return z3.And(ie(r.vc_len()) == 1, r.byte(0) == want)
    return ie(r) == want


def simple(t, endian):
    def run():
        m = load()
        r, f = reader(m, endian=endian)
        p0 = ie(f.pos)
        assume(p0 + SIMPLE[t][0] <= ie(f.length))
        d = r.read_simple_data(t)
        prove(is_value(d, f, p0, t, endian), "value in the byte order of the file")
        prove(ie(f.pos) == p0 + SIMPLE[t][0], "position after the value")
        table = r.get_data_reader(t)
        prove(eqi(table[1], SIMPLE[t][0]), "size used when the value is skipped")
    return run


def header(version):
    def run():
        m = load()
        f = SymFile("f", pos=0)
        r = m.DigitalMicrographReader(f)
        v, _, _ = val(f, z3.IntVal(0), 3, "big")
        assume(v == version)
        assume(ie(f.length) >= 24)
        r.parse_header()
        w = width(version)
        lt, _, _ = val(f, z3.IntVal(4 + w), 3, "big")
        prove(eqi(r.dm_version, version), "version")
        prove(ie(f.pos) == 8 + w, "position after the header")
        prove((lt != 0) if r.endian == "little" else (lt == 0), "byte order flag")
    return run


def bad_version():
    m = load()
    f = SymFile("f", pos=0)
    r = m.DigitalMicrographReader(f)
    v, _, _ = val(f, z3.IntVal(0), 3, "big")
    assume(z3.And(v != 3, v != 4, ie(f.length) >= 24))
    try:
        r.parse_header()
    except NotImplementedError:
        prove(True, "another version is refused")
        return
    prove(False, "another version is refused")


def tag_group(version, sized):
    def run():
        m = load()
        r, f = reader(m, version)
        p0 = ie(f.pos)
        w = width(version)
        assume(p0 + 2 + 2 * w <= ie(f.length))
        extra = w if (sized and version == 4) else 0
        s, o, n = r.parse_tag_group(size=sized)
        a, _, _ = val(f, p0 + 2 + extra, 11 if w == 8 else 3, "big")
        prove(ie(n) == a, "number of tags")
        prove(ie(f.pos) == p0 + 2 + extra + w, "position after the group header")
    return run


def string_(skip, endian):
    def run():
        m = load()
        r, f = reader(m, endian=endian)
        p0 = ie(f.pos)
        n = fresh_int("length", 0, inp=True)
        assume(p0 + n.e <= ie(f.length))
        j = fresh_int("j", 0)

        def havoc(old):
            g = fresh_fn("data", I, I)
            return SymBytes(lambda i: g(i), fresh_int("data.len", 0))

        def at(b, i):
            return b.at(i) if isinstance(b, SymBytes) else z3.IntVal(0)

        def blen(b):
            return ie(b.vc_len()) if isinstance(b, SymBytes) else z3.IntVal(len(b))

        def inv(v, k):
            return {"position": ie(f.pos) == p0 + ie(k),
                    "length": blen(v.data) == ie(k),
                    "content": z3.Implies(j.e < blen(v.data), at(v.data, j.e) == f.at(mk_int(p0 + j.e)))}
        C().run.loop_specs = [LoopSpec("chars", inv, needs=["data"], types={"data": havoc}, mutates=lambda v: [f])]
        C().run.decode_may_fail, C().run.utf8_failed = True, False
        d = r.read_string(n, skip=skip)
        prove(ie(f.pos) == p0 + n.e, "position after the text")
        if skip:
            prove([eqi(d["offset"], mk_int(p0)), eqi(d["size"], n)], "record points at the text")
            prove(eqi(d["size_bytes"], n), "record holds the number of bytes skipped")
            expect(d["endian"] == endian, "record holds the byte order")
        else:
            src = d.src if isinstance(d, SymDecoded) else d
            expect(isinstance(d, SymDecoded) and not d.ops, "text is the decoded bytes")
            if isinstance(d, SymDecoded):
                a, k = d.args[0], dict(d.args[1])
                codec = str(a[0] if a else k.get("encoding", "utf-8")).lower().replace("-", "").replace("_", "")
                want = ("latin1", "iso88591", "l1") if C().run.utf8_failed else ("utf8",)
                expect(codec in want, "UTF-8 where valid, else latin-1: no character is dropped")
            prove(eqi(src.vc_len(), n), "all bytes read")
            assume(j.e < n.e)
            prove(src.at(j.e) == f.at(mk_int(p0 + j.e)), "the bytes of the field")
    return run


class GhostList(SymSeq):
    """list whose appended values are checked as they arrive"""

    def __init__(self, hook, n=0):
        SymSeq.__init__(self, n, self._no)
        self.hook = hook
        self.serial = C().next_serial()

    def _no(self, k):
        return SymOpaque("element", ie(k))

    def vc_havoc(self):
        self.n = fresh_int("list.len", 0)

    def append(self, v):
        from pyvc.sym import check_write
        check_write(self)
        self.hook(ie(self.n), v)
        self.n = mk_int(ie(self.n) + 1)


def struct_(skip, endian):
    """struct of any number of fields of any simple types"""
    def run():
        m = load()
        r, f = reader(m, endian=endian)
        p0 = ie(f.pos)
        n = fresh_int("nfields", 0, inp=True)
        code = fresh_fn("type", I, I)
        S = fresh_fn("field_start", I, I)
        assume(S(0) == p0)

        def size(t):
            e = z3.IntVal(0)
            for k, (w, _) in SIMPLE.items():
                e = z3.If(t == k, z3.IntVal(w), e)
            return e
        definition = SymSeq(n, lambda k: mk_int(code(ie(k))))

        def on_item(v, k, item):
            # precondition: simple types, and the whole struct lies in the file
            assume(z3.Or([code(k.e) == t for t in SIMPLE]))
            assume(S(k.e + 1) == S(k.e) + size(code(k.e)))
            assume(S(k.e + 1) <= ie(f.length))

        def hook(k, v):
            # which type this path took
            t = next(t for t in SIMPLE if not C().feasible(code(k) != t))
            prove(is_value(v, f, S(k), t, endian), "field value")

        def inv(v, k):
            d = {"position": z3.And(ie(f.pos) == S(ie(k)), S(ie(k)) >= p0)}
            if "size_bytes" in v and skip:
                d["bytes skipped"] = ie(v.size_bytes) == S(ie(k)) - p0
            if not skip:
                fv = v.field_value
                d["one value per field"] = ie(fv.vc_len() if isinstance(fv, GhostList) else len(fv)) == ie(k)
            return d

        def mk(old):
            return old if isinstance(old, GhostList) else GhostList(hook)
        C().run.loop_specs = [LoopSpec("fields", inv, needs=["field_value"], on_item=on_item,
                                       types={"field_value": mk}, mutates=lambda v: [f])]
        d = r.read_struct(definition, skip=skip)
        prove(ie(f.pos) == S(n.e), "position after the struct")
        if skip:
            prove([eqi(d["offset"], mk_int(p0)), eqi(d["size_bytes"], mk_int(S(n.e) - p0)), eqi(d["size"], n)],
                  "record points at the struct")
            expect(d["endian"] == endian, "record holds the byte order")
        else:
            prove(eqi(d.vc_len(), n), "one value per field")
    return run


def struct_def(version):
    def run():
        m = load()
        r, f = reader(m, version)
        p0, w = ie(f.pos), width(version)
        t = 11 if w == 8 else 3
        n, _, _ = val(f, p0 + w, t, "big")
        j = fresh_int("j", 0)
        assume(n >= 0)
        assume(p0 + (2 + 2 * n) * w <= ie(f.length))

        def defn(old):
            if isinstance(old, SymSeq):
                return old
            g = fresh_fn("definition", I, I)
            return Tup(fresh_int("definition.len", 0), g)

        class Tup(SymSeq):
            def __init__(self, k, g):
                SymSeq.__init__(self, k, lambda i: mk_int(g(ie(i))))

            def __add__(self, o):
                k, it = self.n, self.item_
                s = Tup.__new__(Tup)
                SymSeq.__init__(s, mk_int(ie(k) + len(o)),
                                lambda i: mk_int(z3.If(ie(i) < ie(k), ie(it(i)), ie(o[0]))))
                return s

        def item(v, i):
            return ie(v.vc_item(mk_int(i))) if isinstance(v, SymSeq) else z3.IntVal(0)

        def ln(v):
            return ie(v.vc_len()) if isinstance(v, SymSeq) else z3.IntVal(len(v))

        def want(i):
            return val(f, p0 + (3 + 2 * i) * w, t, "big")[0]

        def on_item(v, k, it):
            assume(p0 + (4 + 2 * k.e) * w <= ie(f.length))

        def inv(v, k):
            return {"position": ie(f.pos) == p0 + (2 + 2 * ie(k)) * w,
                    "length": ln(v.definition) == ie(k),
                    "content": z3.Implies(j.e < ie(k), item(v.definition, j.e) == want(j.e))}
        C().run.loop_specs = [LoopSpec("definition", inv, needs=["definition"], types={"definition": defn},
                                       mutates=lambda v: [f], on_item=on_item)]
        d = r.parse_struct_definition()
        prove(ln(d) == n, "one type per field")
        prove(ie(f.pos) == p0 + (2 + 2 * n) * w, "position after the definition")
        assume(j.e < n)
        prove(item(d, j.e) == want(j.e), "type of each field")
    return run


def array_simple(t, skip, endian):
    def run():
        m = load()
        r, f = reader(m, endian=endian)
        p0 = ie(f.pos)
        w = SIMPLE[t][0]
        n = fresh_int("size", 0, inp=True)
        assume(p0 + n.e * w <= ie(f.length))

        def on_item(v, k, it):
            assume(p0 + (k.e + 1) * w <= ie(f.length))
        C().run.comp_specs = [CompSpec(
            "elements", lambda v, k: ie(f.pos) == p0 + ie(k) * w, lambda v, n: SymSeq(n, lambda k: C().ghost["el"](k)),
            needs=["eltype"], mutates=lambda v: [f], on_item=on_item,
            where=lambda fn, loc, it: isinstance(it, SymRange),
            value=lambda v, k, x: prove(is_value(x, f, p0 + k.e * w, t, endian), "element value"))]
        C().ghost["el"] = lambda k: mk_int(val(f, p0 + ie(k) * w, t, endian)[0])
        d = r.read_array(n, t, skip=skip)
        prove(ie(f.pos) == p0 + n.e * w, "position after the array")
        if skip:
            prove([eqi(d["offset"], mk_int(p0)), eqi(d["size_bytes"], mk_int(n.e * w)), eqi(d["size"], n)],
                  "record points at the array")
            expect(d["endian"] == endian, "record holds the byte order")
        elif t != 4:
            prove(eqi(d.vc_len(), n), "one value per element")
    return run


def array_complex(t, skip):
    """array of structs / strings / arrays: callee contracts for one element"""
    def run():
        m = load()
        r, f = reader(m)
        p0 = ie(f.pos)
        n = fresh_int("size", 0, inp=True)
        w = fresh_int("element_bytes", 0)
        D = object()
        L = fresh_int("length", 0)
        extra = {15: {"definition": D}, 18: {"length": L}, 20: {"size": L, "enc_eltype": 3}}[t]

        def element(*a, skip=False, **k):
            # contract proved above for each element reader: advances by the
            # size of the element, and a skipping read reports it
            expect(not a and set(k) == set(extra) and all(k[x] is extra[x] for x in k), "element description passed on")
            here = f.pos
            f.seek(w, 1)
            if skip:
                return {"size": L, "size_bytes": w, "offset": here, "endian": r.endian}
            return SymOpaque("element", z3.IntVal(0))
        real = r.read_array
        r.read_struct = r.read_string = r.read_array = element
        C().run.comp_specs = [CompSpec(
            "elements", lambda v, k: ie(f.pos) == p0 + ie(k) * w.e, lambda v, n: SymSeq(n, lambda k: SymOpaque("element", ie(k))),
            needs=["eltype"], mutates=lambda v: [f], on_item=lambda v, k, it: assume((k.e + 1) * w.e >= 0))]
        d = real(n, t, extra=dict(extra), skip=skip)
        prove(ie(f.pos) == p0 + n.e * w.e, "position after the array")
        if skip:
            prove([eqi(d["offset"], mk_int(p0)), eqi(d["size_bytes"], mk_int(n.e * w.e)), eqi(d["size"], n)],
                  "record points at the array")
        else:
            prove(eqi(d.vc_len(), n), "one value per element")
    return run


class GhostDict(dict):
    pass


def tags(version, payload):
    """the tag loop: after every tag the position is the end of that tag, for
    any number of tags; callees by contract (payload readers, nested groups)"""
    def run():
        m = load()
        r, f = reader(m, version)
        H = m.DigitalMicrographReader
        w = width(version)
        it_ = 11 if w == 8 else 3
        ntags = fresh_int("ntags", 0, inp=True)
        END = fresh_fn("tag_end", I, I)       # end of tag k == start of tag k+1
        HDR = fresh_fn("header_end", I, I)
        TAG = fresh_fn("tag_id", I, I)
        SS = fresh_fn("struct_bytes", I, I)   # bytes of the struct described at a position
        GE = fresh_fn("group_end", I, I, I)   # end of n tags starting at a position
        assume(END(0) == ie(f.pos))
        skip_name = bool(fresh_bool("image_data"))
        name = "Data" if skip_name else "Other"
        group = "ImageData" if skip_name else "root"
        g = C().ghost
        calls = []

        def Q(p):
            return val(f, p, it_, "big")[0]

        def simple_size(t):
            e = z3.IntVal(0)
            for k, (sz, _) in SIMPLE.items():
                e = z3.If(t == k, z3.IntVal(sz), e)
            return e

        def spec_end(k):
            """end of tag k from the format description"""
            h = HDR(k)
            d = h + (8 if version == 4 else 0) + 4        # delimiter
            n = Q(d)
            p = d + w                                       # info array
            if payload == "group":
                c = h + 2 + (w if version == 4 else 0)
                return [TAG(k) == 20, Q(c) >= 0], GE(c + w, Q(c))
            base = [TAG(k) == 21]
            if payload == "simple":
                return base + [n == 1, z3.Or([Q(p) == t for t in SIMPLE])], p + w + simple_size(Q(p))
            if payload == "string":
                return base + [n == 2, Q(p) == 18, Q(p + w) >= 0], p + 2 * w + Q(p + w)
            if payload == "array":
                return base + [n == 3, Q(p) == 20, z3.Or([Q(p + w) == t for t in SIMPLE]), Q(p + 2 * w) >= 0], \
                    p + 3 * w + Q(p + 2 * w) * simple_size(Q(p + w))
            nf = Q(p + 2 * w)
            if payload == "struct":
                q = p + w + (2 + 2 * nf) * w
                return base + [n > 3, Q(p) == 15, nf >= 0, SS(p + w) >= 0], q + SS(p + w)
            if payload == "structs":
                nf = Q(p + 3 * w)
                q = p + 2 * w + (2 + 2 * nf) * w
                return base + [n > 3, Q(p) == 20, Q(p + w) == 15, nf >= 0, SS(p + 2 * w) >= 0, Q(q) >= 0], \
                    q + w + Q(q) * SS(p + 2 * w)
            if payload == "strings":
                return base + [n > 3, Q(p) == 20, Q(p + w) == 18, Q(p + 2 * w) >= 0, Q(p + 3 * w) >= 0], \
                    p + 4 * w + Q(p + 3 * w) * Q(p + 2 * w)
            if payload == "arrays":
                return base + [n > 3, Q(p) == 20, Q(p + w) == 20, z3.Or([Q(p + 2 * w) == t for t in SIMPLE]),
                               Q(p + 3 * w) >= 0, Q(p + 4 * w) >= 0], \
                    p + 5 * w + Q(p + 4 * w) * Q(p + 3 * w) * simple_size(Q(p + 2 * w))
            raise AssertionError(payload)

        def on_item(v, k, item):
            k = k.e
            g["k"] = k
            pre, end = spec_end(k)
            assume(pre)
            assume(END(k + 1) == end)
            assume(z3.And(HDR(k) >= END(k), END(k) >= 0, END(k + 1) <= ie(f.length), END(k + 1) >= HDR(k)))
            # info array and definition of tag k lie in the file, like its payload
            assume(HDR(k) + 12 + 10 * w <= ie(f.length))
            # it is a well formed tag: the delimiter is %%%%
            dl = HDR(k) + (8 if version == 4 else 0)
            assume([f.at(mk_int(dl + i)) == 37 for i in range(4)])

        def parse_tag_header():
            prove(ie(f.pos) == END(g["k"]), "the tag header is read where the previous tag ended")
            f.pos = mk_int(HDR(g["k"]))
            return {"tag_id": mk_int(TAG(g["k"])), "tag_name_length": len(name), "tag_name": name}

        def parse_tags(ntags=None, group_name="root", group_dict=None):
            f.pos = mk_int(GE(ie(f.pos), ie(ntags)))

        def read_string(length, skip=False):
            here = ie(f.pos)
            data = f.read(length)
            return data.decode() if not skip else VDict(size=length, size_bytes=length, offset=here)

        class Def:
            def __init__(self, p):
                self.p = p

        def parse_struct_definition():
            p = ie(f.pos)
            f.pos = mk_int(p + (2 + 2 * Q(p + w)) * w)
            return Def(p)

        def read_struct(definition, skip=False):
            f.pos = mk_int(ie(f.pos) + SS(definition.p))
            g["skip"] = skip
            return SymOpaque("struct", z3.IntVal(0))

        def size_of(t, extra):
            if isinstance(t, int):
                t = z3.IntVal(t)
            t = ie(t)
            e = simple_size(t)
            extra = extra or {}
            if "definition" in extra:
                prove(t == 15, "array of structs is read as one")
                return SS(extra["definition"].p)
            if "length" in extra:
                prove(t == 18, "array of strings is read as one")
                return ie(extra["length"])
            if "size" in extra:
                prove(t == 20, "array of arrays is read as one")
                prove("enc_eltype" in extra, "the element type of the inner arrays is known")
                return ie(extra["size"]) * simple_size(ie(extra["enc_eltype"]))
            return e

        def read_array(size, enc_eltype, extra=None, skip=False):
            f.pos = mk_int(ie(f.pos) + ie(size) * size_of(enc_eltype, extra))
            g["skip"] = skip
            return SymOpaque("array", z3.IntVal(0))
        r.parse_tag_header, r.parse_tags, r.read_string = parse_tag_header, parse_tags, read_string
        r.parse_struct_definition, r.read_struct, r.read_array = parse_struct_definition, read_struct, read_array

        class Sink(dict):
            def __setitem__(self, key, v):
                prove(key == name, "value stored under the tag's name")

            def __getitem__(self, key):
                return Sink()

        def inv(v, k):
            return {"position": ie(f.pos) == END(ie(k))}
        C().run.loop_specs = [LoopSpec(
            "tags", inv, needs=["ntags", "group_dict"], on_item=on_item, mutates=lambda v: [f],
            drop=["ntags"] if payload != "group" else ["ntags"],
            where=lambda fn, loc, it: isinstance(it, SymRange))]
        H.parse_tags(r, ntags, group_name=group, group_dict=Sink())
        prove(ie(f.pos) == END(ntags.e), "after the last tag the position is its end")
    return run


CONTRACTS = []
for _t in SIMPLE:
    for _e in ("little", "big"):
        CONTRACTS.append(Contract("simple type %d, %s" % (_t, _e), simple(_t, _e), [DM + ":read_simple_data", DM + ":get_data_reader"]))
for _v in (3, 4):
    CONTRACTS.append(Contract("header, version %d" % _v, header(_v), [DM + ":parse_header"]))
    for _s in (False, True):
        CONTRACTS.append(Contract("tag group, version %d, size=%s" % (_v, _s), tag_group(_v, _s), [DM + ":parse_tag_group"]))
    CONTRACTS.append(Contract("struct definition, version %d" % _v, struct_def(_v), [DM + ":parse_struct_definition"]))
    for _p in ("simple", "string", "array", "struct", "structs", "strings", "arrays", "group"):
        CONTRACTS.append(Contract("tag loop, version %d, %s" % (_v, _p), tags(_v, _p), [DM + ":parse_tags"]))
CONTRACTS.append(Contract("other versions", bad_version, [DM + ":parse_header"]))
for _e in ("little", "big"):
    for _s in (False, True):
        CONTRACTS.append(Contract("text, %s, skip=%s" % (_e, _s), string_(_s, _e), [DM + ":read_string"]))
        CONTRACTS.append(Contract("struct, %s, skip=%s" % (_e, _s), struct_(_s, _e), [DM + ":read_struct"]))
        for _t in SIMPLE:
            CONTRACTS.append(Contract("array of type %d, %s, skip=%s" % (_t, _e, _s), array_simple(_t, _s, _e), [DM + ":read_array"]))
for _s in (False, True):
    for _t in (15, 18, 20):
        CONTRACTS.append(Contract("array of complex type %d, skip=%s" % (_t, _s), array_complex(_t, _s), [DM + ":read_array"]))


ASSUMPTIONS = [
    "the file format is the one described in the module's comments and in the DM3/DM4 descriptions it "
    "cites; names and payload lengths are non-negative",
    "str decoding is CPython's",
    "parse_tags calls itself through the same contract (recursion depth bounded by the interpreter)",
]

import struct as _struct


class TagWriter:
    """independent writer of tag trees"""

    def __init__(self, rng, version, little):
        self.rng, self.v, self.e = rng, version, "<" if little else ">"
        self.little = little

    def q(self, x):
        return _struct.pack(">q" if self.v == 4 else ">i", x)

    def simple(self, t):
        rng = self.rng
        fmt = {2: "h", 3: "i", 4: "H", 5: "I", 6: "f", 7: "d", 8: "?", 9: "c", 10: "b", 11: "q", 12: "Q"}[t]
        if t == 9:
            v = bytes([rng.randrange(256)])
        elif t == 8:
            v = rng.random() < 0.5
        elif t in (6, 7):
            v = rng.randint(-1000, 1000) / 4
        else:
            n = _struct.calcsize("<" + fmt) * 8
            lo, hi = (-(2 ** (n - 1)), 2 ** (n - 1) - 1) if fmt.islower() else (0, 2 ** n - 1)
            v = rng.choice([lo, hi, 0, rng.randint(lo, hi)])
            if t == 4 and 0xd800 <= v < 0xe000:
                v = 65
        return _struct.pack(self.e + fmt, v), v

    def structdef(self, ts):
        return self.q(0) + self.q(len(ts)) + b"".join(self.q(0) + self.q(t) for t in ts)

    def text(self, n):
        """bytes of a text and what they mean: UTF-8 where valid, else latin-1"""
        b = "".join(self.rng.choice("abcXYZ 09.") for _ in range(n)).encode()
        if n and self.rng.random() < 0.3:
            b = bytes(self.rng.choice([65, 0xb0, 0xc2, 0xe9, 0xb5, 32]) for _ in range(n))
        try:
            return b, b.decode("utf-8")
        except UnicodeDecodeError:
            return b, b.decode("latin-1")

    def array(self, t, n):
        parts = [self.simple(t) for _ in range(n)]
        vals = [p[1] for p in parts]
        if t == 4 and vals:
            vals = "".join(chr(x) for x in vals)
        return b"".join(p[0] for p in parts), vals

    def payload(self, kind):
        """info array, payload bytes, value"""
        rng = self.rng
        ts = list(SIMPLE)
        if kind == "simple":
            t = rng.choice(ts)
            b, v = self.simple(t)
            return self.q(1) + self.q(t), b, v, None
        if kind == "string":
            b, v = self.text(rng.randint(0, 9))
            return self.q(2) + self.q(18) + self.q(len(b)), b, v, len(b)
        if kind == "array":
            t, n = rng.choice(ts), rng.randint(0, 6)
            b, v = self.array(t, n)
            return self.q(3) + self.q(20) + self.q(t) + self.q(n), b, v, n
        if kind == "struct":
            d = [rng.choice(ts) for _ in range(rng.randint(1, 5))]
            parts = [self.simple(t) for t in d]
            return self.q(3 + 2 * len(d)) + self.q(15) + self.structdef(d), b"".join(p[0] for p in parts), \
                tuple(p[1] for p in parts), len(d)
        n = rng.randint(0, 4)
        if kind == "structs":
            d = [rng.choice(ts) for _ in range(rng.randint(1, 4))]
            rows = [[self.simple(t) for t in d] for _ in range(n)]
            return self.q(5 + 2 * len(d)) + self.q(20) + self.q(15) + self.structdef(d) + self.q(n), \
                b"".join(p[0] for r in rows for p in r), [tuple(p[1] for p in r) for r in rows], n
        if kind == "strings":
            w = rng.randint(0, 5)
            ss = [self.text(w) for _ in range(n)]
            return self.q(4) + self.q(20) + self.q(18) + self.q(w) + self.q(n), b"".join(x[0] for x in ss), [x[1] for x in ss], n
        if kind == "arrays":
            t, w = rng.choice(ts), rng.randint(0, 4)
            rows = [self.array(t, w) for _ in range(n)]
            return self.q(5) + self.q(20) + self.q(20) + self.q(t) + self.q(w) + self.q(n), \
                b"".join(r[0] for r in rows), [r[1] for r in rows], n
        raise AssertionError

    def group(self, depth, gname, base):
        """bytes of the tags, expected tree; `base` is where they will lie"""
        rng = self.rng
        out, tree = b"", {}
        ntags = rng.randint(0, 6) if depth else rng.randint(1, 7)
        unnamed_d = unnamed_g = 0
        for i in range(ntags):
            group = depth < 3 and rng.random() < 0.35
            nm = rng.choice(["", "T%d" % i, "a.b%d" % i, "Data", "ImageData"])
            if nm in tree:
                nm = "U%d" % i
            nb = nm.encode()
            if nm == "T%d" % i and rng.random() < 0.3:
                nm += "\xb0"
                nb = nm.encode("latin-1")
            name = nm.replace(".", "")
            if not name:
                if group:
                    name, unnamed_g = "TagGroup%d" % unnamed_g, unnamed_g + 1
                else:
                    name, unnamed_d = "Data%d" % unnamed_d, unnamed_d + 1
            hdr = bytes([20 if group else 21]) + _struct.pack(">h", len(nb)) + nb
            if group:
                hdr += bytes([rng.randrange(2), rng.randrange(2)]) + (self.q(rng.randrange(99)) if self.v == 4 else b"")
                w = 8 if self.v == 4 else 4
                b, sub, k = self.group(depth + 1, name, base + len(out) + len(hdr) + w)
                out += hdr + self.q(k) + b
                tree[name] = sub
                continue
            kind = rng.choice(["simple", "string", "array", "struct", "structs", "strings", "arrays"])
            info, b, v, n = self.payload(kind)
            hdr += (b"\0" * 8 if self.v == 4 else b"") + b"%%%%" + info
            if gname == "ImageData" and name == "Data" and kind != "simple":
                v = {"size": n, "size_bytes": len(b), "offset": base + len(out) + len(hdr),
                     "endian": "little" if self.little else "big"}
            out += hdr + b
            tree[name] = v
        return out, tree, ntags


def search(s):
    from rsciio.digitalmicrograph._api import DigitalMicrographReader
    for it in range(s.n(4000, 60000)):
        if not s.left():
            break
        version, little = s.rng.choice([3, 4]), s.rng.random() < 0.5
        w = TagWriter(s.rng, version, little)
        start = 4 + (8 if version == 4 else 4) * 2 + 4 + 2
        body, tree, n = w.group(0, "root", start)
        head = _struct.pack(">i", version) + w.q(len(body)) + _struct.pack(">i", int(little)) + b"\0\0" + w.q(n)
        assert len(head) == start
        raw = head + body + b"trailer"
        f = io.BytesIO(raw)
        case = dict(version=version, little=little, file_hex=raw.hex(), expected=tree)
        s.note(case)
        r = DigitalMicrographReader(f)
        try:
            r.parse_file()
        except Exception as exc:  # noqa: BLE001
            s.fail("a well formed tag file is read", dict(case, error=repr(exc)))
        case["got"] = r.tags_dict
        s.check({k: v for k, v in r.tags_dict.items() if k != "root"} == tree, "every tag has its value, skipped payloads their place", case)
        s.check(f.tell() == len(raw) - 7, "the whole tree is consumed, nothing more", case)
