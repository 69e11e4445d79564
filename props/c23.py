"""C23: maps of Bruker files count every pulse once, at its pixel and channel."""
import os
import types

from pyvc.cmodel import Ptr

from .common import *

ID = "C23"
P = "rsciio/bruker/unbcf_fast.pyx"
F = "rsciio/bruker/_api.py"
BIG = 2 ** 20                      # largest piece that is asked for at once


class Stream:
    """the bytes of a file"""

    def __init__(self):
        self.fn = fresh_fn("byte", I, I)

    def e(self, p):
        return self.fn(ie(p))

    def byte(self, p):
        x = self.e(p)
        C().assume(z3.And(x >= 0, x <= 255))
        return mk_int(x)

    def le(self, p, n):
        """number of n bytes, the lowest first"""
        return z3.Sum([self.e(ie(p) + k) * 256 ** k for k in range(n)]) if n > 1 else self.e(p)

    def bounds(self, p, n):
        for k in range(n):
            x = self.e(ie(p) + k)
            C().assume(z3.And(x >= 0, x <= 255))


class Chunk:
    """bytes of the file from base on"""

    def __init__(self, src, base, n):
        self.src, self.base, self.n = src, base, n

    def pointer(self):
        return Ptr(self.src.byte, self.base, self.base, mk_int(ie(self.base) + ie(self.n)))

    def __getitem__(self, k):
        expect(isinstance(k, slice) and k.step is None and k.stop is None and k.start is not None, "the rest of the block")
        prove(And(ie(k.start) >= 0, ie(k.start) <= ie(self.n)), "the rest of the block")
        return Chunk(self.src, mk_int(ie(self.base) + ie(k.start)), mk_int(ie(self.n) - ie(k.start)))

    def __add__(self, o):
        expect(isinstance(o, Chunk), "blocks of the file")
        prove(ie(self.base) + ie(self.n) == ie(o.base), "the block that follows")
        return Chunk(self.src, self.base, mk_int(ie(self.n) + ie(o.n)))

    def __len__(self):
        raise Unsupported("length of a block")

    def vc_len(self):
        return self.n


class Blocks(Sym):
    """the blocks of the file: all of c bytes, the last of what remains"""

    def __init__(self, src, total, c, at):
        self.src, self.total, self.c, self.at = src, total, c, at
        self.serial = C().next_serial()

    def vc_havoc(self):
        self.at = fresh_int("loaded", 0)

    def __iter__(self):
        return self

    def __next__(self):
        from pyvc.sym import check_write
        check_write(self)
        at, rest = ie(self.at), ie(self.total) - ie(self.at)
        prove(rest > 0, "another block is asked for only where there is one")
        self.at = mk_int(at + ie(self.c))
        return Chunk(self.src, mk_int(at), mk_int(z3.If(rest < ie(self.c), rest, ie(self.c))))


class Fields(Sym):
    """the attributes of a data stream"""

    def __init__(self, src, obj):
        self.src, self.obj = src, obj
        self.vc_owns = [(obj, ("raw_bytes", "buffer2", "size", "offset"))]
        self.serial = C().next_serial()

    def vc_havoc(self):
        o = self.obj
        base, n = fresh_int("base", 0), fresh_int("bytes", 0)
        o.raw_bytes = Chunk(self.src, base, n)
        o.buffer2 = o.raw_bytes.pointer()
        o.size, o.offset = fresh_int("size"), fresh_int("offset", 0)


def stream_inv(o, T, c, pos):
    """what holds between two readings; pos: the place that is read next"""
    K, B = ie(o.blocks.at), ie(o.raw_bytes.base)
    return {"the place": B + ie(o.offset) == ie(pos),
            "loaded bytes": B + ie(o.raw_bytes.n) == z3.If(K < T, K, T),
            "size": ie(o.size) == K - B,
            "buffer": And(ie(o.buffer2.pos) == B, ie(o.buffer2.lo) == B, ie(o.buffer2.hi) == B + ie(o.raw_bytes.n)),
            "inside": And(B >= 0, ie(o.offset) >= 0, ie(o.raw_bytes.n) >= 0, ie(o.size) <= ie(c) + BIG)}


def data_stream(op, n=None):
    """reading n bytes (None: any number): they are those at the place, which moves behind them"""
    def run():
        m = load_module(P)
        src = Stream()
        T, c = fresh_int("total", 1, inp=True).e, fresh_int("block", 416, inp=True)
        C().assume(c.e <= 2 ** 24)
        o = object.__new__(m.DataStream)
        K = fresh_int("loaded", 1, inp=True)
        o.blocks = Blocks(src, mk_int(T), c, K)
        st = Fields(src, o)
        st.vc_havoc()
        o.size_chnk = c
        pos = mk_int(ie(o.raw_bytes.base) + ie(o.offset))
        C().assume(z3.And(list(map(be, stream_inv(o, T, c, pos).values()))))
        C().assume(ie(o.offset) <= ie(o.size))
        length = n
        if n is None:
            length = fresh_int("length", 0, inp=True)
            C().assume(length.e <= BIG)
        C().assume(pos.e + ie(length) <= T)
        C().run.loop_specs = [LoopSpec("loading", lambda v, k: dict(stream_inv(o, T, c, pos), order=ie(o.offset) <= ie(o.size)), kind="while", mutates=lambda v: [st, o.blocks])]
        if op.startswith("read"):
            src.bounds(pos, n)
            r = getattr(o, op)()
            if op == "read_64":            # the three highest bytes are 0
                C().assume(z3.And([src.e(pos.e + k) == 0 for k in (5, 6, 7)]))
            prove(eqi(r, mk_int(src.le(pos, n))), "the number at the place")
        elif op == "ptr_to":
            r = o.ptr_to(length)
            prove(eqi(r.pos, pos), "the address of the place")
            prove(z3.Implies(ie(length) > 0, And(ie(r.lo) <= pos.e, ie(r.hi) >= pos.e + ie(length))), "all bytes are in the memory")
        else:
            o.skip(length)
        inv = stream_inv(o, T, c, mk_int(pos.e + ie(length)))
        for k, e in inv.items():
            prove(e, "after reading: " + k)
        prove(ie(o.offset) <= ie(o.size), "after reading: inside the block")
    return run


def stream_start():
    m = load_module(P)
    src = Stream()
    T, c = fresh_int("total", 1, inp=True).e, fresh_int("block", 416, inp=True)
    C().assume(c.e <= 2 ** 24)
    o = m.DataStream(Blocks(src, mk_int(T), c, 0), c)
    prove(eqi(o.size_chnk, c), "size of the blocks")
    for k, e in stream_inv(o, T, c, 0).items():
        prove(e, "at the start: " + k)
    C().assume(T >= 0x1A0)
    place = fresh_int("place", 0, inp=True)
    C().assume(place.e <= c.e)
    C().assume(place.e <= T)
    o.seek(place)
    for k, e in stream_inv(o, T, c, place).items():
        prove(e, "after moving: " + k)


def number_reading(n):
    def run():
        m = load_module(P)
        src = Stream()
        p = fresh_int("place", 0, inp=True)
        src.bounds(p, n)
        if n == 8:
            C().assume(z3.And([src.e(p.e + k) == 0 for k in (5, 6, 7)]))
        r = getattr(m, "read_%d" % (8 * n))(Ptr(src.byte, p, p, mk_int(p.e + n)))
        prove(eqi(r, mk_int(src.le(p, n))), "the number, its lowest byte first")
    return run


# ---- counting: the number of counts in one cell (any pixel, any channel q of the map) is followed
class Map(Sym):
    """hypermap; only the cell (y, x, q) is known"""

    def __init__(self, rows, cols, depth, cell, val):
        self.rows, self.cols, self.depth = rows, cols, depth
        self.cell, self.val = cell, val
        self.serial = C().next_serial()

    def vc_havoc(self):
        self.val = fresh_int("counts", 0)

    def _hit(self, k):
        expect(isinstance(k, tuple) and len(k) == 3, "pixel and channel")
        for i, n in zip(k, (self.rows, self.cols, self.depth)):
            prove(And(ie(i) >= 0, ie(i) < ie(n)), "the cell lies in the map")
        return z3.And([ie(a) == ie(b) for a, b in zip(k, self.cell)])

    def __getitem__(self, k):
        return mk_int(z3.If(self._hit(k), ie(self.val), fresh_int("other", 0).e))

    def __setitem__(self, k, v):
        from pyvc.sym import check_write
        check_write(self)
        self.val = mk_int(z3.If(self._hit(k), ie(v), ie(self.val)))


def setting():
    rows, cols, depth = (fresh_int(n, 1, inp=True) for n in ("rows", "columns", "channels"))
    C().assume(depth.e <= 2 ** 16)
    cell = tuple(fresh_int(n, 0, inp=True) for n in ("y", "x", "q"))
    for i, n in zip(cell, (rows, cols, depth)):
        C().assume(i.e < n.e)
    return Map(rows, cols, depth, cell, fresh_int("counts", 0))


def pulse16(src, p, i):
    return src.le(ie(p) + 2 * ie(i), 2)


def pulse12(src, p, i):
    """12 bits of a row of 16-bit numbers, from the highest bit of the first on"""
    p, i = ie(p), ie(i)
    w = lambda k: src.le(p + 6 * (i / 4) + 2 * k, 2)
    return z3.If(i % 4 == 0, w(0) / 16, z3.If(i % 4 == 1, (w(0) % 16) * 256 + w(1) / 256, z3.If(i % 4 == 2, (w(1) % 256) * 16 + w(2) / 4096, w(2) % 4096)))


def pulses(name, channel):
    """each pulse adds one count to its channel, those behind the end of the map none"""
    def run():
        m = load_module(P)
        src = Stream()
        d = setting()
        y, x = fresh_int("row", 0, inp=True), fresh_int("column", 0, inp=True)
        C().assume(z3.And(y.e < d.rows.e, x.e < d.cols.e))
        n = fresh_int("pulses", 0, inp=True)
        C().assume(n.e < 2 ** 16)
        for s in (d.rows, d.cols):
            C().assume(s.e < 2 ** 31)
        p = fresh_int("place", 0, inp=True)
        nbytes = 2 * n.e if channel is pulse16 else 2 * ((12 * n.e + 15) / 16)
        start = ie(d.val)
        H = fresh_fn("number_of_pulses", I, I)
        hit = z3.And(y.e == d.cell[0].e, x.e == d.cell[1].e)
        C().assume(H(0) == 0)

        def inv(v, k):
            k = ie(k)
            for b in range(6):
                src.bounds(p.e + (2 * k + b if channel is pulse16 else 6 * (k / 4) + b), 1)
            C().assume(H(k + 1) == H(k) + z3.If(channel(src, p, k) == d.cell[2].e, 1, 0))
            return {"counts": ie(d.val) == start + z3.If(hit, H(k), 0)}
        C().run.loop_specs = [LoopSpec("pulses", inv, mutates=lambda v: [d])]
        for f, k in (("read_16", 2),):
            setattr(m, f, lambda q, k=k: number(src, q, k))
        getattr(m, name)(d, x, y, Ptr(src.byte, p, p, mk_int(p.e + nbytes)), n, d.depth)
        prove(ie(d.val) == start + z3.If(hit, H(n.e), 0), "every pulse is counted once")
    return run


def number(src, q, n):
    """contract of read_16, read_32, read_64"""
    p = ie(q.pos)
    prove(z3.And(p >= ie(q.lo), p + n <= ie(q.hi)), "memory that may be read")
    src.bounds(p, n)
    return mk_int(src.le(p, n))


# ---- spectra packed by instructions: bunches of channels, each with its own width and gain
class Packed:
    """the bunches at a place; K of them fill size bytes. at(k), first(k): place and first channel of bunch k;
    counts(k): what the bunches before k put in channel q"""

    def __init__(self, src, p, size, q):
        self.src, self.p, self.size, self.q = src, ie(p), ie(size), ie(q)
        self.at, self.first, self.counts = fresh_fn("bunch_at", I, I), fresh_fn("bunch_channel", I, I), fresh_fn("bunch_counts", I, I)
        self.K = fresh_int("bunches", 0).e
        C().assume(z3.And(self.at(0) == 0, self.first(0) == 0, self.counts(0) == 0, self.at(self.K) == self.size))
        self.k = None

    def part(self, k):
        a = self.p + self.at(k)
        return a, self.src.e(a), self.src.e(a + 1)

    def item(self, k, i):
        """value of channel i of the bunch"""
        a, s, n = self.part(k)
        le = self.src.le
        nibble = z3.If(i % 2 == 0, self.src.e(a + 3 + i / 2) % 16, self.src.e(a + 3 + i / 2) / 16)
        gain = z3.If(s == 1, le(a + 2, 1), z3.If(s == 2, le(a + 2, 2), z3.If(s == 4, le(a + 2, 4), le(a + 2, 8))))
        return gain + z3.If(s == 1, nibble, z3.If(s == 2, le(a + 4 + i, 1), z3.If(s == 4, le(a + 6 + 2 * i, 2), le(a + 10 + 4 * i, 4))))

    def gain(self, k):
        a, s, n = self.part(k)
        return z3.If(s == 1, self.src.le(a + 2, 1), z3.If(s == 2, self.src.le(a + 2, 2), z3.If(s == 4, self.src.le(a + 2, 4), self.src.le(a + 2, 8))))

    def upto(self, k, i):
        """what the first i channels of bunch k put in channel q"""
        r = self.q - self.first(k)
        return z3.If(z3.And(r >= 0, r < i), self.item(k, r), 0)

    def step(self, k):
        """what bunch k is, where there is one"""
        a, s, n = self.part(k)
        r = self.q - self.first(k)
        self.src.bounds(a, 10)
        for place in (a + 3 + r / 2, a + 4 + r):
            self.src.bounds(place, 1)
        self.src.bounds(a + 6 + 2 * r, 2)
        self.src.bounds(a + 10 + 4 * r, 4)
        length = z3.If(s == 0, 2, z3.If(s == 1, 3 + (n + 1) / 2, z3.If(s == 2, 4 + n, z3.If(s == 4, 6 + 2 * n, 10 + 4 * n))))
        C().assume(z3.Implies(z3.And(0 <= k, k < self.K), z3.And(
            z3.Or([s == w for w in (0, 1, 2, 4, 8)]), self.at(k) >= 0, self.at(k + 1) == self.at(k) + length, self.at(k) + length <= self.size,
            self.first(k) >= 0, self.first(k + 1) == self.first(k) + n, self.first(k) + n <= 2 ** 20, self.gain(k) < 2 ** 31,
            z3.Implies(s == 8, z3.And([self.src.e(a + 2 + j) == 0 for j in (5, 6, 7)])),
            self.counts(k + 1) == self.counts(k) + z3.If(s == 0, 0, self.upto(k, n)))))


def instructed():
    m = load_module(P)
    src = Stream()
    d = setting()
    y, x = fresh_int("row", 0, inp=True), fresh_int("column", 0, inp=True)
    C().assume(z3.And(y.e < d.rows.e, x.e < d.cols.e, d.rows.e < 2 ** 31, d.cols.e < 2 ** 31))
    p, size = fresh_int("place", 0, inp=True), fresh_int("size", 0, inp=True)
    C().assume(size.e < 2 ** 16)
    b = Packed(src, p, size, d.cell[2])
    start = ie(d.val)
    hit = z3.And(y.e == d.cell[0].e, x.e == d.cell[1].e)

    def outer(v, k):
        k = b.k = ie(k)
        b.step(k)
        return {"place": ie(v.offset) == b.at(k), "channel": ie(v.channel) == b.first(k), "bunch": z3.And(0 <= k, k <= b.K),
                "counts": ie(d.val) == start + z3.If(hit, b.counts(k), 0)}

    def inner(v, i):
        a, s, n = b.part(b.k)
        i = ie(i)
        for place in (a + 3 + i / 2, a + 4 + i):
            src.bounds(place, 1)
        src.bounds(a + 6 + 2 * i, 2)
        src.bounds(a + 10 + 4 * i, 4)
        return {"counts": ie(d.val) == start + z3.If(hit, b.counts(b.k) + b.upto(b.k, i), 0)}
    C().run.loop_specs = [LoopSpec("bunches", outer, kind="while", mutates=lambda v: [d], needs=("offset", "channel"), drop=("i", "val16", "val32", "length", "head")),
                          LoopSpec("channels", inner, kind="for", mutates=lambda v: [d], drop=("val16", "val32"))]
    for n in (2, 4, 8):
        setattr(m, "read_%d" % (8 * n), lambda q, n=n: number(src, q, n))
    m.unpack_instructed(d, x, y, Ptr(src.byte, p, p, mk_int(p.e + size.e)), size, d.depth)
    prove(ie(d.val) == start + z3.If(hit, b.counts(b.K), 0), "every channel of the spectrum is counted once")


# ---- maps: lines of pixels
class Place(Sym):
    """contract of DataStream: reading at the place, which moves behind what is read"""

    def __init__(self, src, total, pos=0):
        self.src, self.total, self.pos = src, total, pos
        self.serial = C().next_serial()
        self.u = {n: fresh_fn("u%d" % (8 * n), I, I) for n in (1, 2, 4)}

    def vc_havoc(self):
        self.pos = fresh_int("place", 0)

    def value(self, p, n):
        return self.u[n](ie(p))

    def take(self, n):
        from pyvc.sym import check_write
        check_write(self)
        p = self.pos
        prove(z3.And(ie(n) >= 0, ie(n) <= BIG, ie(p) + ie(n) <= ie(self.total)), "what is read lies in the file")
        self.pos = mk_int(ie(p) + ie(n))
        return p

    def read(self, n):
        e = self.value(self.take(n), n)
        C().assume(z3.And(e >= 0, e < 256 ** n))
        return mk_int(e)

    def read_8(self):
        return self.read(1)

    def read_16(self):
        return self.read(2)

    def read_32(self):
        return self.read(4)

    def skip(self, n):
        self.take(n)

    def seek(self, p):
        from pyvc.sym import check_write
        check_write(self)
        prove(z3.And(ie(p) >= 0, ie(p) <= 416), "the place lies in the first block")
        expect(not self.moved, "only the head was read")
        self.pos = p

    moved = False

    def ptr_to(self, n):
        p = self.take(n)
        return Ptr(None, p, p, mk_int(ie(p) + ie(n)))


def whole_map(d):
    def run():
        m = load_module(P)
        src = Stream()
        st = Place(src, fresh_int("total", 416, inp=True))
        mp = setting()
        down = d if d else fresh_int("downsample", 1, inp=True)
        if not d:
            C().assume(down.e < 2 ** 31)
        q, Y, X = mp.cell[2], mp.cell[0], mp.cell[1]
        height = st.value(0, 4)
        for s in (mp.rows, mp.cols):
            C().assume(s.e < 2 ** 31)
        line, pix = fresh_fn("line_at", I, I), fresh_fn("pixel_at", I, I, I)
        lsum, psum = fresh_fn("counts_of_lines", I, I), fresh_fn("counts_of_pixels", I, I, I)
        f16, f12, packed = (fresh_fn(n, I, I, I) for n in ("pulses16", "pulses12", "packed"))
        C().assume(z3.And(line(0) == 0x1A0, lsum(0) == 0))
        start = ie(mp.val)
        now = {}

        def head(p):
            return (st.value(p, 4), st.value(p + 12, 2), st.value(p + 16, 2), st.value(p + 18, 4))     # column, kind of data, pulses, bytes

        def inside(l, x):
            return z3.And(ie(mk_int(l) // down) == Y.e, ie(mk_int(x) // down) == X.e)

        def content(p):
            x, flag, n, size = head(p)
            return z3.If(flag == 0, f16(p + 22, n), z3.If(flag == 1, f12(p + 22, n), packed(p + 22, size - 4) + f16(p + 22 + size, n)))

        def length(p):
            x, flag, n, size = head(p)
            return 22 + size + z3.If(flag > 1, 2 * n, 0)

        def lines(v, l):
            l = now["line"] = ie(l)
            now["outer"] = True
            C().assume(z3.And(pix(l, 0) == line(l) + 4, psum(l, 0) == lsum(l), line(l + 1) == pix(l, st.value(line(l), 4)), lsum(l + 1) == psum(l, st.value(line(l), 4))))
            C().assume(z3.Implies(l < height, z3.And(line(l) + 4 <= st.total.e, ie(mk_int(l) // down) < mp.rows.e)))
            return {"place": ie(st.pos) == line(l), "counts": ie(mp.val) == start + lsum(l)}

        def pixels(v, j):
            j, l = ie(j), now["line"]
            now["pixel"] = j
            p = pix(l, j)
            x, flag, n, size = head(p)
            for e, k in ((x, 4), (flag, 2), (n, 2), (size, 4)):
                C().assume(z3.And(e >= 0, e < 256 ** k))
            C().assume(z3.And(pix(l, j + 1) == p + length(p), psum(l, j + 1) == psum(l, j) + z3.If(inside(l, x), content(p), 0), f16(p + 22 + size, 0) == 0))
            C().assume(z3.Implies(z3.And(l < height, j < st.value(line(l), 4)), z3.And(
                p + length(p) <= st.total.e, ie(mk_int(x) // down) < mp.cols.e, z3.If(flag > 1, z3.And(size >= 4, size - 4 < 2 ** 16), True), size <= BIG,
                z3.If(flag == 0, 2 * n <= size, True), z3.If(flag == 1, 2 * ((12 * n + 15) / 16) <= size, True))))
            return {"place": ie(st.pos) == p, "counts": ie(mp.val) == start + psum(l, j)}

        def more(v, i):
            i, l, j = ie(i), now["line"], now["pixel"]
            p = pix(l, j)
            x, flag, n, size = head(p)
            first = p + 22 + size
            C().assume(f16(first, i + 1) == f16(first, i) + z3.If(st.value(first + 2 * i, 2) == q.e, 1, 0))
            return {"place": ie(st.pos) == first + 2 * i,
                    "counts": ie(mp.val) == start + psum(l, j) + z3.If(inside(l, x), packed(p + 22, size - 4) + f16(first, i), 0)}
        C().run.loop_specs = [
            LoopSpec("lines", lines, kind="for", mutates=lambda v: [mp, st], where=lambda f, loc, it: not now.get("outer"), drop=LOCALS),
            LoopSpec("pixels", pixels, kind="for", mutates=lambda v: [mp, st], where=lambda f, loc, it: "pixel" not in now, drop=LOCALS),
            LoopSpec("pulses behind packed spectra", more, kind="for", mutates=lambda v: [mp, st], drop=LOCALS)]

        def unpack(name, f):
            def call(dest, x, y, ptr, n, cutoff):
                expect(dest is mp, "the map")
                prove(eqi(cutoff, mp.depth), "channels of the map")
                prove(z3.And(ie(y) >= 0, ie(y) < mp.rows.e, ie(x) >= 0, ie(x) < mp.cols.e), "the pixel lies in the map")
                need = {"unpack16bit": 2 * ie(n), "unpack12bit": 2 * ((12 * ie(n) + 15) / 16), "unpack_instructed": ie(n)}[name]
                prove(z3.And(ie(n) >= 0, ie(n) < 2 ** 16, ie(ptr.pos) + need <= ie(ptr.hi)), "the data of the pixel")
                mp.val = mk_int(ie(mp.val) + z3.If(z3.And(ie(y) == Y.e, ie(x) == X.e), f(ie(ptr.pos), ie(n)), 0))
            return call
        for name, f in (("unpack16bit", f16), ("unpack12bit", f12), ("unpack_instructed", packed)):
            expect(hasattr(m, name), "functions of the parser")
            setattr(m, name, unpack(name, f))
        m.bin_to_numpy(st, mp, mp.depth, down)
        prove(ie(mp.val) == start + lsum(height), "every pixel of every line is counted once")
    return run


LOCALS = ("pix_in_line", "pixel_x", "chan1", "chan2", "flag", "data_size1", "n_of_pulses", "data_size2", "add_pulse_size", "add_val", "dummy1", "j", "line_cnt")


def to_numpy(dtype, down):
    """a map of zeros of the asked shape and type is filled from the blocks of the file"""
    def run():
        m = load_module(P)
        calls = []
        shape = tuple(fresh_int(n, 1, inp=True) for n in ("rows", "columns", "channels"))
        for s in shape:
            C().assume(s.e < 2 ** 31)
        blocks, size = object(), fresh_int("block", 1)
        C().assume(size.e < 2 ** 31)
        f = types.SimpleNamespace(get_iter_and_properties=lambda *a: (blocks, size, 1, 2))

        def stream(b, n):
            expect(b is blocks, "the blocks of the file")
            prove(eqi(n, size), "their size")
            return "stream"

        class Fill:
            def fused(self, t):
                def call(s, a, depth, d):
                    expect(s == "stream" and isinstance(a, SymArr) and a.dtype == np.dtype(t[:-2]), "type of the map")
                    prove(z3.And([eqi(x, y) for x, y in zip(a.shape, shape)] + [eqi(depth, shape[2])]), "shape of the map")
                    prove(eqi(d, down), "downsampling")
                    idx = [fresh_int("i", 0) for _ in shape]
                    prove(eqi(a.at(*idx), 0), "the map is empty at first")
                    calls.append(a)
                return call
        m.DataStream, m.bin_to_numpy = stream, Fill()
        r = m.parse_to_numpy(f, shape, np.dtype(dtype), **({"downsample": down} if down != 1 else {}))
        expect(len(calls) == 1 and r is calls[0], "the filled map is given")
    return run


# ---- maps of bcf files: their shape and axes
class Sum(Sym):
    """sum spectrum: only its number of channels and its last channel with counts are known"""

    def __init__(self, n, last):
        self.n, self.last = n, last
        self.size, self.shape = n, (n,)

    def vc_len(self):
        return self.n

    def nonzero(self):
        last = self.last

        class Places:
            def __getitem__(self, k):
                expect(k == -1, "the last channel with counts")
                return last
        return (Places(),)


def eds_of(m):
    e = object.__new__(m.EDXSpectrum)
    n, last = fresh_int("channels", 1, inp=True), fresh_int("last", 0, inp=True)
    C().assume(last.e < n.e)
    e.data, e.amplification = Sum(n, last), fresh_real("amplification", inp=True)
    e.offset, e.scale = fresh_real("offset", inp=True), fresh_real("scale", inp=True)
    C().assume(e.scale.e > 0)
    return e


def channel_of(e, energy, c):
    """c is the channel next to the energy"""
    at = (re_(energy) - e.offset.e) / e.scale.e
    d = z3.ToReal(ie(c)) - at
    return z3.And(d <= z3.Q(1, 2), -d <= z3.Q(1, 2))


def shape_of_map(cutoff, fast, lazy, d, index):
    def run():
        m = load_module(F)
        o = object.__new__(m.BCF_reader)
        e = eds_of(m)
        h = object.__new__(m.HyperHeader)
        H, W = fresh_int("height", 1, inp=True), fresh_int("width", 1, inp=True)
        h.image = types.SimpleNamespace(height=H, width=W)
        h.spectra_data = {0: e, 3: eds_of(m), 12: eds_of(m)}
        want = 3 if index is None else index
        e = h.spectra_data[want]
        h.hv = None if cutoff == "auto, no voltage" else fresh_real("voltage", inp=True)
        down = fresh_int("downsample", 1, inp=True) if d is None else d
        o.header, o.filename, o.def_index, o.available_indexes = h, "f.bcf", 3, [3, 12, 0]
        typ, made = object(), []

        def depth(index=0, downsample=1, for_numpy=False):
            expect(index == want and for_numpy is (not fast), "type for this map and parser")
            prove(eqi(downsample, down), "type for this downsampling")
            return typ
        h.estimate_map_depth = depth

        class Sfs:
            def __init__(self, name):
                expect(name == "f.bcf", "the file")

            def get_file(self, name):
                expect(name == "EDSDatabase/SpectrumData%d" % want, "the map of this index")
                return "data"
        result = object()

        def parse(which):
            def call(f, shape, dtype, downsample=1):
                expect(which is fast, "the compiled parser, where there is one")
                expect(f == "data" and dtype is typ and not made, "parsed once, in the type")
                prove(eqi(downsample, down), "parsed with this downsampling")
                made.append(shape)
                return result
            return call
        m.SFS_reader, m.fast_unbcf, m.py_parse_hypermap = Sfs, fast, parse(False)
        m.unbcf_fast = types.SimpleNamespace(parse_to_numpy=parse(True))
        kv = {"number": fresh_real("cutoff", inp=True)}.get(cutoff, None if cutoff == "none" else cutoff.split(",")[0])
        if cutoff == "number":
            kv = 10.25
        kw = {} if index is None else {"index": index}
        if lazy:
            import dask.array

            def delayed(f, **k):
                return lambda *a, **kw: ("delayed", f(*a, **kw))

            def from_delayed(v, shape, dtype=None, **k):
                expect(isinstance(v, tuple) and v[0] == "delayed" and v[1] is result and dtype is typ, "the map that is parsed later")
                prove(z3.And([eqi(a, b) for a, b in zip(shape, made[0])]), "its shape")
                return result
            m.dask = types.SimpleNamespace(delayed=delayed, array=types.SimpleNamespace(from_delayed=from_delayed))
            keep = dask.array.from_delayed
            dask.array.from_delayed = from_delayed
            try:
                r = o.parse_hypermap(downsample=down, cutoff_at_kV=kv, lazy=True, **kw)
            finally:
                dask.array.from_delayed = keep
        else:
            r = o.parse_hypermap(downsample=down, cutoff_at_kV=kv, **kw)
        expect(r is result and len(made) == 1, "the parsed map")
        s = made[0]
        for n, total, name in ((s[0], H, "height"), (s[1], W, "width")):
            prove(z3.And(ie(n) * ie(down) >= total.e, (ie(n) - 1) * ie(down) < total.e), "every line and column lies in the map: " + name)
        n, c = ie(s[2]), cutoff
        if c == "none":
            prove(n == e.data.n.e, "all channels")
        elif c == "zealous":
            prove(n == e.data.last.e + 1, "all channels up to the last with counts")
        elif c == "number":
            prove(channel_of(e, kv, s[2]), "channels below the energy")
        elif c == "auto":
            inside = z3.And(h.hv.e > 0, h.hv.e < e.amplification.e / 1000)
            prove(z3.If(inside, channel_of(e, h.hv, s[2]), n == e.data.n.e), "channels below the voltage of the microscope")
        else:
            prove(n == e.data.n.e, "all channels, the voltage is not known")
    return run


def energies():
    m = load_module(F)
    e = eds_of(m)
    x = fresh_real("energy", inp=True)
    prove(channel_of(e, x, e.energy_to_channel(x)), "channel of an energy in keV")
    prove(channel_of(e, mk_real(x.e / 1000), e.energy_to_channel(x, kV=False)), "channel of an energy in eV")
    prove(eqi(e.last_non_zero_channel(), e.data.last), "the last channel with counts")


def axes_of_map(index, lazy):
    def run():
        m = load_module(F)
        h = types.SimpleNamespace(mode="SEM", x_res=fresh_real("x_res", inp=True), y_res=fresh_real("y_res", inp=True), units="um", date="d", time="t", name="sample",
                                  elements={}, dsp_metadata={}, line_counter=[], stage_metadata={}, sem_metadata={})
        spectra = {i: types.SimpleNamespace(offset=fresh_real("offset", inp=True), scale=fresh_real("scale", inp=True), hardware_metadata={}, detector_metadata={},
                                            esma_metadata={}, spectrum_metadata={}) for i in (2, 5, 11)}
        h.get_spectra_metadata = lambda index=0: spectra[index]
        h.get_acq_instrument_dict = lambda detector=False, index=0: {"of": index, "detector": detector}
        down = fresh_int("downsample", 1, inp=True)
        maps = {}
        o = object.__new__(m.BCF_reader)
        o.header, o.filename, o.def_index, o.available_indexes = h, "/some/where/f.bcf", 2, [5, 2, 11]

        def parse(index=None, downsample=1, cutoff_at_kV=None, lazy=False):
            expect(index in spectra and index not in maps and cutoff_at_kV == "auto" and lazy is lz, "what was asked for")
            prove(eqi(downsample, down), "the downsampling asked for")
            maps[index] = types.SimpleNamespace(shape=tuple(fresh_int(n, 1, inp=True) for n in ("rows", "columns", "channels")))
            return maps[index]
        lz = lazy
        o.parse_hypermap = parse
        m.get_mapping = lambda mode: {"mode": mode}
        kw = {} if index is None else {"index": index}
        if index == 7:
            try:
                m.bcf_hyperspectra(o, downsample=down, cutoff_at_kV="auto", lazy=lazy, **kw)
                prove(False, "a map that is not in the file is an error")
            except IndexError:
                prove(True, "a map that is not in the file is an error")
            return
        r = m.bcf_hyperspectra(o, downsample=down, cutoff_at_kV="auto", lazy=lazy, **kw)
        want = {None: [2], "all": [5, 2, 11]}.get(index, [index])
        expect(len(r) == len(want), "one dataset for each map")
        for i, d in zip(want, r):
            expect(d["data"] is maps.get(i), "the data of the map")
            expect([a["name"] for a in d["axes"]] == ["height", "width", "Energy"] and [a["navigate"] for a in d["axes"]] == [True, True, False], "axes of the map")
            for a, n in zip(d["axes"], maps[i].shape):
                prove(eqi(a["size"], n), "size of axis %s" % a["name"])
            y, x, e = d["axes"]
            prove(re_(y["scale"]) == h.y_res.e * z3.ToReal(down.e), "scale of the height")
            prove(re_(x["scale"]) == h.x_res.e * z3.ToReal(down.e), "scale of the width")
            expect(y["offset"] == 0 and x["offset"] == 0 and y["units"] == "um" and x["units"] == "um" and e["units"] == "keV", "offsets and units")
            prove(z3.And(re_(e["offset"]) == spectra[i].offset.e, re_(e["scale"]) == spectra[i].scale.e), "energies of the channels")
            md = d["metadata"]
            expect(md["Acquisition_instrument"] == {"SEM": {"of": i, "detector": True}} and md["General"]["original_filename"] == "f.bcf", "metadata of the map")
    return run


def datasets(kind):
    def run():
        m = load_module(F)
        given = []

        class Bcf:
            def __init__(self, name, instrument=None):
                expect(name == "x.bcf" and instrument == "TEM", "the file")
        m.BCF_reader = Bcf

        def images(o):
            expect(isinstance(o, Bcf), "the file")
            return ["image"]

        def maps(o, index=None, downsample=None, cutoff_at_kV=None, lazy=False):
            expect(isinstance(o, Bcf) and index == "all" and downsample == 2 and cutoff_at_kV == 12.5 and lazy is True, "what was asked for")
            return ["map"]
        m.bcf_images, m.bcf_hyperspectra = images, maps
        r = m.file_reader("x.bcf", lazy=True, select_type=kind, index="all", downsample=2, cutoff_at_kV=12.5, instrument="TEM")
        expect(r == {"image": ["image"], "spectrum_image": ["map"], None: ["image", "map"]}[kind], "datasets of the file")
    return run


def type_of_map(for_numpy, down):
    """the type follows the brightest channel of the sum spectrum"""
    def run():
        m = load_module(F)
        h = object.__new__(m.HyperHeader)
        top, w, t = (fresh_int(n, 1, inp=True) for n in ("brightest", "width", "height"))
        h.image = types.SimpleNamespace(width=w, height=t)
        data = object()
        h.spectra_data = {4: types.SimpleNamespace(data=data)}
        real = m.np

        class Numpy:
            def __getattr__(self, k):
                return getattr(real, k)

            def max(self, x):
                expect(x is data, "the sum spectrum")
                return top
        m.np = Numpy()
        r = h.estimate_map_depth(index=4, **({"downsample": down, "for_numpy": for_numpy} if down != 1 or for_numpy else {}))
        r = np.dtype(r)
        mean = 2 * down * down * (top.e / w.e / t.e)
        bits = 8 * r.itemsize
        expect(r.kind in "iu" and (r.kind == "u" or (for_numpy and down > 1)), "kind of the type")
        prove(mean < 2 ** bits if bits < 32 else z3.BoolVal(True), "twice the mean of the brightest channel fits")
        if not for_numpy:
            expect(r.name in ("uint8", "uint16", "uint32"), "types of the compiled parser")
    return run


CONTRACTS = [Contract("start of the stream", stream_start, [P + ":DataStream.__cinit__", P + ":DataStream.__init__", P + ":DataStream.seek"])]
for _op, _n in (("read_8", 1), ("read_16", 2), ("read_32", 4), ("read_64", 8), ("skip", 4), ("ptr_to", None)):
    CONTRACTS.append(Contract("stream: " + _op, data_stream(_op, _n), [P + ":DataStream." + _op, P + ":DataStream.load_next_block"]))
for _n in (2, 4, 8):
    CONTRACTS.append(Contract("numbers of %d bytes" % _n, number_reading(_n), [P + ":read_%d" % (8 * _n)]))
CONTRACTS.append(Contract("pulses of 16 bits", pulses("unpack16bit", pulse16), [P + ":unpack16bit"]))
CONTRACTS.append(Contract("pulses of 12 bits", pulses("unpack12bit", pulse12), [P + ":unpack12bit"]))
CONTRACTS.append(Contract("spectra packed by instructions", instructed, [P + ":unpack_instructed"]))
for _d in (1, 2, None):
    CONTRACTS.append(Contract("maps, downsampling %s" % (_d or "any"), whole_map(_d), [P + ":bin_to_numpy"]))
for _t in ("uint8", "uint16", "uint32"):
    for _d in (1, 3):
        CONTRACTS.append(Contract("map of type %s, downsampling %d" % (_t, _d), to_numpy(_t, _d), [P + ":parse_to_numpy"]))
CONTRACTS.append(Contract("channels of energies", energies, [F + ":EDXSpectrum.energy_to_channel", F + ":EDXSpectrum.last_non_zero_channel"]))
for _c in ("none", "zealous", "number", "auto", "auto, no voltage"):
    for _f in (True, False):
        for _l in (False, True):
            for _i in (None, 12):
                CONTRACTS.append(Contract("shape of the map: %s%s%s, %s" % (_c, ", compiled" * _f, ", lazy" * _l, "first map" if _i is None else "map 12"), shape_of_map(_c, _f, _l, None if _c == "none" else 3, _i),
                                          [F + ":BCF_reader.parse_hypermap"] + [F + ":HyperHeader.get_consistent_min_channels"] * _c.startswith("auto")))
for _d in (1, 2, 4, 5):
    CONTRACTS.append(Contract("shape of the map, downsampling %d" % _d, shape_of_map("none", True, False, _d, 0), [F + ":BCF_reader.parse_hypermap"]))
for _i in (None, "all", 11, 7):
    for _l in (False, True):
        CONTRACTS.append(Contract("axes of the map %s%s" % (_i, ", lazy" * _l), axes_of_map(_i, _l), [F + ":bcf_hyperspectra", F + ":BCF_reader.check_index_valid"]))
for _k in (None, "image", "spectrum_image"):
    CONTRACTS.append(Contract("datasets: %s" % _k, datasets(_k), [F + ":bcf_reader", F + ":file_reader"]))
for _n in (False, True):
    for _d in (1, 2, 3):
        CONTRACTS.append(Contract("type of the map, downsampling %d%s" % (_d, ", pure Python parser" * _n), type_of_map(_n, _d), [F + ":HyperHeader.estimate_map_depth"]))

ASSUMPTIONS = [
    "extraction of the .pyx (pyvc/pyx.py): Cython's own parser gives the tree of the functions, which are run as Python with every assignment, cast, argument and result passed through the declared C type; decorators, cimports and docstrings are dropped, intermediate results of expressions are unbounded (each is proved to lie in its type where it is stored)",
    "pointers: an address is a place in the file with the bounds of the block that holds it; each access is proved to lie inside; objects are released by CPython as usual",
    "a pixel of the map is followed, any one, with any channel: the memory view gives the other cells unknown values",
    "numbers of pixels and bytes that are asked for at once lie below 2^20, gains of packed spectra below 2^31, packed spectra are shorter than 2^16 bytes, and the counts of a cell fit the type of the map",
    "the pure Python parser (py_parse_hypermap) is only compared with the expected counts on random maps: bounded, not proved",
    "numpy and dask: np.zeros gives an empty map, nonzero lists the channels with counts in order, delayed and from_delayed run the parser later; math.ceil; real arithmetic for the energies",
]


# ---- search: random maps through both parsers
def compiled(s):
    """the parser of this tree, compiled in the scratch folder"""
    import importlib.util
    import subprocess
    import sysconfig
    src = os.path.join(s.tmp, "unbcf_fast.pyx")
    with open(os.path.join(REPO, P)) as f, open(src, "w") as g:
        g.write(f.read())
    c, so = src[:-3] + "c", src[:-3] + "so"
    for cmd in ([sys.executable, "-m", "cython", "-3", src, "-o", c],
                ["gcc", "-O1", "-w", "-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], c, "-o", so]):
        r = subprocess.run(cmd, cwd=s.tmp, capture_output=True, text=True, timeout=300)
        if r.returncode:
            s.check(False, "the parser compiles (%s)" % (r.stdout + r.stderr)[-300:], {})
            return None
    spec = importlib.util.spec_from_file_location("unbcf_fast", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def pack12(values):
    """12 bits each, from the highest bit of 16-bit words on"""
    bits = "".join(format(v, "012b") for v in values)
    bits += "0" * (-len(bits) % 16)
    return b"".join(int(bits[k:k + 16], 2).to_bytes(2, "little") for k in range(0, len(bits), 16))


def pack_bunches(rng, counts):
    """spectrum as bunches; counts fit the width that is chosen for each"""
    import struct as st
    out, k = b"", 0
    while k < len(counts):
        n = min(rng.choice([1, 2, 3, 7, 20, 255]), len(counts) - k)
        part = [int(v) for v in counts[k:k + n]]
        k += n
        if not any(part) and rng.random() < 0.9:
            out += st.pack("<BB", 0, n)
            continue
        low, high = min(part), max(part)
        fits = [w for w, top, g in ((1, 15, 255), (2, 255, 65535), (4, 65535, 2 ** 31 - 1), (8, 2 ** 32 - 1, 2 ** 31 - 1)) if high - min(low, g) <= top]
        w = fits[0] if rng.random() < 0.6 else rng.choice(fits)
        top, g = {1: (15, 255), 2: (255, 65535), 4: (65535, 2 ** 31 - 1), 8: (2 ** 32 - 1, 2 ** 31 - 1)}[w]
        gain = rng.randint(max(0, high - top), min(low, g))
        v = [x - gain for x in part]
        out += st.pack("<BB", w, n) + gain.to_bytes(w, "little")
        if w == 1:
            v += [0] * (n % 2)
            out += bytes(a | b << 4 for a, b in zip(v[::2], v[1::2]))
        else:
            out += st.pack("<%d%s" % (n, {2: "B", 4: "H", 8: "I"}[w]), *v)
    return out


def rand_map(s, top):
    """bytes of a map, and the counts of its pixels"""
    import struct as st
    rng = s.rng
    height, width = rng.randint(1, 6), rng.randint(1, 6)
    chan = rng.choice([1, 2, 5, 16, 64, 300, 1024, 4096])
    full = np.zeros((height, width, chan), "u8")
    out = st.pack("<II", height, width).ljust(0x1A0, bytes([rng.randrange(256)]))
    kinds = rng.choice([(0,), (1,), (2,), (0, 1, 2), (0, 1, 2, 3, 7)])
    for y in range(height):
        xs = sorted(rng.sample(range(width), rng.choice([0, width, rng.randint(0, width)])))
        out += st.pack("<I", len(xs))
        for x in xs:
            flag = rng.choice(kinds)
            last = rng.randint(1, chan)
            size1 = rng.randrange(2 ** 16)
            if flag < 2:
                n = rng.choice([0, 1, 2, 3, 4, 5, 9, rng.randint(0, 60), rng.randint(0, min(top, 2000))])
                n = min(n, top)
                v = [rng.randrange(last if flag == 0 else min(last, 4096)) for _ in range(n)]
                for c in v:
                    full[y, x, c] += 1
                data = st.pack("<%dH" % n, *v) if flag == 0 else pack12(v)
                out += st.pack("<IHHIHHHI", x, chan, last, rng.randrange(2 ** 32), flag, size1, n, len(data)) + data
            else:
                c = np.array([0 if rng.random() < 0.6 else rng.choice([rng.randint(0, 20), rng.randint(0, 300), rng.randint(0, 10 ** 5)]) for _ in range(last)], "u8")
                if rng.random() < 0.1:
                    c[rng.randrange(last)] = rng.choice([2 ** 31 - 1, 10 ** 9])
                c = np.minimum(c, top // 2)
                full[y, x, :last] += c
                data = pack_bunches(rng, c)
                n = min(rng.choice([0, 0, 1, 2, 30]), top // 2)
                v = [rng.randrange(chan) for _ in range(n)]
                for k in v:
                    full[y, x, k] += 1
                out += st.pack("<IHHIHHHI", x, chan, last, rng.randrange(2 ** 32), flag, size1, n, len(data) + 4) + data
                out += st.pack("<I%dH" % n, 2 * n, *v)
    return out, full


def summed(full, d):
    h, w, c = full.shape
    r = np.zeros((-(-h // d), -(-w // d), c), "u8")
    for y in range(h):
        for x in range(w):
            r[y // d, x // d] += full[y, x]
    return r


def cut(a, depth):
    r = np.zeros(a.shape[:2] + (depth,), a.dtype)
    n = min(depth, a.shape[2])
    r[:, :, :n] = a[:, :, :n]
    return r


def search(s):
    import logging
    logging.getLogger().setLevel(logging.ERROR)
    from rsciio.bruker import _api as b
    errors = (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, OverflowError, StopIteration, AssertionError, NotImplementedError)
    import struct as st
    errors += (st.error,)
    fast = compiled(s)
    rng = s.rng
    for k in range(s.n(900, 12000)):
        if not s.left():
            break
        typ = rng.choice(["uint8", "uint16", "uint32"])
        d = rng.choice([1, 1, 2, 3, 4])
        top = (2 ** (8 * np.dtype(typ).itemsize) - 1) // (d * d)
        data, full = rand_map(s, top if typ != "uint32" else min(top, 2 ** 31 - 1))
        depth = max(1, full.shape[2] + rng.choice([0, 0, 0, -1, -7, -full.shape[2] // 2, 5]))
        block = rng.choice([0x1A0, 0x1A0 + 8, 512, 600, 1000, 4064, 32736, len(data)])
        block = max(block, 0x1A0)
        want = cut(summed(full, d), depth)
        case = dict(map="%d x %d pixels of %d channels" % full.shape, type=typ, downsample=d, channels=depth, block=block, size=len(data), first=data[0x1A0:0x1A0 + 60].hex())
        s.note(case)

        class File:
            def get_iter_and_properties(self):
                n = -(-len(data) // block)
                return iter([data[i * block:(i + 1) * block] for i in range(n)]), block, n
        for name, parse in (("compiled parser", fast and fast.parse_to_numpy), ("pure Python parser", b.py_parse_hypermap)):
            if not parse:
                continue
            t = np.dtype(typ)
            if name[0] == "p" and d > 1:                       # the types of estimate_map_depth for it
                t = np.dtype("int%d" % (8 * t.itemsize))
            kw = {"downsample": d} if d > 1 or rng.random() < 0.5 else {}
            try:
                r = parse(File(), want.shape, t, **kw)
            except errors as e:
                s.fail("maps are read by the %s (%s: %s)" % (name, type(e).__name__, str(e)[:60]), case)
                continue
            s.check(r.shape == want.shape and r.dtype == np.dtype(typ), "shape and type of the map (%s)" % name, case)
            s.check(np.array_equal(np.asarray(r, "u8"), want), "every count is at its pixel and channel (%s)" % name, case)
        # the type follows the sum spectrum
        e = object.__new__(b.EDXSpectrum)
        e.data = full.sum(axis=(0, 1))
        h = object.__new__(b.HyperHeader)
        h.image, h.spectra_data = types.SimpleNamespace(height=full.shape[0], width=full.shape[1]), {0: e}
        m = summed(full, d).max(initial=0)
        chosen = np.dtype(h.estimate_map_depth(downsample=d))
        s.check(m <= np.iinfo(chosen).max, "the counts fit the type of the map", dict(case, brightest=int(m), chosen=chosen.name), tag="bruker-depth")

    for k in range(s.n(400, 4000)):
        if not s.left():
            break
        files(s, b)


def files(s, b):
    """several maps of one file, through bcf_hyperspectra"""
    import struct as st
    rng = s.rng
    indexes = rng.sample(range(13), rng.randint(1, 3))
    height, width = rng.randint(1, 7), rng.randint(1, 7)
    md = dict(hardware_metadata={}, detector_metadata={}, esma_metadata={}, spectrum_metadata={})
    data, spectra = {}, {}
    for i in indexes:
        c = rng.choice([2, 5, 64, 400])
        full = np.zeros((height, width, c), "u8")
        for y in range(height):
            for x in range(width):
                for _ in range(rng.randint(0, 3)):
                    full[y, x, rng.randrange(c)] += 1
        full[0, 0, rng.randrange(c)] += 1
        e = object.__new__(b.EDXSpectrum)
        e.data = full.sum(axis=(0, 1))
        e.amplification, e.offset, e.scale = rng.choice([10000.0, 20000.0, 40000.0]), rng.choice([0.0, -0.5]), rng.choice([20.0, 10.0, 40.0]) / c
        for n, v in md.items():
            setattr(e, n, v)
        raw = st.pack("<II", height, width).ljust(0x1A0, b"\0")
        for y in range(height):
            raw += st.pack("<I", width)
            for x in range(width):
                v = np.repeat(np.arange(c), full[y, x].astype(int)).tolist()
                raw += st.pack("<IHHIHHHI", x, c, c, 0, 0, 0, len(v), 2 * len(v)) + st.pack("<%dH" % len(v), *v)
        data[i], spectra[i] = (raw, full), e
    h = object.__new__(b.HyperHeader)
    h.mode, h.x_res, h.y_res, h.units, h.date, h.time, h.name, h.elements = rng.choice(["SEM", "TEM"]), rng.random() + 0.1, rng.random() + 0.1, "\u00b5m", "2020-01-02", "01:02:03", "s", {}
    h.dsp_metadata, h.line_counter, h.stage_metadata, h.sem_metadata = {}, [], {}, {}
    h.hv, h.spectra_data = rng.choice([None, 0, 5.0, 15.0, 30.0]), spectra
    h.image = types.SimpleNamespace(height=height, width=width)
    h.get_acq_instrument_dict = lambda detector=False, index=0: {"index": index}
    o = object.__new__(b.BCF_reader)
    o.header, o.filename, o.available_indexes, o.def_index = h, "/a/f.bcf", list(indexes), min(indexes)
    block = rng.choice([0x1A0, 1000, 32736])

    class File:
        def __init__(self, raw):
            self.raw = raw

        def get_iter_and_properties(self):
            n = -(-len(self.raw) // block)
            return iter([self.raw[i * block:(i + 1) * block] for i in range(n)]), block, n
    sfs = b.SFS_reader
    b.SFS_reader = lambda f: types.SimpleNamespace(get_file=lambda p: File(data[int(p.split("SpectrumData")[1])][0]))
    index, lazy = rng.choice([None, "all", rng.choice(indexes)]), rng.random() < 0.3
    d = rng.choice([1, 1, 2, 3])
    cutoff = rng.choice([None, "zealous", "auto", 3.0, 8, 25])
    case = dict(maps=indexes, size=[height, width], index=index, downsample=d, cutoff_at_kV=cutoff, lazy=lazy, voltage=h.hv, calibration={i: (e.offset, e.scale, e.amplification) for i, e in spectra.items()})
    s.note(case)
    try:
        rs = b.bcf_hyperspectra(o, index=index, downsample=d, cutoff_at_kV=cutoff, lazy=lazy)
        if lazy:
            rs = [dict(r, data=r["data"].compute()) for r in rs]
    except (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, OverflowError, StopIteration, AssertionError, NotImplementedError, st.error) as e:
        s.fail("maps of a file are read (%s: %s)" % (type(e).__name__, str(e)[:60]), case)
        return
    finally:
        b.SFS_reader = sfs
    want = {None: [min(indexes)], "all": indexes}.get(index, [index])
    s.check(len(rs) == len(want), "one dataset for each map", case)
    for i, r in zip(want, rs):
        raw, full = data[i]
        e = spectra[i]
        n = full.shape[2]
        near = lambda kv: int(round((kv - e.offset) / e.scale))
        if cutoff == "zealous":
            n = int(np.flatnonzero(e.data)[-1]) + 1
        elif cutoff == "auto":
            n = near(h.hv) if h.hv and 0 < h.hv < e.amplification / 1000 else n
        elif cutoff is not None:
            n = near(cutoff)
        exp = cut(summed(full, d), n)
        s.check(r["data"].shape == exp.shape == tuple(a["size"] for a in r["axes"]), "shape of the map and sizes of its axes", dict(case, map=i))
        if exp.max(initial=0) <= np.iinfo(r["data"].dtype).max:
            s.check(np.array_equal(np.asarray(r["data"], "u8"), exp), "counts of the map", dict(case, map=i))
        y, x, en = r["axes"]
        s.check(np.isclose(y["scale"], h.y_res * d) and np.isclose(x["scale"], h.x_res * d) and y["units"] == x["units"] == h.units, "scales of the map", dict(case, map=i))
        s.check((en["offset"], en["scale"], en["units"]) == (e.offset, e.scale, "keV"), "energy axis of the map", dict(case, map=i))
