"""C21: the files inside Bruker containers are read byte for byte."""
import io
import os
import shutil
import struct
import types
import zlib

from .common import *

ID = "C21"
F = "rsciio/bruker/_api.py"
ITEM = [F + ":SFSTreeItem." + f for f in ("__init__", "_calc_pointer_table_size", "_fill_pointer_table")]
READ = [F + ":SFSTreeItem." + f for f in ("read_piece", "_iter_read_chunks")]
ZIP = [F + ":SFSTreeItem." + f for f in ("setup_compression_metadata", "_iter_read_compr_chunks", "get_iter_and_properties", "get_as_BytesIO_string")]
TREE = [F + ":SFS_reader." + f for f in ("__init__", "_setup_vfs", "_flat_items_to_dict", "_check_the_compresion", "get_file")]


class Whole(SymFile):
    """a file that holds all its parts: reading is never short"""

    def read(self, n=-1):
        at, p, fn = self.fn, self.pos, self.fn
        if not is_sym(n) and (n is None or n < 0):
            raise Unsupported("reading the rest of the file")
        prove(And(ie(n) >= 0, ie(p) >= 0), "place in the file")
        pe = ie(p)
        self.pos = mk_int(pe + ie(n))
        return SymBytes(lambda i: at(pe + i), n, (fn, p))


class Pieces(Sym):
    """BytesIO to which the pieces of the blocks 0, 1, 2 ... of something are written one after another"""

    def __init__(self, where, size, start=(0, 0)):
        self.where, self.size = where, size          # place of a block in the file, bytes of a block
        self.block, self.off = start
        self.start = start
        self.total = 0
        self.serial = C().next_serial()
        self.rewound = False

    def vc_havoc(self):
        self.block, self.off, self.total = fresh_int("block", 0), fresh_int("off", 0), fresh_int("total", 0)

    def __bool__(self):
        return True

    def write(self, b):
        from pyvc.sym import check_write
        check_write(self)
        expect(isinstance(b, SymBytes) and b.origin is not None and not self.rewound, "a piece of the file is appended")
        n = b.length
        prove(ie(b.origin[1]) == ie(self.where(self.block)) + ie(self.off), "the piece that follows is appended")
        prove(And(ie(n) >= 0, ie(self.off) + ie(n) <= ie(self.size)), "the piece lies in its block")
        self.total = mk_int(ie(self.total) + ie(n))
        if C().fork(ie(self.off) + ie(n) == ie(self.size)):
            self.block, self.off = mk_int(ie(self.block) + 1), 0
        else:
            self.off = mk_int(ie(self.off) + ie(n))
        return n

    def seek(self, k, whence=0):
        expect(k == 0 and whence == 0, "back to the start")
        self.rewound = True

    def close(self):
        pass

    def bytes_(self):
        """content: byte i lies in block (off + i) div size"""
        b0, o0, size, where = ie(self.start[0]), ie(self.start[1]), self.size, self.where
        fn = self.fn
        return SymBytes(lambda i: fn(ie(where(mk_int(b0 + (o0 + i) / ie(size)))) + (o0 + i) % ie(size)), self.total)

    def read(self, n=-1):
        expect(self.rewound and n == -1, "all is read")
        return self

    getvalue = bytes_

    def __getitem__(self, k):
        return self.bytes_()[k]


def load(f, bufs=None, **over):
    m = load_module(F, builtin_over={"open": lambda name, mode="r", *a, **k: opened(f, name, mode)})
    if bufs is not None:
        real_io = m.io
        m.io = types.SimpleNamespace(BytesIO=bufs)
    for k, v in over.items():
        setattr(m, k, v)
    return m


def opened(f, name, mode):
    expect(name == "f.bcf" and mode == "rb", "the container is opened to read it")
    g = Whole("again", length=0)
    g.fn = f.fn
    g.name = f.name
    f.__dict__.setdefault("handles", []).append(g)
    return g


def raw(m, **k):
    """item with the given attributes"""
    it = object.__new__(m.SFSTreeItem)
    it.__dict__.update(k)
    return it


def unit():
    """bytes of a block, symbolic"""
    return fresh_int("usable", 4, inp=True)


class Table(Sym):
    """addresses of the blocks"""

    def __init__(self, n, fn, start=0):
        self.n, self.fn, self.start = n, fn, start

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return mk_int(self.fn(ie(self.start) + ie(k)))

    def __getitem__(self, k):
        from pyvc.sym import norm_slice
        if isinstance(k, slice):
            a, b = norm_slice(k, self.n)
            n = mk_int(ie(b) - ie(a))
            n = n if C().fork(ie(n) >= 0) else 0
            return Table(n, self.fn, mk_int(ie(self.start) + ie(a)))
        prove(And(ie(k) >= 0, ie(k) < ie(self.n)), "block of the file")
        return mk_int(self.fn(ie(self.start) + ie(k)))

    def __iter__(self):
        if is_sym(self.n):
            raise Unsupported("iteration")
        return iter([self.vc_item(k) for k in range(self.n)])


def following(buf, f):
    """one block after another is appended"""
    def setup(v):
        b = buf[-1]
        b.first = (b.block, b.off, b.total)

    def inv(v, k):
        b = buf[-1]
        return {"number of blocks": And(eqi(b.block, ie(b.first[0]) + ie(k)), eqi(b.off, b.first[1])),
                "bytes so far": eqi(b.total, ie(b.first[2]) + ie(k) * ie(b.size))}
    return LoopSpec("blocks", inv, setup=setup, mutates=lambda v: [buf[-1]] + f.__dict__.get("handles", []), where=lambda fn, loc, it: bool(buf) and it is not None and is_sym(it.vc_len()))


def piece():
    """read_piece for every place and length"""
    def run():
        u = unit()
        n = fresh_int("blocks", 1, inp=True)
        f = Whole("f", length=0)
        P = fresh_fn("address", I, I)
        q, r = fresh_int("first_block", 0, inp=True), fresh_int("first_offset", 0, inp=True)
        q2, r2 = fresh_int("last_block", 0, inp=True), fresh_int("last_offset", 0, inp=True)
        C().assume(z3.And(r.e < u.e, r2.e < u.e))
        start, stop = mk_int(q.e * u.e + r.e), mk_int(q2.e * u.e + r2.e)
        C().assume(z3.And(start.e <= stop.e, q.e < n.e, stop.e <= n.e * u.e))
        # quotient and remainder are unique
        for a, x, y in ((start, q, r), (stop, q2, r2)):
            C().assume(z3.And(a.e / u.e == x.e, a.e % u.e == y.e))
        C().assume(z3.And(q.e <= q2.e, z3.Implies(q.e == q2.e, r.e <= r2.e), z3.Implies(r2.e > 0, q2.e < n.e), q2.e <= n.e))
        bufs = []

        def new(*a):
            b = Pieces(lambda k: mk_int(P(ie(k))), u, (q, r))
            b.fn = f.fn
            bufs.append(b)
            return b
        m = load(f, new)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], P(i_) >= 0, patterns=[P(i_)]))
        it = raw(m, sfs=types.SimpleNamespace(filename="f.bcf", usable_chunk=u), pointers=Table(n, P), size_in_chunks=n)
        C().run.loop_specs = [following(bufs, f)]
        got = it.read_piece(start, mk_int(stop.e - start.e))
        expect(isinstance(got, Pieces), "bytes of the pieces")
        prove(z3.And(eqi(got.block, q2), eqi(got.off, r2)), "the piece ends at its end")
    return run


def chunks(exact):
    """the blocks of a file in their order, the last one cut"""
    def run():
        u = unit()
        n = fresh_int("blocks", 1, inp=True)
        last = fresh_int("last", 1, inp=True)
        C().assume(last.e == u.e if exact else last.e < u.e)
        size = mk_int((n.e - 1) * u.e + last.e)
        C().assume(size.e % u.e == (0 if exact else last.e))
        f = Whole("f", length=0)
        P = fresh_fn("address", I, I)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], P(i_) >= 0, patterns=[P(i_)]))
        ghost = Pieces(lambda k: mk_int(P(ie(k))), u)
        ghost.fn = f.fn
        m = load(f)
        it = raw(m, sfs=types.SimpleNamespace(filename="f.bcf", usable_chunk=u, compression="None"), pointers=Table(n, P), size_in_chunks=n, size=size)
        bufs = [ghost]
        C().run.loop_specs = [following(bufs, f)]
        gen, sz, count = it.get_iter_and_properties()
        prove(z3.And(eqi(sz, u), eqi(count, n)), "size and number of the blocks")
        for b in gen:
            ghost.write(b)
        prove(z3.If(last.e == u.e, z3.And(eqi(ghost.block, n), eqi(ghost.off, 0)), z3.And(eqi(ghost.block, n.e - 1), eqi(ghost.off, last))), "all bytes, and not more")
    return run


def le4(fn, at):
    return fn(at) + 256 * fn(at + 1) + 65536 * fn(at + 2) + 16777216 * fn(at + 3)


def table(usable, many):
    """the table of addresses continues from chunk to chunk"""
    def run():
        c = usable + 32
        per = usable // 4
        n = fresh_int("blocks", 1, inp=True)
        C().assume(n.e > per if many else n.e <= per)
        size = fresh_int("size", 1, inp=True)
        C().assume(z3.And(size.e > (n.e - 1) * usable, size.e <= n.e * usable))
        f = Whole("f", length=0)
        T = fresh_fn("table_chunk", I, I)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], z3.And(T(i_) >= 0, T(i_) < 2 ** 32), patterns=[T(i_)]))
        C().assume(z3.ForAll([i_], z3.And(f.fn(i_) >= 0, f.fn(i_) < 256), patterns=[f.fn(i_)]))
        bufs = []

        def new(*a):
            b = Pieces(lambda k: mk_int(c * T(ie(k)) + 0x138), usable)
            b.fn = f.fn
            bufs.append(b)
            return b
        m = load(f, new)
        first = mk_int(T(z3.IntVal(0)))
        it = raw(m, sfs=types.SimpleNamespace(filename="f.bcf", usable_chunk=usable, chunksize=c), _pointer_to_pointer_table=first, size=size)
        n_ = it._calc_pointer_table_size()
        prove(eqi(n_, n), "number of blocks")
        it.size_in_chunks = n
        names = []
        blocks = following(bufs, f)

        def setup(v):
            blocks.setup0(v)
            names[:] = [k for k, x in v.__dict__.items() if x is first] if hasattr(v, "__dict__") else []

        def inv(v, k):
            out = blocks.inv0(v, k)
            out["chunk that comes next"] = eqi(v.next_chunk, T(ie(k)))
            return out

        def on_item(v, k, item):
            # the number of the next chunk lies in the head of the chunk
            C().assume(le4(f.fn, c * T(ie(k)) + 0x118) == T(ie(k) + 1))
        blocks.setup0, blocks.inv0 = blocks.setup, blocks.invariant
        blocks.setup, blocks.invariant, blocks.on_item = setup, inv, on_item
        C().run.loop_specs = [blocks]
        it._fill_pointer_table()
        p = it.pointers
        expect(isinstance(p, SymArr) and p.ndim == 1 and p.dtype == np.int64, "addresses")
        prove(eqi(p.shape[0], n), "an address for each block")
        k = fresh_int("k", 0)
        C().assume(k.e < n.e)
        at = c * T(k.e / per) + 0x138 + 4 * (k.e % per)
        prove(p.expr(k.e) == le4(f.fn, at) * c + 0x138, "address of a block")
    return run


def compressed():
    """the blocks of a compressed file, one after another"""
    def run():
        f = Whole("f", length=0)
        m = load(f)
        body = fresh_fn("byte_of_the_file", I, I)
        B_ = fresh_fn("place", I, I)
        size = fresh_fn("size", I, I)
        n = fresh_int("blocks", 0, inp=True)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], z3.And(size(i_) >= 0, size(i_) < 2 ** 32, B_(i_) >= 0x80), patterns=[size(i_)]))
        C().assume(B_(z3.IntVal(0)) == 0x80)
        got = []

        def read_piece(offset, length):
            # contract of read_piece, proved apart
            prove(And(ie(offset) >= 0, ie(length) >= 0), "place in the file")
            oe = ie(offset)
            return SymBytes(lambda i: body(oe + i), length, (body, offset))

        def unzip(b):
            expect(isinstance(b, SymBytes) and b.origin is not None, "bytes of the file")
            return ("unzipped", b.origin[1], b.length)
        m.unzip_block = unzip
        it = raw(m, sfs=types.SimpleNamespace(filename="f.bcf", compression="zlib"), read_piece=read_piece, no_of_compr_blk=n, uncompressed_blk_size=99)
        state = {}

        def setup(v):
            state["first"] = v.offset

        def inv(v, k):
            if "k" in state:
                kk = state.pop("k")
                b = state.pop("block")
                expect(isinstance(b, tuple) and b[0] == "unzipped", "block decompressed")
                prove(z3.And(eqi(b[1], B_(ie(kk)) + 16), eqi(b[2], size(ie(kk)))), "the bytes of the block")
            return {"place of the block": eqi(v.offset, B_(ie(k)))}

        def on_item(v, k, item):
            state["k"] = k
            C().assume(le4(body, B_(ie(k))) == size(ie(k)))
            C().assume(B_(ie(k) + 1) == B_(ie(k)) + 16 + size(ie(k)))
        C().run.loop_specs = [LoopSpec("compressed blocks", inv, setup=setup, on_item=on_item, mutates=lambda v: f.__dict__.get("handles", []))]
        gen, sz, count = it.get_iter_and_properties()
        expect(sz == 99 and count is n, "size and number of the blocks")
        for b in gen:
            state["block"] = b
    return run


def head(aacs):
    """head of a compressed file"""
    def run():
        f = Whole("f", length=0)
        m = load(f)
        P = fresh_fn("address", I, I)
        p0 = P(z3.IntVal(0))
        C().assume(p0 >= 0)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], z3.And(f.fn(i_) >= 0, f.fn(i_) < 256), patterns=[f.fn(i_)]))
        for k, x in enumerate(b"AACS"):
            C().assume(f.fn(p0 + k) == (x if aacs else 0))
        it = raw(m, sfs=types.SimpleNamespace(filename="f.bcf"), pointers=Table(1, P))
        try:
            it.setup_compression_metadata()
        except ValueError:
            expect(not aacs, "the file is compressed")
            return
        expect(aacs, "files that are not compressed are refused")
        prove(z3.And(eqi(it.uncompressed_blk_size, le4(f.fn, p0 + 4)), eqi(it.no_of_compr_blk, le4(f.fn, p0 + 12))), "size and number of the blocks")
    return run


def item(is_dir, name):
    """an entry of the table of files"""
    def run():
        f = Whole("f", length=0)
        m = load(f)
        m.msfiletime_to_unix = lambda t: ("time", t)
        raw_ = z3.Function(C().fresh_name("raw"), I, I)
        fixed = {0xdc + k: 0 for k in range(1)}
        text = name.encode().ljust(256, b"\0")
        where = struct.calcsize("<iQQQQIi176s?3s")
        flag = struct.calcsize("<iQQQQIi176s")

        def at(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                j = i.as_long()
                if where <= j < where + 256:
                    return z3.IntVal(text[j - where])
                if j == flag:
                    return z3.IntVal(int(is_dir))
            return raw_(i)
        i_ = z3.Int("i!")
        C().assume(z3.ForAll([i_], z3.And(raw_(i_) >= 0, raw_(i_) < 256), patterns=[raw_(i_)]))
        filled = []
        m.SFSTreeItem._fill_pointer_table = lambda self: filled.append(self.size_in_chunks)
        u = 4064
        it = m.SFSTreeItem(SymBytes(at, 512), types.SimpleNamespace(usable_chunk=u, filename="f.bcf"))

        def number(p, n):
            return sum((256 ** k * raw_(z3.IntVal(p + k)) for k in range(n)), z3.IntVal(0))

        def signed(p):
            e = number(p, 4)
            return z3.If(e >= 2 ** 31, e - 2 ** 32, e)
        prove(z3.And(eqi(it._pointer_to_pointer_table, signed(0)), eqi(it.size, number(4, 8)), eqi(it.parent, signed(40))), "table, size and directory")
        for k, t in enumerate((it.create_time, it.mod_time, it.some_time)):
            expect(isinstance(t, tuple) and t[0] == "time", "times")
            prove(eqi(t[1], number(12 + 8 * k, 8)), "times")
        expect(it.name == name and bool(it.is_dir) == is_dir, "name")
        nb = it.size_in_chunks
        prove(z3.And(ie(nb) * u >= ie(it.size), (ie(nb) - 1) * u < ie(it.size)), "number of blocks")
        expect(len(filled) == (0 if is_dir else 1), "the table of a file is read")
    return run


def tree(n, usable, parents=None, zipped=False, names=None):
    """the table of files, read from its chunks, and the directories"""
    def run():
        c = usable + 32
        per = usable // 512
        parts = (n + per - 1) // per
        address = [7, 3, 12, 5, 9, 20, 21, 22][:parts]
        data = bytearray(c * 30 + 0x138)
        data[:8] = b"AAMVHFSS"
        struct.pack_into("<fI", data, 0x124, 2.6, c)
        struct.pack_into("<III", data, 0x140, address[0], n, 30)
        for k in range(parts):
            base = c * address[k]
            struct.pack_into("<I", data, base + 0x118, address[k + 1] if k + 1 < parts else 0)
            for j in range(k * per, min(n, (k + 1) * per)):
                data[base + 0x138 + (j - k * per) * 512: base + 0x138 + (j - k * per + 1) * 512] = bytes([j % 251 + 1]) * 512
        par = parents if parents is not None else [-1] * n
        dirs = set(par)
        if names and len(set(zip(par, names))) < n:
            return                             # two entries of one name in one directory
        m = load_module(F, builtin_over={"open": lambda name, mode="r", *a, **k: io.BytesIO(bytes(data))})
        made = []

        class Item:
            def __init__(self, raw_string, parent):
                k = len(made)
                expect(raw_string == bytes([k % 251 + 1]) * 512, "the entries of the table in their order")
                self.parent, self.is_dir, self.name = par[k], k in dirs, names[k] if names else "n%d" % k
                self.pointers = [c * 26]
                made.append(self)
                self.sfs = parent

            def setup_compression_metadata(self):
                self.zipped = True
        if zipped:
            data[c * 26: c * 26 + 4] = b"AACS"
        m.SFSTreeItem = Item
        r = m.SFS_reader("f.bcf")
        expect(len(made) == n and r.sfs_version == "2.60" and r.chunksize == c and r.usable_chunk == usable, "head of the container")
        expect(r.compression == ("zlib" if zipped else "None"), "compression")
        expect(all(getattr(x, "zipped", False) == (zipped and not x.is_dir) for x in made), "heads of the compressed files")

        def path(k):
            return ([] if par[k] == -1 else path(par[k])) + [made[k].name]
        for k in range(n):
            got = r.get_file("/".join(path(k)))
            if made[k].is_dir:
                expect(isinstance(got, dict) and set(got) == {made[j].name for j in range(n) if par[j] == k}, "content of a directory")
            else:
                expect(got is made[k], "a file is found by its path")
        expect(set(r.vfs) == {made[j].name for j in range(n) if par[j] == -1}, "content of the root")
    return run


def forests(n):
    """all parents that form directories without a cycle"""
    import itertools
    for p in itertools.product(range(-1, n), repeat=n):
        ok = True
        for k in range(n):
            j, steps = k, 0
            while j != -1 and steps <= n:
                j, steps = p[j], steps + 1
            ok = ok and steps <= n
        if ok:
            yield list(p)


CONTRACTS = [Contract("a piece of a file", piece(), READ),
             Contract("the blocks of a file, last one full", chunks(True), READ + ZIP),
             Contract("the blocks of a file, last one cut", chunks(False), READ + ZIP),
             Contract("compressed blocks", compressed(), ZIP), Contract("head of a compressed file", head(True), ZIP),
             Contract("head of a file that is not compressed", head(False), ZIP)]
for _u in (4, 64, 480, 992, 4064, 32736):
    for _m in (False, True):
        CONTRACTS.append(Contract("table of addresses, %d bytes a chunk%s" % (_u, ", several chunks" * _m), table(_u, _m), ITEM))
for _d in (False, True):
    CONTRACTS.append(Contract("entry of %s" % ("a directory" if _d else "a file"), item(_d, "EDSDatabase" if _d else "SpectrumData0"), ITEM))
for _n in (1, 2, 3):
    def _all(n=_n):
        for p in forests(n):
            for z in (False, True):
                tree(n, 32736, p, z)()
    CONTRACTS.append(Contract("directories of %d entries" % _n, _all, TREE))


def _names():
    import itertools
    for p in forests(4):
        for names in itertools.product("ab", repeat=4):
            tree(4, 32736, p, False, names)()


CONTRACTS.append(Contract("directories and files of the same names", _names, TREE))
for _u, _n in ((992, 1), (992, 2), (992, 5), (2016, 3), (2016, 7), (2016, 8), (4064, 7), (4064, 8), (4064, 15), (32736, 63), (32736, 64), (32736, 127)):
    CONTRACTS.append(Contract("table of %d files, %d bytes a chunk" % (_n, _u), tree(_n, _u), TREE))

ASSUMPTIONS = [
    "the container is complete: every place that its tables name lies in the file, and reading there is not short",
    "the layout of the container: header at 0x124 and 0x140, chunk k begins at k times its size + 0x118 with the number of the chunk that follows it, its content 32 bytes later; entries of 512 bytes",
    "the table of addresses is proved for the chunk sizes 36, 96, 512, 1024, 4096 and 32768 and all file sizes; the other contracts on the blocks for all chunk sizes",
    "directories are proved for all trees of at most three entries, and of four with two names, the table of files for the sizes listed",
    "numpy.frombuffer and struct by their contracts in the engine; zlib is trusted to undo itself",
]


def build(s, path):
    """write a container; gives (tree of contents, entries)"""
    rng = s.rng
    c = rng.choice((0x220, 0x230, 0x240, 0x420, 0x1000, 0x8000))
    u = c - 32
    entries = []                                  # name, parent, content (None: directory)
    n = rng.choice((1, 2, 3, 4, 6, 9))
    zipped = rng.random() < 0.3
    few = rng.choice(((), ("a", "b")))            # the same names in many directories
    for k in range(n):
        dirs = [j for j, e in enumerate(entries) if e[2] is None]
        parent = rng.choice([-1] + dirs)
        used = {e[0] for e in entries if e[1] == parent}
        name = rng.choice([x for x in (few + ("x%d" % k,) if few else ()) or ("EDSDatabase", "HeaderData", "SpectrumData0", "SpectrumData1", "d", "v", "Daten \xe4", "q" * 255, "a.b", "x%d" % k) if x not in used])
        if rng.random() < 0.4 and k + 1 < n:
            entries.append([name, parent, None])
        else:
            size = max(1, rng.choice((1, u - 1, u, u + 1, 2 * u, 3 * u + 7, rng.randrange(1, 40 * u if c < 0x300 else 4 * u), (u // 4) * u if c < 0x300 else u, (u // 4) * u + 5 if c < 0x300 else 5, (u // 4) * 2 * u + 1 if c < 0x300 else 2)))
            entries.append([name, parent, bytes(rng.getrandbits(8) for _ in range(min(size, 700))) * (size // 700 + 1)])
            entries[-1][2] = entries[-1][2][:size]
    if not any(e[2] is not None for e in entries):
        entries.append(["file", -1, b"content"])
    order = list(range(len(entries)))
    rng.shuffle(order)                            # entries are listed in any order
    place = {k: i for i, k in enumerate(order)}
    stored = {}
    for k, e in enumerate(entries):
        if e[2] is None:
            continue
        if not zipped:
            stored[k] = e[2]
            continue
        block = max(1, rng.choice((len(e[2]), len(e[2]) // 2, len(e[2]) // 5, 64)))
        parts = [e[2][i:i + block] for i in range(0, len(e[2]), block)]
        out = bytearray(struct.pack("<IIII", 0x53434141, block, 0, len(parts)).ljust(0x80, b"\7"))
        for p in parts:
            z = zlib.compress(p, rng.choice((0, 1, 9)))
            out += struct.pack("<IIII", len(z), len(p), 77, len(z) + 16) + z
        stored[k] = bytes(out)
    chunks, chains = [], []                       # content of each chunk and the chunk that follows it
    per_tree, per_table = u // 512, u // 4

    def new(content, after=None):
        chunks.append([content.ljust(u, bytes([rng.getrandbits(8)])), None])
        if after is not None:
            chunks[after][1] = len(chunks) - 1
        return len(chunks) - 1
    tables = {}
    for k, data in stored.items():
        tables[k] = [new(data[i:i + u]) for i in range(0, len(data), u)]
    first = {}
    total = len(chunks) + sum((len(t) + per_table - 1) // per_table for t in tables.values()) + (len(entries) + per_tree - 1) // per_tree
    number = list(range(1, total + rng.choice((1, 4))))       # chunk 0 is the head of the container
    rng.shuffle(number)
    for k, t in tables.items():
        last = None
        for i in range(0, len(t), per_table):
            last = new(b"".join(struct.pack("<I", number[x]) for x in t[i:i + per_table]), last)
            first.setdefault(k, last)
    tree, last = None, None
    for i in range(0, len(order), per_tree):
        raw = b""
        for k in order[i:i + per_tree]:
            name, parent, content = entries[k]
            raw += struct.pack("<iQQQQIi176s?3s256s32s", number[first[k]] if content is not None else 0, len(stored.get(k, b"")), 130000000000000000, 130000000000000000, 0, 7, -1 if parent == -1 else place[parent], b"", content is None, b"", name.encode(), b"")
        last = new(raw, last)
        tree = last if tree is None else tree
    out = bytearray(0x138 + c * (len(number) + 2))
    out[:8] = b"AAMVHFSS"
    struct.pack_into("<fI", out, 0x124, rng.choice((2.4, 2.6)), c)
    body = {}
    for i, (content, after) in enumerate(chunks):
        at = number[i] * c + 0x138
        body[number[i]] = (content, number[after] if after is not None else 0)
    for k in sorted(body):
        struct.pack_into("<I28x", out, k * c + 0x118, body[k][1])
        out[k * c + 0x138:k * c + 0x138 + u] = body[k][0]
    struct.pack_into("<III", out, 0x140, number[tree], len(entries), len(number))
    with open(path, "wb") as fh:
        fh.write(bytes(out))
    return entries, stored, zipped


def same(s, reader, entries, stored, zipped, case):
    paths = {}

    def path(k):
        name, parent, _ = entries[k]
        return name if parent == -1 else path(parent) + "/" + name

    for k, (name, parent, content) in enumerate(entries):
        p = path(k)
        c = dict(case, file=p)
        try:
            got = reader.get_file(p)
        except KeyError:
            s.fail("entries of the container are found by their path", c)
            continue
        if content is None:
            s.check(isinstance(got, dict) and set(got) == {e[0] for e in entries if e[1] == k}, "a directory holds its entries", c)
            continue
        if not s.check(not isinstance(got, dict) and got.size == len(stored[k]) and got.name == name, "size and name of a file", c):
            continue
        try:
            data = got.get_as_BytesIO_string().getvalue()
        except (IndexError, struct.error, zlib.error, ValueError, TypeError) as e:
            s.fail("files of the container can be read (%s)" % type(e).__name__, c)
            continue
        s.check(data == content, "a file is read byte for byte", dict(c, n=len(content)))
        size = len(stored[k])
        for _ in range(6):
            a = s.rng.choice((0, s.rng.randrange(size), max(0, size - 3), (s.rng.randrange(size) // reader.usable_chunk) * reader.usable_chunk))
            n = min(size - a, s.rng.choice((1, 16, reader.usable_chunk, reader.usable_chunk + 1, size - a)))
            try:
                part = got.read_piece(a, n)
            except (IndexError, struct.error, ValueError, TypeError) as e:
                s.fail("pieces of a file can be read (%s)" % type(e).__name__, dict(c, offset=a, length=n))
                continue
            s.check(part == stored[k][a:a + n], "a piece of a file is read byte for byte", dict(c, offset=a, length=n, size=size))
        it, size, count = got.get_iter_and_properties()
        blocks = list(it)
        s.check(len(blocks) == count and all(len(b) == size for b in blocks[:-1]), "number and size of the blocks", dict(c, n=count, size=size))


def search(s):
    from rsciio.bruker import _api as b
    tmp = getattr(s, "tmp", None) or "."
    for k in range(s.n(500, 8000)):
        if not s.left():
            break
        path = os.path.join(tmp, "c%d.bcf" % k)
        entries, stored, zipped = build(s, path)
        case = {"entries": [(e[0][:12], e[1], None if e[2] is None else len(e[2])) for e in entries], "compressed": zipped}
        s.note(case)
        try:
            reader = b.SFS_reader(path)
        except (KeyError, IndexError, struct.error, ValueError, TypeError, AttributeError) as e:
            s.fail("containers are opened (%s)" % type(e).__name__, case)
            continue
        same(s, reader, entries, stored, zipped, case)
        os.remove(path)
