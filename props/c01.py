"""C01: block-wise loading returns the bytes of the file at their place."""
import itertools
import os as _os

from .common import *
from pyvc.arr import NpShim
from pyvc.sym import SymOpaque

ID = "C01"
D = "rsciio/utils/_distributed.py"


class AbsNdIndex:
    """np.ndindex by contract: every index of the shape exactly once.  The
    contract is instantiated at one arbitrary index j (visited at step kj)."""

    def __init__(self, shape, j):
        self.shape, self.j = tuple(shape), j
        self.n = fresh_int("blocks", 0)
        self.u = [fresh_fn("ndindex%d" % d, I, I) for d in range(len(self.shape))]
        self.kj = fresh_int("kj", 0, self.n)

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        k = ie(k)
        item = [u(k) for u in self.u]
        for d, (x, n) in enumerate(zip(item, self.shape)):
            assume(z3.And(x >= 0, x < ie(n)))
        assume(And(*[x == y.e for x, y in zip(item, self.j)]) == (k == self.kj.e))
        return tuple(mk_int(x) for x in item)


class PSum:
    """chunk[:i] of a chunk list: only its sum is used"""

    def __init__(self, v):
        self.v = v

    def vc_sum(self):
        return mk_int(self.v)


class Chunks(SymSeq):
    """one dimension of normalize_chunks: positive sizes, known prefix sums"""

    def __init__(self, d, total):
        self.c = fresh_fn("chunk%d" % d, I, I)
        self.P = fresh_fn("start%d" % d, I, I)
        n = fresh_int("nchunks%d" % d, 1)
        SymSeq.__init__(self, n, lambda k: mk_int(self.c(ie(k))))
        self.n = n
        assume(self.P(0) == 0)
        assume(self.P(n.e) == ie(total))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start not in (None, 0) or k.step is not None:
                raise Unsupported("slice of a chunk list")
            return PSum(self.P(ie(k.stop)))
        return SymSeq.__getitem__(self, k)


class Da:
    def __init__(self, chunks=None):
        self.chunks = chunks
        self.core = self
        self.calls = []

    def normalize_chunks(self, chunks=None, shape=None, limit=None, dtype=None):
        self.norm = dict(chunks=chunks, shape=shape, limit=limit, dtype=dtype)
        return tuple(self.chunks(shape)) if callable(self.chunks) else self.chunks

    def from_array(self, a, chunks=None):
        self.arr, self.arr_chunks = a, chunks
        return ("dask", a, chunks)

    def map_blocks(self, f, *a, **k):
        self.calls.append((f, a, k))
        return ("blocks",)


def load(da, **over):
    return load_module(D, overrides={"da": da}, np_over=over)


def chunk_slices(nd):
    def run():
        sizes = tuple(fresh_int("n%d" % d, 0, inp=True) for d in range(nd))
        made = []

        def norm(shape):
            expect(len(shape) == nd and all(a is b for a, b in zip(shape, sizes)), "chunks of the whole shape")
            made.extend(Chunks(d, n) for d, n in enumerate(shape))
            return made
        da = Da(norm)
        j = [fresh_int("j%d" % d, 0) for d in range(nd)]
        m = load(da, ndindex=lambda s: AbsNdIndex(s, j))
        g = C().ghost

        def inv(v, k):
            it = g["it"]
            at = [And(v.slices.expr(*[x.e for x in j], z3.IntVal(d), z3.IntVal(0)) == c.P(j[d].e),
                      v.slices.expr(*[x.e for x in j], z3.IntVal(d), z3.IntVal(1)) == c.P(j[d].e) + c.c(j[d].e))
                  for d, c in enumerate(made)]
            return {"block bounds": z3.Implies(it.kj.e < ie(k), And(*at))}

        def where(fn, loc, it):
            g["it"] = it
            return isinstance(it, AbsNdIndex)
        C().run.loop_specs = [LoopSpec("blocks", inv, needs=["slices"], where=where,
                                       mutates=lambda v: [v.slices])]
        ret, chunks = m.get_chunk_slice(sizes, chunks="auto", block_size_limit=7, dtype="u2")
        a = ret[1]
        assume(g["it"].kj.e < g["it"].n.e)
        expect(da.norm["chunks"] == "auto" and da.norm["limit"] == 7 and da.norm["dtype"] == "u2", "chunk settings passed on")
        for d, c in enumerate(made):
            lo = a.expr(*[x.e for x in j], z3.IntVal(d), z3.IntVal(0))
            hi = a.expr(*[x.e for x in j], z3.IntVal(d), z3.IntVal(1))
            prove([lo == c.P(j[d].e), hi == c.P(j[d].e) + c.c(j[d].e)], "every block starts where the blocks before it end")
            prove(eqi(a.shape[d], c.n), "one entry per block")
        expect(tuple(chunks) == tuple(made), "the same chunks describe the result")
        expect(a.shape[-2:] == (nd, 2) and ret[2] == (1,) * nd + (nd, 2), "one block of bounds per task")
    return run


def lemma_tiling():
    """the blocks [P(i), P(i)+c(i)) of positive sizes cover 0..n exactly once"""
    c, P = fresh_fn("c", I, I), fresh_fn("P", I, I)
    i, k = fresh_int("i", 0), fresh_int("k", 0)
    assume(P(0) == 0)
    # monotone: P(k) >= P(i) + c(i) for k > i, by induction over k
    assume(And(P(i.e + 1) == P(i.e) + c(i.e), c(i.e) >= 0, c(k.e) >= 0, P(k.e + 1) == P(k.e) + c(k.e)))
    induction("later blocks start after the end of earlier ones",
              P(i.e + 1) >= P(i.e) + c(i.e),
              z3.Implies(And(k.e > i.e, P(k.e) >= P(i.e) + c(i.e)), P(k.e + 1) >= P(i.e) + c(i.e)))
    # coverage: x < P(k) lies in one of the first k blocks, by induction over k
    x, w = fresh_int("x", 0), fresh_int("witness", 0)
    inb = lambda b: And(P(b) <= x.e, x.e < P(b) + c(b))
    prove(z3.Implies(And(x.e < P(k.e + 1), z3.Implies(x.e < P(k.e), And(w.e < k.e, inb(w.e)))),
                     z3.Or(And(w.e < k.e, inb(w.e)), inb(k.e))), "every position lies in a block: inductive step")


def arbitrary(nav):
    def run():
        navs = tuple(fresh_int("nav%d" % d, 1, inp=True) for d in range(nav))
        sig = (fresh_int("h", 1, inp=True), fresh_int("w", 1, inp=True))
        da = Da(lambda shape: [("c", d) for d in range(len(shape))])
        m = load(da)
        n = fresh_int("npos", 0, 2 ** 62, inp=True)
        pos = SymArr.fresh("positions", (n, nav), "int64")
        j = [fresh_int("j%d" % d, 0) for d in range(nav)]
        for a, b in zip(j, navs):
            assume(a.e < b.e)
        LAST = fresh_fn("last_frame_at_j", I, I)
        assume(LAST(0) == -1)

        def on_item(v, k, item):
            p = [pos.expr(k.e, z3.IntVal(d)) for d in range(nav)]
            for x, b in zip(p, navs):
                assume(z3.And(x >= 0, x < b.e))
            assume(LAST(k.e + 1) == z3.If(And(*[x == y.e for x, y in zip(p, j)]), k.e, LAST(k.e)))
        Z = z3.IntVal(0)

        def inv(v, k):
            return {"mapping": v.pos_mapping.expr(*[x.e for x in j], Z, Z) == LAST(ie(k)) + 1}
        C().run.loop_specs = [LoopSpec("positions", inv, needs=["pos_mapping"], on_item=on_item,
                                       mutates=lambda v: [v.pos_mapping])]
        ret, chunks = m.get_arbitrary_chunk_slice(pos, navs + sig)
        a = ret[1]
        prove(a.expr(*[x.e for x in j], Z, Z) == LAST(n.e), "frame at every position, -1 where there is none")
        expect(da.norm["chunks"] == ("auto",) * nav + (-1, -1), "frames are not split")
        expect(ret[2] == tuple(chunks)[:-2] + (1, 1), "mapping is chunked like the result")
        prove([eqi(x, y) for x, y in zip(a.shape, navs)], "one entry per position")
    return run


def block(nd, key):
    """one task: the block of the file it was given"""
    def run():
        shape = tuple(fresh_int("n%d" % d, 1, inp=True) for d in range(nd))
        data = SymArr.fresh("file", shape, "uint16")
        seen = []

        def memmap(file, dtype, shape=None, **k):
            seen.append((file, dtype, shape, k))
            if key is None:
                return data

            class Rec:
                def __getitem__(self, x):
                    expect(x == key, "the requested field")
                    return data
            return Rec()
        m = load(Da(), memmap=memmap)
        lo = [fresh_int("lo%d" % d, 0) for d in range(nd)]
        hi = [fresh_int("hi%d" % d, 0) for d in range(nd)]
        for a, b, n in zip(lo, hi, shape):
            assume(And(a.e <= b.e, b.e <= n.e))

        def bounds(idx):
            d, s = idx[-2], idx[-1]
            e = z3.IntVal(0)
            for k in range(nd):
                e = z3.If(d == k, z3.If(s == 0, lo[k].e, hi[k].e), e)
            return e
        sl = SymArr.func(bounds, (1,) * nd + (nd, 2), "int64")
        r = m.slice_memmap(sl, "F", "DT", shape, key=key, offset=5, order="C", mode="r")
        expect(len(seen) == 1 and seen[0] == ("F", "DT", shape, dict(offset=5, order="C", mode="r")), "the file is mapped as described")
        prove([eqi(x, mk_int(b.e - a.e)) for x, a, b in zip(r.shape, lo, hi)], "shape of the block")
        j = [fresh_int("j%d" % d, 0) for d in range(nd)]
        assume(And(*[x.e < b.e - a.e for x, a, b in zip(j, lo, hi)]))
        prove(r.expr(*[x.e for x in j]) == data.expr(*[a.e + x.e for x, a in zip(j, lo)]), "content of the block")
    return run


def pos_block(nav, key):
    def run():
        n, h, w = fresh_int("npos", 1, inp=True), fresh_int("h", 1, inp=True), fresh_int("w", 1, inp=True)
        data = SymArr.fresh("file", (n, h, w), "uint16")
        cs = tuple(fresh_int("c%d" % d, 1, inp=True) for d in range(nav))
        m = load(Da(), memmap=lambda *a, **k: data if key is None else {key: data})
        mp = SymArr.fresh("frame", cs + (1, 1), "int64")
        sk = [fresh_int("q%d" % d, 0) for d in range(nav)]
        f0 = mp.store.fn

        def rng(idx):
            v = f0(idx)
            C().solver.add(z3.And(v >= -1, v < n.e))
            return v
        mp.store.fn = rng
        r = m.slice_memmap(mp, "F", "DT", (n, h, w), key=key, positions=True)
        prove([eqi(a, b) for a, b in zip(r.shape, cs + (h, w))], "shape of the block")
        j = [fresh_int("j%d" % d, 0) for d in range(nav)]
        y, x = fresh_int("y", 0), fresh_int("x", 0)
        assume(And(*[a.e < b.e for a, b in zip(j + [y, x], list(cs) + [h, w])]))
        fr = mp.expr(*[a.e for a in j], z3.IntVal(0), z3.IntVal(0))
        prove(r.expr(*[a.e for a in j], y.e, x.e) == z3.If(fr == -1, 0, data.expr(fr, y.e, x.e)),
              "the frame of every position, zero where there is none")
    return run


STRUCT = np.dtype([("head", "<u4"), ("data", "<u2", (4, 3)), ("seq", "<i8")])
SUB = np.dtype(("<f4", (4, 3)))
PLAIN = np.dtype("<u2")


def driver(dtype, key, how, pos):
    """the task graph: every block gets its own bounds, nothing else changes"""
    def run():
        da = Da()
        size = fresh_int("file_size", 0, inp=True)

        class P:
            path = None

            @staticmethod
            def getsize(f):
                expect(f == "F", "size of the file")
                return size
        P.path = P
        m = load_module(D, overrides={"da": da, "os": P})
        sub = {"plain": (), "sub": (4, 3), "struct": (4, 3)}[dtype]
        dt = {"plain": PLAIN, "sub": SUB, "struct": STRUCT}[dtype]
        base = {"plain": PLAIN, "sub": np.dtype("<f4"), "struct": np.dtype("<u2")}[dtype]
        n, h, w, q = (fresh_int(x, 1, inp=True) for x in ("n", "h", "w", "npos"))
        nav = (n,)
        shape = {"tuple": (n,) if sub else (n, h, w), "int": n, "none": None}[how]
        got = {}

        def slicer(**k):
            got["slicer"] = k
            return "slices", "chunks"
        m.get_chunk_slice = slicer
        m.get_arbitrary_chunk_slice = slicer

        class Pos:
            def __len__(self):
                return 5
        p = Pos() if pos else None
        m.memmap_distributed("F", dt, positions=p, offset=11, shape=shape, order="F", chunks="CH",
                             block_size_limit=9, key=key)
        full = got["slicer"]["shape"]
        if how == "none":
            prove(eqi(full[0], mk_int(floordiv_e(size.e, z3.IntVal(dt.itemsize)))), "all whole records of the file")
            want_shape = (full[0],)
        else:
            want_shape = shape if isinstance(shape, tuple) else (shape,)
        expect(len(full) == len(want_shape + sub) and all(a is b or (not is_sym(a) and a == b)
                                                          for a, b in zip(full, want_shape + sub)),
               "blocks of the whole data set")
        k = got["slicer"]
        expect(k["chunks"] == "CH" and k["block_size_limit"] == 9 and k["dtype"] == base, "chunk settings passed on")
        expect(("positions" in k) == pos and (not pos or k["positions"] is p), "positions passed on")
        f, a, k = da.calls[0]
        expect(f is m.slice_memmap and a == ("slices",) and k["file"] == "F" and k["dtypes"] is dt and
               k["offset"] == 11 and k["order"] == "F" and k["mode"] == "r" and k["key"] == key and
               k["chunks"] == "chunks" and k["dtype"] == base and k["positions"] == pos, "block description")
        nd = len(full)
        expect(k["drop_axis"] == (None if pos else (nd, nd + 1)), "axes of the block description are dropped")
        ms = k["shape"]
        if pos:
            expect(ms[0] == 5 and len(ms) == 1 + (0 if sub else 2) and (sub or (ms[1] is h and ms[2] is w)),
                   "frames in file order")
        else:
            expect(len(ms) == len(want_shape) and all(a is b for a, b in zip(ms, want_shape)), "shape of the file")
    return run


CONTRACTS = [Contract("blocks tile the axis", lemma_tiling, [D + ":get_chunk_slice"])]
for _n in (1, 2, 3, 4, 5):
    CONTRACTS.append(Contract("block bounds, rank %d" % _n, chunk_slices(_n), [D + ":get_chunk_slice"]))
    for _k in (None, "data"):
        CONTRACTS.append(Contract("one block, rank %d, field %s" % (_n, _k), block(_n, _k), [D + ":slice_memmap"]))
for _n in (1, 2, 3):
    CONTRACTS.append(Contract("positions, %d navigation axes" % _n, arbitrary(_n), [D + ":get_arbitrary_chunk_slice"]))
    for _k in (None, "data"):
        CONTRACTS.append(Contract("one block of positions, %d axes, field %s" % (_n, _k), pos_block(_n, _k), [D + ":slice_memmap"]))
for _d, _k in (("plain", None), ("sub", None), ("struct", "data")):
    for _h in ("tuple", "int", "none"):
        CONTRACTS.append(Contract("task graph, %s dtype, shape %s" % (_d, _h), driver(_d, _k, _h, False), [D + ":memmap_distributed"]))
    CONTRACTS.append(Contract("task graph, %s dtype, positions" % _d, driver(_d, _k, "tuple", True), [D + ":memmap_distributed"]))

ASSUMPTIONS = [
    "dask: normalize_chunks returns positive block sizes that add up to each dimension; map_blocks calls the "
    "function once per block and puts its result at that block's place",
    "numpy: memmap maps the file as its documentation says; ndindex enumerates every index once",
    "the number of dimensions is enumerated (1 to 5; sizes, block counts and block sizes are unbounded)",
    "positions are non-negative and inside the navigation shape",
]


def search(s):
    import warnings
    warnings.simplefilter("ignore")
    from rsciio.utils._distributed import memmap_distributed
    from rsciio.numpy import file_reader as npy
    from rsciio.pantarhei import file_reader as prz
    from rsciio.empad import file_reader as empad
    rng = s.rng
    nr = np.random.default_rng(rng.randrange(2 ** 32))
    dts = ["<u1", "<u2", ">u2", "<i4", ">i4", "<f4", ">f8", "<i8"]

    def rand(shape, dt):
        dt = np.dtype(dt)
        n = int(np.prod(shape, dtype=int))
        return nr.integers(0, 256, size=n, dtype="u1").astype(dt).reshape(shape) * np.ones((), dt) \
            + nr.integers(0, 100, size=shape).astype(dt)

    def chunks_for(shape):
        r = rng.random()
        if r < 0.3:
            return "auto"
        out = []
        for n in shape:
            r = rng.random()
            if r < 0.6 and n:
                out.append(rng.randint(1, n))
            elif r < 0.8:
                out.append(-1)
            else:
                parts, left = [], n
                while left:
                    p = rng.randint(1, left)
                    parts.append(p)
                    left -= p
                out.append(tuple(parts) or (0,))
        return tuple(out)

    def same(got, want, what, case):
        s.check(got.shape == want.shape and got.dtype == want.dtype, what + ": shape and dtype",
                dict(case, got=[got.shape, str(got.dtype)], want=[want.shape, str(want.dtype)]))
        v = got.compute(scheduler="single-threaded")
        s.check(v.shape == want.shape and np.array_equal(v, want), what + ": content",
                dict(case, got=v.tolist(), want=want.tolist()))
    for it in range(s.n(250, 4000)):
        if not s.left():
            break
        # contiguous data at an offset
        nd = rng.randint(1, 5)
        shape = tuple(rng.randint(1, 5) for _ in range(nd))
        dt = rng.choice(dts)
        order = rng.choice("CF")
        a = rand(shape, dt).astype(dt)
        off = rng.choice([0, 1, 7, 64])
        with open("a.bin", "wb") as f:
            f.write(b"\x55" * off + a.tobytes(order=order) + b"\x66" * rng.randint(0, 9))
        ch = chunks_for(shape)
        lim = rng.choice([None, None, 40, 200]) if ch == "auto" else None
        case = dict(shape=shape, dtype=dt, order=order, offset=off, chunks=ch, block_size_limit=lim)
        s.note(case)
        r = memmap_distributed("a.bin", np.dtype(dt), offset=off, shape=shape, order=order, chunks=ch, block_size_limit=lim)
        same(r, a, "contiguous data", case)
        # no shape: every whole item of the file
        a1 = a.ravel()
        a1.tofile("b.bin")
        r = memmap_distributed("b.bin", np.dtype(dt), chunks=rng.choice(["auto", (rng.randint(1, a1.size),)]))
        same(r, a1, "shape taken from the file size", case)
        # records
        sig = (rng.randint(1, 4), rng.randint(1, 4))
        nav = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 3)))
        rec = np.dtype([("h", "u1", (rng.randint(0, 5),)), ("data", dt, sig), ("t", "<u4", (rng.randint(0, 2),))])
        x = np.zeros(nav, rec)
        x["data"] = rand(nav + sig, dt)
        x.tofile("c.bin")
        ch = chunks_for(nav + sig)
        case = dict(record=str(rec), navigation=nav, chunks=ch)
        s.note(case)
        same(memmap_distributed("c.bin", rec, shape=nav, chunks=ch, key="data"), x["data"], "records", case)
        # frames at given positions
        allpos = list(np.ndindex(nav))
        rng.shuffle(allpos)
        k = rng.randint(1, len(allpos))
        pos = np.array(allpos[:k])
        ch = "auto" if rng.random() < 0.2 else tuple(rng.randint(1, n) for n in nav) + (-1, -1)
        mode = rng.choice(["plain", "record"])
        want = np.zeros(nav + sig, dt)
        fr = rand((k,) + sig, dt).astype(dt)
        for p, d in zip(pos, fr):
            want[tuple(p)] = d
        case = dict(positions=pos.tolist(), navigation=nav, signal=sig, chunks=ch, mode=mode)
        s.note(case)
        if mode == "plain":
            fr.tofile("d.bin")
            r = memmap_distributed("d.bin", np.dtype(dt), positions=pos if rng.random() < 0.5 else pos.tolist(),
                                   shape=nav + sig, chunks=ch)
        else:
            y = np.zeros(k, rec)
            y["data"] = fr
            y.tofile("d.bin")
            r = memmap_distributed("d.bin", rec, positions=pos, shape=nav, chunks=ch, key="data")
        same(r, want, "frames at positions", case)
        # formats
        b = rand(shape, dt).astype(dt)
        if rng.random() < 0.5:
            b = np.asfortranarray(b)
        ver = rng.choice([(1, 0), (2, 0), (3, 0)])
        with open("a.npy", "wb") as f:
            np.lib.format.write_array(f, b, version=ver)
        case = dict(shape=shape, dtype=dt, fortran=bool(b.flags.f_contiguous and not b.flags.c_contiguous), version=ver)
        s.note(case)
        e, l = npy("a.npy")[0], npy("a.npy", lazy=True, chunks=chunks_for(shape))[0]
        same(l["data"], e["data"], "npy file lazily and at once", case)
        s.check(l["axes"] == e["axes"], "npy axes lazily and at once", dict(case, lazy=l["axes"], eager=e["axes"]))
        s.check(np.array_equal(e["data"], b.squeeze()), "npy file", case)
        if rng.random() < 0.4 and b.ndim <= 4:
            import json as _json
            meta = _json.dumps([{"type": "2D"}])
            save = np.savez_compressed if rng.random() < 0.5 else np.savez
            with open("a.prz", "wb") as f:
                save(f, data=b, meta_data_json=np.array(meta))
            case = dict(case, compressed=save is np.savez_compressed)
            s.note(case)
            e, l = prz("a.prz")[0], prz("a.prz", lazy=True, chunks=rng.choice(["auto", chunks_for(shape)]))[0]
            same(l["data"], e["data"], "prz file lazily and at once", case)
        if it % 25 == 0:
            nav2 = (rng.randint(1, 3), rng.randint(1, 3))
            raw = nr.random(nav2 + (130, 128)).astype("<f4")
            raw.tofile("scan_x%d_y%d.raw" % (nav2[1], nav2[0]))
            with open("e.xml", "w") as f:
                f.write("<root><timestamp isoformat='2020-01-01T00:00:00+00:00'/><pix_x>%d</pix_x><pix_y>%d</pix_y>"
                        "<raw_file filename='scan_x%d_y%d.raw'/></root>" % (nav2[1], nav2[0], nav2[1], nav2[0]))
            case = dict(empad=nav2)
            s.note(case)
            e, l = empad("e.xml")[0], empad("e.xml", lazy=True)[0]
            s.check(np.array_equal(e["data"], raw[:, :, :128].squeeze()), "EMPAD frames without their footer", case)
            same(l["data"], e["data"], "EMPAD file lazily and at once", case)
