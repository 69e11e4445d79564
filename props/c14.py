"""C14: MIB files (Quantum Detectors) have the frames and the scan the file and its header describe."""
import datetime
import os
import shutil
import types

from pyvc.text import TextFile, mk, number, unknown

from .common import *

ID = "C14"
U = "rsciio/quantumdetector/_api.py"
DT = {"U08": ("u1", "1 or 6-bit"), "U16": ("u2", "12-bit"), "U32": ("u4", "24-bit")}
STAMP = "2024-01-02T03:04:05.000000006Z"


def near(a, b):
    """but for rounding"""
    eps = z3.RealVal("1/1000000000")
    return z3.And(a - b <= eps * z3.If(b < 0, -b, b), b - a <= eps * z3.If(b < 0, -b, b))


class FrameType:
    """record of one frame"""

    def __init__(self, fields):
        (n0, t0, self.head), (n1, self.data, self.size) = fields
        expect(n0 == "header" and t0 is np.bytes_ and n1 == "data", "a frame is its header followed by its data")
        self.itemsize = self.head + self.data.itemsize * self.size[0] * self.size[1]


def dtype(x):
    return FrameType(x) if isinstance(x, list) else np.dtype(x)


class Slice:
    """slice(a, b).indices(n) of Python"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def indices(self, n):
        def one(x, default):
            if x is None:
                return default
            x = ie(x)
            return mk_int(z3.If(x < 0, z3.If(x + ie(n) < 0, 0, x + ie(n)), z3.If(x > ie(n), ie(n), x)))
        return one(self.a, 0), one(self.b, n), 1


class Part:
    """the first bytes of a file or buffer"""

    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text


class HeadFile:
    def __init__(self, text, size):
        self.text, self.size, self.pos = text, size, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, n):
        expect(self.pos == 0 and n in self.text, "the header is read from the beginning of the file")
        return Part(self.text[n])

    def seek(self, n, whence=0):
        expect((n, whence) == (0, os.SEEK_END), "seek to the end")
        self.pos = self.size

    def tell(self):
        return self.pos


class Buffer(bytes):
    text = size = None

    def __getitem__(self, k):
        expect(k.start is None and k.step is None and k.stop in self.text, "the header is read from the beginning of the buffer")
        return Part(self.text[k.stop])

    def vc_len(self):
        return self.size


def header(head, nx, ny, kind, layout, exposure):
    """text of the first 384 and 768 bytes; of a quad header only the longer one is complete"""
    front = ["MQ1,000001,%05d,01," % head, number(nx), ",", number(ny), ",", kind, ",", layout, ",01,"]
    whole = mk(front + ["2024-01-02 03:04:05.1,0.0005,0,", STAMP, ",", number(exposure), "ns,12,", "\0" * 5])
    return {384: whole} if head == 384 else {384: mk(front + ["2024-01-02 03:04:05.1,0.0005,0"]), 768: whole}


def parsed(head, kind, layout, how):
    def run():
        nx, ny, size = fresh_int("nx", 1, inp=True), fresh_int("ny", 1, inp=True), fresh_int("size", 0, inp=True)
        exposure = fresh_real("exposure", inp=True)
        text = header(head, nx, ny, kind, layout, exposure)

        def open_(name, mode="r", *a, **k):
            expect(name == "d/f.mib" and mode == "rb", "the file is opened")
            return HeadFile(text, size)
        m = load_module(U, builtin_over={"open": open_})
        p = m.MIBProperties()
        if how == "buffer":
            path = Buffer(b"x")
            path.text, path.size = text, size
        elif how == "path":
            import pathlib
            path = pathlib.PurePosixPath("d/f.mib")
        else:
            path = "d/f.mib"
        p.parse_file(path)
        prove(eqi(p.merlin_size[0], ny), "rows of a frame")
        prove(eqi(p.merlin_size[1], nx), "columns of a frame")
        prove(eqi(p.file_size, size), "size of the file")
        expect(p.head_size == head and p.assembly_size == ("single" if head == 384 else "quad"), "size of the header")
        expect((np.dtype(p.dtype), p.dynamic_range) == (np.dtype(DT[kind][0]), DT[kind][1]), "element type")
        expect(p.detector_geometry == (layout.strip() if layout.strip() != "1x1" else ""), "geometry of the detector")
        prove(near(re_(p.exposure) * 10 ** 6, re_(exposure)), "exposure in ms")
        expect(p.timestamp == STAMP and p.offset == 0 and not p.raw, "timestamp")
        expect((p.path, p.buffer) == ((None, True) if how == "buffer" else ("d/f.mib", False)), "where the data come from")
    return run


class Opened:
    """what the models of memmap_distributed, numpy.memmap and numpy.frombuffer return"""

    def __init__(self, log, shape=None):
        self.log, self.shape = log, shape

    def reshape(self, shape):
        self.shape = tuple(shape)
        self.log.append(("shape", self.shape))
        return self

    def compute(self):
        self.log.append(("computed",))
        return self

    def squeeze(self):
        self.log.append(("squeezed",))
        return self

    def __getitem__(self, key):
        return (key, self)


def frames(nav, first, last, how, kind, head, lazy, offset=0):
    """nav: number of navigation dimensions or None; first, last: None or symbolic; how: file, mmap, headers, buffer"""
    def run():
        nx, ny, size = fresh_int("nx", 1, inp=True), fresh_int("ny", 1, inp=True), fresh_int("size", 0, inp=True)
        log = []
        k = np.dtype(DT[kind][0]).itemsize
        item = head + k * nx.e * ny.e
        # the file holds that many frames and less than one more
        n_file = size // (head + k * ny * nx)

        def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", key=None, **rest):
            log.append(("map", filename, dtype, tuple(shape), offset, chunks, key, order, rest))
            return Opened(log)

        def memmap(filename, dtype=None, mode=None, offset=0, shape=None, **rest):
            log.append(("map", filename, dtype, tuple(shape), offset, mode, None, "C", rest))
            return Opened(log)

        def frombuffer(buf, dtype=None, count=-1, offset=0):
            log.append(("buffer", buf, dtype, count, offset))
            return Opened(log)
        m = load_module(U, {"file": types.SimpleNamespace(memmap_distributed=distributed)},
                        np_over={"dtype": dtype, "memmap": memmap, "frombuffer": frombuffer}, builtin_over={"slice": Slice})
        p = m.MIBProperties()
        p.merlin_size, p.dtype, p.head_size, p.file_size = (ny, nx), DT[kind][0], head, size
        p.path = None if how == "buffer" else "d/f.mib"
        f = fresh_int("first", inp=True) if first else None
        l = fresh_int("last", inp=True) if last else None
        S = None if nav is None else tuple(fresh_int("nav%d" % i, 1, inp=True) for i in range(nav))
        a, b = (x.e if is_sym(x) else ie(x) for x in Slice(f, l).indices(n_file)[:2])
        n = b - a
        assume(mk_bool(n > 0))
        path = Buffer(b"x") if how == "buffer" else "d/f.mib"
        kw = {"mmap": dict(return_mmap=True), "headers": dict(return_headers=True), "file": dict(return_mmap=False), "buffer": dict(return_headers=True)}[how]
        mode = "these"
        out = m.load_mib_data(path, lazy=lazy, chunks="ch", mmap_mode=None if how == "mmap" else mode, navigation_shape=S, first_frame=f,
                              last_frame=l, mib_prop=p, **kw)
        if how == "buffer":
            _, buf, t, count, off = log[0]
            expect(buf is path and log[1][0] == "shape", "the buffer is looked at")
            shape = log[1][1]
        else:
            _, name, t, shape, off, c, key, order, rest = log[0]
            expect(name == "d/f.mib" and order == "C" and not rest, "the file is opened")
            expect(c == ("ch" if how == "file" else mode if how == "headers" else "r" if lazy else "c"), "chunks or mode are passed on")
        expect(t.data == np.dtype(DT[kind][0]).newbyteorder(">") and t.head == head, "frames are headers followed by big-endian data")
        prove(z3.And(ie(t.size[0]) == ny.e, ie(t.size[1]) == nx.e), "rows and columns of a frame")
        prove(ie(off) == a * item, "the first frame is the one asked for")
        total = z3.IntVal(1)
        for x in shape:
            prove(ie(x) >= 1, "no dimension is empty")
            total = total * ie(x)
        if how == "buffer":
            prove(ie(count) == total, "as many frames as the shape holds")
        if nav is None:
            expect(len(shape) == 1, "a stack of frames")
            prove(ie(shape[0]) == n, "all the frames asked for")
        else:
            P = z3.IntVal(1)
            for x in S:
                P = P * x.e
            # a whole scan: its dimensions, slowest first
            prove(z3.Implies(P <= n, z3.And([z3.BoolVal(len(shape) == nav)] + [ie(x) == y.e for x, y in zip(shape, S[::-1])])),
                  "a scan has the dimensions given, slowest first")
            stack = z3.And(z3.BoolVal(len(shape) == 1), ie(shape[0]) == n)
            cut = z3.And(P > ie(n_file), a == 0) if nav > 1 else z3.BoolVal(False)
            lines = z3.And(z3.BoolVal(len(shape) == 2), ie(shape[0]) * S[0].e <= n, n < (ie(shape[0]) + 1) * S[0].e,
                           ie(shape[-1]) == S[0].e)
            prove(z3.Implies(z3.And(P > n, z3.Not(cut)), stack), "frames that are not the whole scan are a stack")
            if nav > 1:
                prove(z3.Implies(z3.And(cut, n >= S[0].e), lines), "an interrupted scan has its complete lines")
                prove(z3.Implies(z3.And(P > n, cut, n < S[0].e), stack), "without a complete line the frames are a stack")
        prove(total <= n, "no frame behind the last one asked for")
        if how == "file":
            expect(key == "data" and log[1:] == ([] if lazy else [("computed",)]) + [("squeezed",)], "the data of the frames, lazy or not")
        elif how == "mmap":
            expect(out[0] == "data", "the data of the frames")
        else:
            expect(out[0][0] == "data" and out[1][0] == "header", "the data and the headers of the frames")
    return run


def per_frame(which, most, one):
    """exposures and timestamps of the frames"""
    def run():
        n = fresh_int("frames", 0, inp=True)
        exposure = fresh_fn("exposure", I, R)
        stamp = fresh_fn("stamp", I, R)

        def item(i):
            return Part(mk(["MQ1,000001,00384,01,", number(mk_real(stamp(ie(i)))), ",", number(mk_real(exposure(ie(i)))), "ns,12,", "\0\0"]))
        m = load_module(U)
        cap = {"default": None, "all": -1}.get(most) if most != "some" else 2 if one else fresh_int("max_index", 0, inp=True)
        if one:
            headers, n = Buffer(b"x"), mk_int(z3.IntVal(1))
            headers.decode = lambda: item(0).decode()
        else:
            headers = SymSeq(n, item)
        fn = getattr(m, which)
        got = fn(headers) if cap is None else fn(headers, max_index=cap)
        want = n if most == "all" else mk_int(z3.If(ie(n) < (10000 if cap is None else ie(cap)), ie(n), z3.IntVal(10000) if cap is None else ie(cap)))
        prove(eqi(vlen_(got), want), "one value for each frame considered")
        i = fresh_int("i", 0)
        assume(mk_bool(z3.And(i.e < ie(want))))
        x = got[i] if is_sym(vlen_(got)) else got[0]
        if not is_sym(vlen_(got)):
            i = 0
        if which == "parse_exposures":
            prove(near(re_(x) * 10 ** 6, exposure(ie(i))), "exposure of that frame, in ms")
        else:
            prove(re_(float_(x)) == stamp(ie(i)), "timestamp of that frame")
    return run


def vlen_(x):
    from pyvc.sym import vlen
    return vlen(x)


def float_(x):
    return x.__vc_float__()


# ---------------------------------------------------------------- hdr file and signal

class Times:
    def __init__(self, n, gap):
        self.n, self.gap = n, gap

    def astype(self, dtype=None):
        expect(np.dtype(dtype).kind == "M", "timestamps are dates")
        return self


class Gaps:
    def __init__(self, t):
        self.t = t

    def astype(self, dtype):
        expect(np.dtype(dtype) == np.dtype(float), "differences as numbers")
        n = ie(self.t.n)
        gap = self.t.gap
        return SymArr.func(lambda idx: gap(ie(idx[0])), (mk_int(z3.If(n > 1, n - 1, z3.IntVal(0))),), np.dtype("f8"), "gaps")


class Found(Sym):
    """numpy.argwhere of a one-dimensional array: the first place, if there is one"""

    def __init__(self, k):
        self.k = k

    def vc_len(self):
        return 0 if self.k is None else 1

    def __getitem__(self, i):
        expect(i == 0 and self.k is not None, "the first place")
        return [self.k]


def environment(files, log, n, gap, line, mean, data):
    def load(filename, lazy=False, chunks="auto", mmap_mode=None, navigation_shape=None, first_frame=None, last_frame=None, mib_prop=None,
             return_headers=False, print_info=False, return_mmap=True):
        if return_headers:
            expect((filename, lazy, navigation_shape, first_frame, last_frame, return_mmap) == ("d/f.mib", False, None, None, None, True),
                   "the headers of all frames")
            return None, SymSeq(n, lambda i: ("header", i))
        log.append((filename, lazy, chunks, mmap_mode, navigation_shape, first_frame, last_frame, mib_prop, return_mmap))
        return data

    def stamps(headers, max_index=10000):
        h = headers[7 * 0]
        expect(isinstance(h, tuple) and h[0] == "header", "timestamps of the headers")
        return ("stamps", vlen_(headers))

    def array(x, *a, **k):
        return Times(x[1], gap) if isinstance(x, tuple) and x and x[0] == "stamps" else np.array(x, *a, **k)

    def argwhere(x):
        """contract of numpy.argwhere: the first place that holds, and no place before it, at the place looked at"""
        n_ = ie(x.shape[0])

        def false_at(i, before):
            if C().fork(z3.And(i >= 0, i < before)):
                assume(mk_bool(z3.Not(x[mk_int(i)].e)))
        if C().fork(fresh_bool("any").e):
            there = fresh_int("first_place", 0)
            assume(mk_bool(there.e < n_))
            assume(x[there])
            false_at(ie(line) - 1, there.e)
            return Found(there)
        false_at(ie(line) - 1, n_)
        false_at(z3.IntVal(0), n_)
        return Found(None)

    class Path:
        def __init__(self, name):
            self.name = name

        def exists(self):
            return self.name in files

    def parse(self, path):
        expect(path == "d/f.mib", "the headers are parsed")
        self.exposure, self.timestamp = log[0]
    m = load_module(U, {"load_mib_data": load, "parse_timestamps": stamps, "Path": Path},
                    np_over={"array": array, "diff": Gaps, "mean": lambda x: mean, "argwhere": argwhere},
                    builtin_over={"open": lambda name, mode="r", *a, **k: TextFile(files, name, mode)})
    m.MIBProperties.parse_file = parse
    return m


def signal(given, hdr, per, ndim, zone, lazy):
    """given: navigation shape of the user; hdr: with hdr file; per: frames per trigger of the hdr file"""
    def run():
        n = fresh_int("frames", 1, inp=True)
        line = fresh_int("line", 2, inp=True)
        a, b, mean = fresh_real("gap", inp=True), fresh_real("flyback", inp=True), fresh_real("mean")
        other = fresh_fn("other_gap", I, B)
        assume(a > 0)
        assume(a < b)
        # the mean of gaps that are all alike is that gap, of others it lies between
        alike = mk_bool(n.e <= line.e)
        assume(mk_bool(z3.If(alike.e, re_(mean) == re_(a), z3.And(re_(a) < re_(mean), re_(mean) < re_(b)))))

        def gap(i):
            return z3.If(i < line.e - 1, re_(a), z3.If(z3.Or(i == line.e - 1, other(i)), re_(b), re_(a)))
        files, exposure = {}, fresh_real("exposure", inp=True)
        log = [(exposure, "2024-01-02T03:04:05.000000006" + ("Z" if zone else ""))]
        count = fresh_int("in_acquisition", 0, inp=True)
        trigger = fresh_int("per_trigger", 2, inp=True) if per is None else per
        if hdr:
            with TextFile(files, "d/f.hdr", "w") as f:
                for p in ("HDR,\t\n", "Frames in Acquisition (Number):\t", number(count), "\n", "Frames per Trigger (Number):\t",
                          number(trigger) if is_sym(trigger) else str(trigger), "\nSome text:\t", unknown("text"), "\tand more\nEnd\t"):
                    f.write(p)
        dims = tuple(fresh_int("dim%d" % i, 1, inp=True) for i in range(ndim))
        data = SymArr.fresh("data", dims, np.dtype(">u2"))
        m = environment(files, log, n, gap, line, mean, data)
        shape = (3, 4) if given else None
        ch, mode, f, l = object(), object(), object(), object()
        r, = m.file_reader("d/f.mib", lazy=lazy, chunks=ch, mmap_mode=mode, navigation_shape=shape, first_frame=f, last_frame=l)
        expect(len(log) == 2, "the data are loaded")
        fn, lz, c, mm, nav, ff, ll, prop_, mmap = log[1]
        expect((fn, lz, mmap) == ("d/f.mib", lazy, False) and c is ch and mm is mode and ff is f and ll is l, "arguments are passed on")
        total = count.e if hdr else n.e
        if given:
            expect(nav is shape, "the navigation shape given")
        else:
            used = trigger.e if is_sym(trigger) else z3.IntVal(0) if per == 0 and hdr else z3.If(n.e > line.e, line.e, z3.IntVal(1))
            if not hdr:
                used = z3.If(n.e > line.e, line.e, z3.IntVal(1))
            if nav is None:
                prove(z3.Or(total == 0, used == 0), "frames are left as they are where the number of frames is not known")
            else:
                prove(z3.And(total > 0, ie(nav[0]) == used), "frames of a line, from the hdr file or from the timestamps")
                prove(z3.And(ie(nav[1]) * used <= total, total < (ie(nav[1]) + 1) * used), "lines of a scan")
                expect(len(nav) == 2, "frames of a line and lines")
        d = r["data"]
        x = [fresh_int("x%d" % i, 0) for i in range(ndim)]
        for i, k in zip(x, dims):
            assume(mk_bool(i.e < k.e))
        expect(d.shape == dims and d.dtype == np.dtype(">u2"), "shape and type of the data")
        y = list(x)
        y[-2] = dims[-2] - 1 - x[-2]
        prove(ie(d[tuple(x)]) == ie(data[tuple(y)]), "the rows of each frame are flipped")
        for i, ax in enumerate(r["axes"]):
            prove(eqi(ax["size"], dims[i]), "size of the axis")
            expect((ax["index_in_array"], ax["navigate"], ax["scale"], ax["offset"]) == (i, i < ndim - 2, 1, 0), "kind and place of the axis")
        expect(len(r["axes"]) == ndim, "an axis for each dimension")
        g = r["metadata"]["General"]
        expect((g["original_filename"], g["date"], g["time"], g.get("time_zone")) ==
               ("f.mib", "2024-01-02", "03:04:05.000000006", "UTC" if zone else None), "file, date and time")
        prove(near(re_(r["metadata"]["Acquisition_instrument"]["dwell_time"]) * 1000, re_(exposure)), "dwell time in seconds")
        om = r["original_metadata"]
        expect(("hdr_file" in om) == hdr, "the hdr file is kept")
        if hdr:
            expect(sorted(om["hdr_file"]) == ["Frames in Acquisition (Number)", "Frames per Trigger (Number)", "Some text"], "entries of the hdr file")
            expect(om["hdr_file"]["Some text"] == unknown("text") + "\tand more", "values of the hdr file")
    return run


FN = [U + ":load_mib_data"]
CONTRACTS = []
for _h, _l in ((384, "   1x1"), (768, "   2x2"), (768, "  Nx1"), (384, "  2x2")):
    for _k in DT:
        for _w in ("file", "path", "buffer"):
            CONTRACTS.append(Contract("header of %d bytes, %s, %s, %s" % (_h, _l.strip(), _k, _w), parsed(_h, _k, _l, _w),
                                      [U + ":MIBProperties.parse_file", U + ":_parse_exposure_to_ms"]))
for _n in (None, 1, 2, 3):
    for _f in (False, True):
        for _b in (False, True):
            for _i, _w in enumerate(("file", "mmap", "headers", "buffer")):
                for _k in (DT if _n == 2 else ["U16"]):
                    _hd = 768 if (_i + len(_k) + _f) % 2 else 384
                    for _z in ((False, True) if _w in ("file", "mmap") else (False,)):
                        CONTRACTS.append(Contract("frames: %s, %s%s%s%s%s" % (
                            "no shape" if _n is None else "shape of %d" % _n, _w, ", first" if _f else "", ", last" if _b else "", ", " + _k,
                            ", lazy" if _z else ""), frames(_n, _f, _b, _w, _k, _hd, _z), FN))
for _w in ("parse_exposures", "parse_timestamps"):
    for _m in ("default", "all", "some"):
        for _o in (False, True):
            CONTRACTS.append(Contract("%s: %s%s" % (_w, _m, ", one header" if _o else ""), per_frame(_w, _m, _o), [U + ":" + _w]))

for _g in (False, True):
    for _h, _p in ((False, 1), (True, 1), (True, None), (True, 0)):
        for _n in (2, 3, 4):
            for _z in (False, True):
                CONTRACTS.append(Contract("signal: %s%s%s%s" % ("shape given" if _g else "no shape",
                                 ", hdr file with %s frames per trigger" % ("many" if _p is None else _p) if _h else "", ", %d dimensions" % _n,
                                 ", UTC" if _z else ""), signal(_g, _h, _p, _n, _z, _n == 3), [U + ":file_reader", U + ":parse_hdr_file"]))

ASSUMPTIONS = [
    "memmap_distributed by its contract (C01); numpy.memmap and numpy.frombuffer map the records that lie behind the offset; slice.indices, "
    "numpy.mean (between the smallest and the largest value, equal to them when they are alike) and numpy.argwhere (places that hold, in order)",
    "frames are asked for in a range that holds at least one; raw data (R64) is refused by the reader and outside the guarantee",
    "the scan is guessed from gaps of one length within a line and longer ones between lines",
]


def stamp_of(ns):
    t = datetime.datetime(2024, 1, 2, 3, 4, 5) + datetime.timedelta(seconds=ns // 10 ** 9)
    return t.strftime("%Y-%m-%dT%H:%M:%S") + ".%09dZ" % (ns % 10 ** 9)


def write(data, kind, head, stamps, exposures, cut=0):
    """data: (frames, rows, columns)"""
    out = b""
    for k, (frame, t, e) in enumerate(zip(data, stamps, exposures)):
        text = "MQ1,%06d,%05d,%02d,%04d,%04d,%s,%s,%s,2024-01-02 03:04:05.000000,0.000500,0,0,0,1.200000E+2,5.110000E+2" % (
            k + 1, head, 1 if head == 384 else 4, frame.shape[1], frame.shape[0], kind, "   1x1" if head == 384 else "   2x2", "01" if head == 384 else "0F")
        if head == 768:
            text += ",3RX," + ",".join(str(i % 7) for i in range(140))
        text += ",MQ1A,%s,%dns,12," % (stamp_of(t), e)
        assert len(text) <= head, len(text)
        out += text.encode().ljust(head, b"\0") + frame.astype(">" + DT[kind][0]).tobytes()
    return out[:len(out) - cut] if cut else out


def search(s):
    import tempfile
    from rsciio.quantumdetector import file_reader, load_mib_data, parse_exposures, parse_timestamps
    tmp = tempfile.mkdtemp(prefix="c14-")
    try:
        for it in range(s.n(400, 8000)):
            if not s.left():
                break
            d = os.path.join(tmp, "d%d" % it + s.rng.choice(["", ".mib"]))
            os.mkdir(d)
            case(s, d, file_reader, load_mib_data, parse_exposures, parse_timestamps)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case(s, d, file_reader, load_mib_data, parse_exposures, parse_timestamps):
    rng = s.rng
    kind, head = rng.choice(list(DT)), rng.choice([384, 768])
    ny, nx = rng.randint(2, 4), rng.randint(2, 4)
    line, lines = rng.randint(1, 5), rng.randint(1, 4)
    planned = line * lines
    n = planned if rng.random() < 0.6 else rng.randint(1, planned)
    data = np.array([rng.randrange(256) for _ in range(n * ny * nx)]).astype(DT[kind][0]).reshape(n, ny, nx)
    if kind != "U08":
        data = data * np.array(251, data.dtype)
    t0, gap, fly = rng.randrange(10 ** 9), rng.choice([1000, 10 ** 6, 999999999]), rng.choice([1, 500, 10 ** 8])
    stamps = [t0 + k * gap + (k // line) * fly for k in range(n)]
    exposures = [rng.randrange(1, 10 ** 7) for _ in range(n)]
    cut = rng.randrange(1, ny * nx) if n > 1 and rng.random() < 0.2 else 0
    raw = write(data, kind, head, stamps, exposures, cut)
    if cut:
        n -= 1
        data = data[:n]
    fn = os.path.join(d, "f.mib")
    with open(fn, "wb") as f:
        f.write(raw)
    hdr = rng.choice([None, None, (1, planned), (line, planned), (0, 0), (0, planned), (1, 0)])
    if hdr is not None:
        rows = ["Frames in Acquisition (Number):\t%d" % hdr[1], "Frames per Trigger (Number):\t%d" % hdr[0], "Time and Date Stamp (day, mnth, yr, hr, min, s):\ta\tb"]
        rng.shuffle(rows)
        with open(fn[:-4] + ".hdr", "w") as f:
            f.write("HDR,\t\n" + "\n".join(rows) + "\nEnd\t")
    first = rng.choice([None, None, 0, rng.randint(-n, n - 1), rng.randint(0, n)])
    last = rng.choice([None, None, n, -1, rng.randint(-n, n), n + 3])
    a, b, _ = slice(first, last).indices(n)
    if a >= b:
        first = last = None
        a, b = 0, n
    m = b - a
    x = rng.randint(1, m)
    nav = rng.choice([None, None, (line, lines), (line, lines), (n,), (planned + 1,), (max(1, n - 1),), (line, 1, lines), (lines + 1, line), (x, m // x)])
    lazy = rng.random() < 0.4
    info = dict(frame=(ny, nx), kind=kind, header=head, line=line, lines=lines, frames=n, incomplete_bytes=cut, hdr=hdr, navigation_shape=nav,
                first_frame=first, last_frame=last, lazy=lazy, gap=gap, flyback=fly, directory=os.path.basename(d))
    s.note(info)

    def shaped(nav):
        if nav is None:
            return (m,)
        P = int(np.prod(nav))
        if P <= m:
            return nav[::-1]
        if P > n and a == 0 and len(nav) > 1 and m >= nav[0]:
            return m // nav[0], nav[0]
        return (m,)
    # the whole, by load_mib_data
    how = rng.choice(["file", "mmap", "headers", "buffer"])
    kw = dict(navigation_shape=nav, first_frame=first, last_frame=last)
    try:
        if how == "buffer":
            got, headers = load_mib_data(raw, return_headers=True, **kw)
        elif how == "headers":
            got, headers = load_mib_data(fn, return_headers=True, **kw)
        else:
            got, headers = load_mib_data(fn, lazy=lazy, return_mmap=how == "mmap", **kw), None
    except Exception as exc:  # noqa: BLE001
        s.fail("the frames are loaded", dict(info, how=how, error=repr(exc)))
    shape = shaped(nav)
    want = data[a:a + int(np.prod(shape))].reshape(shape + (ny, nx))
    if how == "file":
        want = want.squeeze()
    got = np.asarray(got.compute() if hasattr(got, "compute") else got)
    s.check(got.shape == want.shape and np.array_equal(got, want), "every frame asked for, in the shape of the scan",
            dict(info, how=how, got=repr(got)[:300], expected=repr(want)[:300]))
    if headers is not None and nav is None:
        cap = rng.choice([-1, -1, 1, 2, 10000])
        k = m if cap == -1 else min(m, cap)
        es, ts = parse_exposures(headers, max_index=cap), parse_timestamps(headers, max_index=cap)
        s.check(np.allclose(es, [e / 1e6 for e in exposures[a:a + k]], rtol=1e-12, atol=0) and len(es) == k, "the exposure of each frame, in ms",
                dict(info, max_index=cap, got=es))
        s.check(ts == [stamp_of(t) for t in stamps[a:a + k]], "the timestamp of each frame", dict(info, max_index=cap, got=ts))
    # the signal
    try:
        path = fn
        if rng.random() < 0.3:
            import pathlib
            path = pathlib.Path(fn)
        r, = file_reader(path, lazy=lazy, **kw)
    except Exception as exc:  # noqa: BLE001
        s.fail("the file is read", dict(info, error=repr(exc)))
    if nav is None:
        per, count = (1, n) if hdr is None else hdr
        if per == 1 and 1 < line < n:
            per = line
        nav = (per, count // per) if per and count else None
        if nav is not None and 0 in nav:
            return
    shape = shaped(nav)
    want = data[a:a + int(np.prod(shape))].reshape(shape + (ny, nx)).squeeze()[..., ::-1, :]
    got = r["data"]
    got = np.asarray(got.compute() if hasattr(got, "compute") else got)
    s.check(got.shape == want.shape and np.array_equal(got, want), "every frame at its place in the scan, its first row last",
            dict(info, scan=nav, got=repr(got)[:300], expected=repr(want)[:300]))
    s.check([(x["size"], x["index_in_array"], x["navigate"]) for x in r["axes"]] == [(k, i, i < want.ndim - 2) for i, k in enumerate(want.shape)],
            "an axis for each dimension", dict(info, axes=r["axes"]))
    if hdr is not None:
        s.check(r["original_metadata"]["hdr_file"] == dict(x.split(":\t", 1) for x in rows), "the entries of the hdr file", dict(info, got=r["original_metadata"]["hdr_file"]))
    g = r["metadata"]["General"]
    t = stamp_of(stamps[0])
    s.check((g["date"], g["time"], g["time_zone"], g["original_filename"]) == (t[:10], t[11:-1], "UTC", "f.mib") and
            abs(r["metadata"]["Acquisition_instrument"]["dwell_time"] * 1e9 / exposures[0] - 1) < 1e-9, "date, time and dwell time", dict(info, metadata=r["metadata"]))
