"""C16: diffraction patterns saved to blockfiles are read back unchanged."""
import itertools
import os
import shutil
import types

from pyvc.arr import wrap
from pyvc.binfile import Cell, Disk, Frames, Record, entails

from .common import *

ID = "C16"
U = "rsciio/blockfile/_api.py"
A = "rsciio/utils/_array.py"
F_ = [U + ":" + f for f in ("file_writer", "get_header_from_signal", "get_default_header", "get_header_dtype_list",
                            "file_reader")] + [A + ":" + f for f in ("dict2sarray", "sarray2dict")]
K = {}


class Lazy:
    """a dask array: its elements are those of an array"""

    def __init__(self, arr):
        self.arr = arr

    shape = property(lambda self: self.arr.shape)
    ndim = property(lambda self: self.arr.ndim)
    dtype = property(lambda self: self.arr.dtype)

    def squeeze(self, axis=None):
        return Lazy(self.arr.squeeze(axis))

    def astype(self, dt):
        return Lazy(self.arr.astype(dt))

    def mean(self, axis=None):
        return Lazy(self.arr.mean(axis))

    def store(self, target, **k):
        target[...] = self.arr

    def __array__(self, *a, **k):
        raise Unsupported("array of a lazy array")


def factor(u, v):
    if u == v:
        return z3.RealVal(1)
    if u not in ("nm", "um", "m", "cm"):
        raise ValueError("undefined unit")
    f = z3.Real("factor_%s_%s" % (u, v))
    assume(f > 0)
    return f


def convert_units(value, u, v):
    return mk_real(re_(value) * factor(u, v))


def environment(disk):
    m = {}

    def zeros(shape, dtype=float, **k):
        dt = np.dtype(dtype)
        if dt.names:
            expect(tuple(np.atleast_1d(shape)) == (1,), "one header")
            return Record(dt)
        return SymArr.const(0, shape if isinstance(shape, tuple) else (shape,), dt, "zeros")

    def asanyarray(a, *r, **k):
        return a.arr if isinstance(a, Lazy) else a if isinstance(a, SymArr) else from_concrete(np.asanyarray(a, *r, **k))

    def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", key=None, **k):
        """by contract (C01): the elements of the file"""
        p = disk.piece(filename, offset)
        expect(p is not None and isinstance(p[2], Frames), "the frames are read from where they were written")
        fr, dt = p[2], np.dtype(dtype)
        expect(dt.itemsize == fr.dtype.itemsize and order == "C" and len(shape) == 2, "frames are read with the size they were written in")
        t, o = dt.fields[key][:2]
        name = fr.at(o, t)
        expect(name is not None, "the field is where it was written")
        src, rec, sub = fr.fields[name], fr.shape, fr.dtype.fields[name][0].shape
        expect(t.shape == sub, "shape of a frame")
        if len(rec) == 2:
            prove(z3.And(eqi(rec[0], shape[0]), eqi(rec[1], shape[1])), "the numbers of frames are those in the header")
            return Lazy(SymArr.func(lambda idx: src.expr(*idx), tuple(shape) + sub, t.base, "frames"))
        prove(ie(shape[0]) == 1 if rec else z3.And(eqi(shape[0], 1), eqi(shape[1], 1)), "the numbers of frames are those in the header")
        if rec:
            prove(eqi(rec[0], shape[1]), "the numbers of frames are those in the header")
        return Lazy(SymArr.func(lambda idx: src.expr(*(idx[1:] if rec else idx[2:])), tuple(shape) + sub, t.base, "frames"))
    return load_module(
        U, {"file": types.SimpleNamespace(memmap_distributed=distributed)},
        np_over={"zeros": zeros, "asanyarray": asanyarray, "memmap": disk.memmap},
        instrument=("rsciio.utils._array",), builtin_over={"open": disk.open},
        patch={"rsciio.utils._units:convert_units": convert_units})


def frames(ny, nx, size):
    """the frames in the order of the file: (y * nx + x, row, column)"""
    g = z3.Function("frame", I, I, I, I)
    clamp = lambda e: z3.If(z3.And(e >= 0, e <= 255), e, 0)  # noqa: E731
    nav = [n for n in (ny, nx) if n is not None]

    def fn(idx):
        at = z3.IntVal(0) if not nav else idx[0] if len(nav) == 1 else idx[0] * ie(nx) + idx[1]
        return clamp(g(at, idx[-2], idx[-1]))
    return SymArr.func(fn, tuple(nav) + (size, size), np.dtype("u1"), "data")


def written(nav, size, order, units=("nm", "cm"), navigator="navigator", lazy=False, old=None, back=True):
    def run():
        disk = Disk()
        m = environment(disk)
        C().ghost["quotients"] = []
        dims = [fresh_int("n%s" % "yx"[2 - nav + i], 1, inp=True) for i in range(nav)]
        for d in dims:
            assume(d <= 65535)
        if nav == 2:
            assume(dims[0] * dims[1] <= 65535 * 65535)         # follows from the above: lemma "number of frames"
        data = frames(dims[0] if nav == 2 else None, dims[-1] if nav else None, size)
        axes = []
        for i in range(nav + 2):
            isnav = i < nav
            axes.append(dict(index_in_array=i, name=("y", "x")[i - nav + 2] if isnav else ("dy", "dx")[i - nav],
                             size=dims[i] if isnav else size, scale=fresh_real("scale%d" % i, inp=True), offset=0.0,
                             units=units[0 if isnav else 1], navigate=isnav))
            assume(re_(axes[-1]["scale"]) > 0)
        om = {}
        if old is not None:
            note, off1 = old
            rec = m.get_default_header(order)
            hd = {n: rec[n][0] for n in rec.dtype.names}
            for n in ("Beam_energy", "Camera_length"):
                hd[n] = fresh_int(n, 0, inp=True)
                assume(hd[n] < 2 ** 32)
            for n in ("DP_rotation", "Scan_rotation"):
                hd[n] = fresh_int(n, 0, inp=True)
                assume(hd[n] < 2 ** 16)
            for n in ["Centering_N%d" % i for i in range(8)] + ["Distortion_N%02d" % i for i in range(14)]:
                hd[n] = fresh_real(n)
            hd["Data_offset_1"] = off1
            hd["Note"] = note
            C().ghost["old"] = hd
            om = {"blockfile_header": hd}
        md = {"General": {}, "Signal": {}}
        nav_data = None
        given = navigator
        if navigator == "hyperspy":
            nav_data = SymArr.fresh("nav", tuple(dims), np.dtype("u1"))
            md["_HyperSpy"] = {"_sig_navigator": {"data": nav_data}}
            given = "navigator"
        elif navigator == "array":
            given = nav_data = SymArr.fresh("nav", tuple(dims), np.dtype("u1"))
        signal = dict(data=Lazy(data) if lazy else data, axes=[dict(a) for a in axes], metadata=md, original_metadata=om,
                      attributes={"_lazy": lazy})
        m.file_writer("f.blo", signal, navigator=given, endianness=order, show_progressbar=False)
        expect(set(disk.files) == {"f.blo"}, "one file")
        for a, b in zip(signal["axes"], axes):
            expect(set(a) == set(b) and all(a[k] is b[k] for k in b), "the axes of the signal are not changed")
        # the pieces of the file, in the order of their places
        pieces = disk.files["f.blo"]
        end = 0
        for start, n, obj in pieces:
            prove(eqi(start, end), "the pieces follow one another")
            end = start + n
        fr = pieces[-1][2]
        expect(isinstance(pieces[0][2], Record) and isinstance(fr, Frames), "a header and the frames")
        h = pieces[0][2].values
        expect(bytes(h["ID"])[:6] == b"IMGBLO" and h["MAGIC"] == 0x0102, "signature")
        expect(all(t.byteorder == ("=" if order == "<" else ">") for t in
                   (pieces[0][2].dtype.fields[n][0] for n in ("MAGIC", "Data_offset_2", "SX"))), "byte order of the header")
        # magic number and serial number of each frame
        i = [fresh_int("i%d" % k, 0) for k in range(nav)]
        for x, n in zip(i, dims):
            assume(x < n)
        lin = z3.IntVal(0) if not nav else i[0].e if nav == 1 else i[0].e * ie(dims[1]) + i[1].e
        if nav == 2:
            # two factors below 65536: lemma "serial number of a frame"
            assume(mk_bool(z3.And(lin >= 0, lin < ie(dims[0]) * ie(dims[1]))))
        e = [x.e for x in i]
        prove(fr.fields["MAGIC"].expr(*e) == 0x55AA, "magic number of the frames")
        prove(fr.fields["ID"].expr(*e) == lin, "serial number of the frames")
        expect(fr.dtype.fields["MAGIC"][1] == 0 and fr.dtype.fields["ID"][1] == 2 and fr.dtype.fields["IMG"][1] == 6 and
               fr.dtype.itemsize == 6 + size * size and all(
                   fr.dtype.fields[n][0].byteorder == ("=" if order == "<" else ">") for n in ("MAGIC", "ID")),
               "layout of the frames")
        prove(eqi(h["Data_offset_2"], pieces[-1][0]), "the header says where the frames begin")
        vbf = disk.piece("f.blo", h["Data_offset_1"])
        expect(vbf is not None and isinstance(vbf[2], SymArr) and vbf[2].dtype == np.dtype("u1"), "the navigator is where the header says")
        if vbf is not None:
            src = vbf[2]
            if nav_data is not None:
                prove(src.expr(*e) == nav_data.expr(*e), "the navigator is saved")
            elif navigator is None:
                prove(src.expr(*e) == 0, "an empty navigator is saved")
            else:
                mean, = C().ghost["means"]
                expect(mean[0] is (signal["data"].arr if lazy else data) and mean[1] == (nav, nav + 1), "mean of each frame")
                r = mean[2].expr(*e)
                prove(z3.Implies(z3.And(r >= 0, r <= 255), src.expr(*e) == z3.ToInt(r)), "the mean of each frame is saved")
        if not back:
            return
        (r,) = m.file_reader("f.blo", lazy=lazy, endianness=order)
        check(m, r, axes, dims, data, nav, size, units, old, h)
    return run


def check(m, r, axes, dims, data, nav, size, units, old, h):
    hdr = r["original_metadata"]["blockfile_header"]
    sizes = [z3.IntVal(1)] * (2 - nav) + [ie(d) for d in dims] + [z3.IntVal(size)] * 2
    keep = [k for k in range(4) if k > 1 or not entails(sizes[k] == 1)]
    got = r["axes"]
    expect(len(got) == len(keep), "an axis for each dimension with more than one frame, and two of the patterns")
    for j, (a, k) in enumerate(zip(got, keep)):
        w = axes[k - (2 - nav)]
        u = units[k > 1]
        expect(a["index_in_array"] == j and a["name"] == ("y", "x", "dy", "dx")[k], "place and name of the axis")
        expect(a["navigate"] is (k < 2) and a["units"] == ("nm" if k < 2 else "cm"), "navigation or signal axis, units")
        expect(a["offset"] == 0, "offset of the axis")
        prove(ie(a["size"]) == sizes[k], "size of the axis")
        f = re_(w["scale"]) * (factor(u, "nm" if k < 2 else "cm") if u in ("nm", "um", "m", "cm") else 1)
        if k < 2:
            prove(re_(a["scale"]) == f, "scale of the navigation axis")
        else:
            x = re_(axes[-1]["scale"]) * (factor(u, "cm") if u in ("nm", "um", "m", "cm") else 1)
            sdp = ie(h["SDP"])
            q = (100 / mk_real(x)).e
            prove(z3.Implies(z3.And(q >= 1, q <= 65535), z3.And(
                z3.ToReal(sdp) - q <= z3.RealVal("1/2"), q - z3.ToReal(sdp) <= z3.RealVal("1/2"))), "scale in the header")
            if is_sym(a["scale"]):
                prove(z3.Implies(sdp > 0, re_(a["scale"]) * z3.ToReal(sdp) == 100), "scale of the patterns")
            else:
                expect(h["SDP"] == 0 or a["scale"] == 100 / int(h["SDP"]), "scale of the patterns")
    back = r["data"].arr if isinstance(r["data"], Lazy) else r["data"]
    expect(isinstance(back, SymArr) and back.dtype == np.dtype("u1") and back.ndim == len(keep), "data type and dimensions")
    for n, k in zip(back.shape, keep):
        prove(ie(n) == sizes[k], "shape of the data")
    at = []
    for k in keep:
        x = fresh_int("p%d" % k, 0)
        C().assume(x.e < sizes[k])
        at.append(x.e)
    full = [z3.IntVal(0)] * 4
    for x, k in zip(at, keep):
        full[k] = x
    prove(back.expr(*at) == data.expr(*full[2 - nav:]), "every pixel of every frame")
    for n, v in h.items():
        if is_sym(v) or is_sym(hdr[n]):
            prove(re_(hdr[n]) == re_(v), "header: " + n)
        else:
            expect(hdr[n] == v, "header: " + n)
    if old is not None:
        want = old[0].encode("latin1", errors="replace").decode("latin1")
        room = old[1] - np.dtype(m.get_header_dtype_list("<")).itemsize
        expect(hdr["Note"] == want[:room], "the notes")
        for n, v in C().ghost["old"].items():
            if is_sym(v):
                prove(re_(hdr[n]) == re_(v), "the keyword %s is kept" % n)
            elif n not in ("Note", "NX", "NY", "SX", "SY", "DP_SZ", "SDP", "Data_offset_2"):
                expect(hdr[n] == v, "the keyword %s is kept" % n)
    expect(r["metadata"]["General"]["original_filename"] == "f.blo" and r["metadata"]["General"]["notes"] == hdr["Note"] and
           r["metadata"]["Signal"]["signal_type"] == "diffraction", "metadata")


def incomplete(size, order, magic=0x0102):
    """a file with any number of frames, fewer or more than its header says"""
    def run():
        disk = Disk()
        m = environment(disk)
        ny, nx, n = (fresh_int(k, 1 if k != "frames" else 0, inp=True) for k in ("ny", "nx", "frames"))
        assume(ny <= 65535)
        assume(nx <= 65535)
        off2 = fresh_int("offset2", 4096, inp=True)
        assume(off2 < 2 ** 32)
        f = disk.open("f.blo", "wb")
        h = Record(m.get_header_dtype_list(order))
        for k, v in (("MAGIC", magic), ("Data_offset_1", 4096), ("Data_offset_2", off2), ("NX", nx), ("NY", ny), ("DP_SZ", size)):
            h[k] = v
        h.tofile(f)
        f.write(bytes(4096 - f.tell()))
        t = np.dtype([("MAGIC", order + "u2"), ("ID", order + "u4"), ("IMG", "u1", (size, size))])
        fr = disk.memmap("f.blo", t, "r+", off2, (n,))
        g = z3.Function("frame", I, I, I, I)
        clamp = lambda e: z3.If(z3.And(e >= 0, e <= 255), e, 0)  # noqa: E731
        fr["IMG"] = SymArr.func(lambda idx: clamp(g(*idx)), (n, size, size), np.dtype("u1"), "data")
        (r,) = m.file_reader("f.blo", endianness=order)
        sizes = [ny.e, nx.e, z3.IntVal(size), z3.IntVal(size)]
        keep = [k for k in range(4) if k > 1 or not entails(sizes[k] == 1)]
        back = r["data"]
        expect(back.ndim == len(keep) == len(r["axes"]), "dimensions")
        at = []
        for k, s, a in zip(keep, back.shape, r["axes"]):
            prove(ie(s) == sizes[k], "shape")
            prove(ie(a["size"]) == sizes[k], "size of the axis")
            x = fresh_int("p%d" % k, 0)
            C().assume(x.e < sizes[k])
            at.append(x.e)
        full = [z3.IntVal(0)] * 4
        for x, k in zip(at, keep):
            full[k] = x
        lin = full[0] * nx.e + full[1]
        C().assume(z3.And(lin >= 0, lin < ny.e * nx.e))        # lemma "serial number of a frame"
        prove(back.expr(*at) == z3.If(lin < n.e, clamp(g(lin, full[2], full[3])), 0), "frames that are not in the file are zero")
    return run


def lemmas():
    y, x, ny, nx = z3.Ints("y x ny nx")
    c = C()
    c.assume(z3.And(y >= 0, y < ny, x >= 0, x < nx, ny <= 65535, nx <= 65535))
    prove((y + 1) * nx <= ny * nx, "row")
    c.assume((y + 1) * nx <= ny * nx)
    prove(z3.And(y * nx + x >= 0, y * nx + x < ny * nx), "serial number of a frame")
    prove(ny * nx <= 65535 * 65535, "number of frames")


LAYOUT = [("ID", "S6", 0), ("MAGIC", "u2", 6), ("Data_offset_1", "u4", 8), ("Data_offset_2", "u4", 12), ("UNKNOWN1", "u4", 16),
          ("DP_SZ", "u2", 20), ("DP_rotation", "u2", 22), ("NX", "u2", 24), ("NY", "u2", 26), ("Scan_rotation", "u2", 28),
          ("SX", "f8", 30), ("SY", "f8", 38), ("Beam_energy", "u4", 46), ("SDP", "u2", 50), ("Camera_length", "u4", 52),
          ("Acquisition_time", "f8", 56)] + [("Centering_N%d" % i, "f8", 64 + 8 * i) for i in range(8)] + [
              ("Distortion_N%02d" % i, "f8", 128 + 8 * i) for i in range(14)]


def layout(order):
    def run():
        m = environment(Disk())
        dt = np.dtype(m.get_header_dtype_list(order))
        expect([(n, dt.fields[n][0], dt.fields[n][1]) for n in dt.names] ==
               [(n, np.dtype(order + t if t[0] != "S" else t), o) for n, t, o in LAYOUT] and dt.itemsize == 240, "layout of the header")
        h = m.get_default_header(order).values
        expect(bytes(h["ID"]) == b"IMGBLO" and h["MAGIC"] == 0x0102 and h["Data_offset_1"] == 4096, "default header")
    return run


def scaled(kind, lazy):
    """the data and the navigator are scaled from the same range, and the scaled values are saved"""
    def run():
        disk = Disk()
        m = environment(disk)
        C().ghost["quotients"] = []
        ny, nx = fresh_int("ny", 1, inp=True), fresh_int("nx", 1, inp=True)
        assume(ny <= 65535)
        assume(nx <= 65535)
        assume(ny * nx <= 65535 * 65535)
        f = z3.Function("value", I, I, I, I, I)
        data = SymArr.func(lambda idx: f(*idx), (ny, nx, 2, 2), np.dtype("i2"), "data")
        nav = SymArr.func(lambda idx: f(*idx, z3.IntVal(7), z3.IntVal(7)), (ny, nx), np.dtype("i2"), "nav")
        lo, hi = fresh_int("lo"), fresh_int("hi")
        out = {}

        class Data(Lazy):
            def min(self):
                return lo

            def max(self):
                return hi

        def rescale(image, in_range="image", out_range="dtype"):
            a = image.arr if isinstance(image, Lazy) else image
            expect(out_range is np.uint8 or out_range == np.uint8, "scaled to the range of uint8")
            r = SymArr.fresh("scaled", a.shape, np.dtype("u1"))
            out["nav" if a.ndim == 2 else "data"] = (a, in_range, r)
            return Lazy(r) if isinstance(image, Lazy) else r
        m.rescale_intensity = rescale
        m.skimage = types.SimpleNamespace(dtype_limits=lambda a, *k: (-32768, 32767))
        import sys
        axes = [dict(index_in_array=i, name="", size=n, scale=1.0, offset=0.0, units=u, navigate=i < 2)
                for i, (n, u) in enumerate(zip((ny, nx, 2, 2), ("nm", "nm", "cm", "cm")))]
        arr = Data(data)
        data.min, data.max = arr.min, arr.max
        old = sys.modules.get("dask")
        sys.modules["dask"] = types.SimpleNamespace(compute=lambda *a: a)
        try:
            m.file_writer("f.blo", dict(data=arr if lazy else data, axes=axes, metadata={}, original_metadata={},
                                        attributes={"_lazy": lazy}),
                          navigator=nav, intensity_scaling={"tuple": (lo, hi)}.get(kind, kind), show_progressbar=False)
        finally:
            if old is None:
                del sys.modules["dask"]
            else:
                sys.modules["dask"] = old
        want = {"tuple": (lo, hi), "crop": (0, 255), "dtype": (-32768, 32767), "minmax": (lo, hi)}[kind]
        expect(set(out) == {"nav", "data"} and out["nav"][0] is nav and out["data"][0] is data, "the data and the navigator are scaled")
        for k in out.values():
            prove(z3.And(*[eqi(a, b) for a, b in zip(k[1], want)]), "range that is scaled")
        i = [fresh_int("i%d" % k, 0).e for k in range(4)]
        fr = disk.files["f.blo"][-1][2]
        prove(fr.fields["IMG"].expr(*i) == out["data"][2].expr(*i), "the scaled data is saved")
        vbf = disk.piece("f.blo", 4096)[2]
        prove(vbf.expr(*i[:2]) == out["nav"][2].expr(*i[:2]), "the scaled navigator is saved")
    return run


CONTRACTS = [Contract("lemmas", lemmas, [])]
for _o in "<>":
    CONTRACTS.append(Contract("layout of the header %s" % _o, layout(_o), F_[2:4]))
for _k in ("tuple", "crop", "dtype", "minmax"):
    for _lazy in (False, True):
        CONTRACTS.append(Contract("scaled: %s%s" % (_k, ", lazy" if _lazy else ""), scaled(_k, _lazy), F_[:1]))

for _nav in (0, 1, 2):
    for _size in (1, 2, 3, 144, 256):
        for _o in "<>":
            for _lazy in (False, True):
                CONTRACTS.append(Contract("%d navigation axes, %d pixels, %s%s" % (_nav, _size, _o, ", lazy" if _lazy else ""),
                                          written(_nav, _size, _o, lazy=_lazy), F_))
for _nav in (0, 1, 2):
    for _v in ("hyperspy", "array", None):
        for _lazy in (False, True):
            CONTRACTS.append(Contract("%d navigation axes, navigator: %s%s" % (_nav, _v or "none", ", lazy" if _lazy else ""),
                                      written(_nav, 2, "<", navigator=_v, lazy=_lazy), F_))
    for _u in (("um", "m"), ("m", "nm"), ("parsec", ""), (None, "<undefined>"), ("", None)):
        CONTRACTS.append(Contract("%d navigation axes, units: %s, %s" % (_nav, *_u), written(_nav, 3, ">", units=_u), F_))
    for _k, _old in enumerate((("", 4096), ("Sample 1: 50 \u00b5m", 4096), ("n" * 3792, 4096), ("n" * 5000, 4096), ("n" * 5000, 8192),
                               ("\u03b1", 8192), ("", 512))):
        for _o in "<>":
            CONTRACTS.append(Contract("%d navigation axes, header %d of another file, %s" % (_nav, _k, _o),
                                      written(_nav, 3, _o, old=_old), F_))
for _size in (1, 2, 144):
    for _o in "<>":
        for _m in (0x0102, 0x0203):
            CONTRACTS.append(Contract("any number of frames of %d pixels, %s, %#x" % (_size, _o, _m),
                                      incomplete(_size, _o, _m), F_[-3:]))

ASSUMPTIONS = [
    "memmap_distributed by its contract (C01); numpy.memmap, tofile and fromfile: bytes of a number are those of the same "
    "number in the same type and byte order, and pieces of a file do not overlap",
    "convert_units multiplies by a positive factor, one for the same unit (pint, third party)",
    "rescale_intensity (vendored from scikit-image) and the mean of a frame: any values",
    "pattern sizes 1, 2, 3, 144 and 256 enumerated, up to 65535 frames in a row and rows; floating point as real numbers",
]


def search(s):
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import dask.array as da
    from rsciio.blockfile import file_reader, file_writer
    rng = s.rng
    nprng = np.random.default_rng(s.seed)
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c16_%d" % os.getpid())
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, "f.blo")
    head = {o: np.dtype({"names": [n for n, t, _ in LAYOUT], "formats": [o + t if t[0] != "S" else t for n, t, _ in LAYOUT],
                         "offsets": [x for _, _, x in LAYOUT], "itemsize": 240}) for o in "<>"}
    size_of = {"nm": 1e-9, "um": 1e-6, "m": 1.0, "cm": 0.01, "\u00c5": 1e-10}
    try:
        for it in range(s.n(700, 12000)):
            if not s.left():
                break
            nav = tuple(rng.choice([1, 1, 2, 3, 7, 16, 17]) for _ in range(rng.choice([0, 1, 2, 2])))
            n = rng.choice([1, 2, 3, 4, 9])
            if it % 300 == 20:
                nav, n = (257, 256), 1
            order = rng.choice("<<>")
            data = nprng.integers(0, 256, nav + (n, n), dtype=np.uint8)
            un, us = rng.choice(["nm", "nm", "um", "m"]), rng.choice(["cm", "cm", "m", "um"])
            ppcm = rng.choice([rng.uniform(1, 65535), float(rng.randint(1, 65535)), 100.0, 1.0, 1.6, 65534.6])
            scale = {"sig": 100 / ppcm * size_of["cm"] / size_of[us]}
            axes = [dict(index_in_array=i, name=("y", "x")[i - len(nav) + 2], size=k, scale=rng.choice([1.0, rng.uniform(0.1, 99), 1e-3]),
                         offset=0.0, units=un, navigate=True) for i, k in enumerate(nav)] + [
                dict(index_in_array=len(nav) + i, name=("dy", "dx")[i], size=n, scale=scale["sig"], offset=0.0, units=us, navigate=False)
                for i in range(2)]
            om = {}
            if rng.random() < 0.5:
                om = {"blockfile_header": {"Note": rng.choice(["", "sample 1", "\u00b5\u00e9", "x" * 3856, "x" * 3855, "x" * 3857, "ab\ncd" * 900]),
                                           "Beam_energy": rng.choice([200000, 80000, 2 ** 32 - 1]), "Camera_length": rng.randint(0, 2 ** 32 - 1),
                                           "Scan_rotation": rng.randint(0, 65535), "Data_offset_1": rng.choice([4096, 4096, 8192, 512]),
                                           "Acquisition_time": rng.uniform(25570, 45000), "Distortion_N13": rng.uniform(-1, 1),
                                           "NX": 3, "NY": 9, "SDP": 7, "SX": 0.5, "DP_SZ": 144, "Data_offset_2": 5000}}
            lazy = rng.random() < 0.3
            navigator = rng.choice(["navigator", "navigator", None, "array", "signal"])
            vbf = nprng.integers(0, 256, nav, dtype=np.uint8)
            md = {"General": {"title": "t"}, "Signal": {"signal_type": "diffraction"}}
            if navigator == "signal":
                md["_HyperSpy"] = {"_sig_navigator": {"data": vbf}}
            scaling, src = rng.choice([None, None, None, "crop", "minmax", "dtype", (10, 200)]), data
            if scaling is not None:
                src = nprng.integers(-300, 600, data.shape).astype("i2")
                if scaling == "minmax" and src.min() == src.max():
                    scaling, src = None, data
            sig = dict(data=da.from_array(src, chunks=tuple(max(1, k // 2) for k in src.shape)) if lazy else src,
                       axes=[dict(a) for a in axes], metadata=md, original_metadata=om, attributes={"_lazy": lazy})
            case = dict(navigation=nav, pattern=n, order=order, axes=axes, original_metadata=om, lazy=lazy, navigator=navigator,
                        scaling=repr(scaling), seed=s.seed, case=it)
            s.note(case)
            try:
                file_writer(path, sig, intensity_scaling=scaling, endianness=order, show_progressbar=False,
                            navigator={"array": vbf, "signal": "navigator"}.get(navigator, navigator))
                got = [file_reader(path, endianness=order)[0], file_reader(path, endianness=order, lazy=True)[0]]
            except Exception as exc:
                s.fail("saving or reading fails: %r" % exc, case)
                continue
            s.check(sig["axes"] == axes, "saving leaves the axes of the signal as they were", case)
            ny, nx = ((1, 1) + nav)[-2:]
            want = data.astype(float)
            if scaling is not None:
                lo, hi = {"crop": (0, 255), "dtype": (-32768, 32767), "minmax": (src.min(), src.max())}.get(scaling, scaling) \
                    if not isinstance(scaling, tuple) else scaling
                want = (np.clip(src.astype(float), lo, hi) - lo) / (float(hi) - lo) * 255
            want = want.reshape([k for k in nav if k > 1] + [n, n])
            raw = open(path, "rb").read()
            h = np.frombuffer(raw, head[order], 1)[0]
            s.check(h["MAGIC"] == 0x0102 and (h["NX"], h["NY"], h["DP_SZ"]) == (nx, ny, n), "sizes in the header", case)
            o1, o2 = int(h["Data_offset_1"]), int(h["Data_offset_2"])
            s.check(len(raw) == o2 + nx * ny * (6 + n * n) and o2 >= o1 + nx * ny and o1 >= 240, "places in the file", case)
            fr = np.frombuffer(raw, np.dtype([("m", order + "u2"), ("i", order + "u4"), ("d", "u1", (n, n))]), nx * ny, o2)
            s.check((fr["m"] == 0x55AA).all() and (fr["i"] == np.arange(nx * ny)).all(), "magic and serial numbers of the frames", case)
            v = np.frombuffer(raw, "u1", nx * ny, o1).reshape(nav)
            if scaling in (None, "crop"):
                w = {None: np.zeros(nav), "navigator": src.mean((-2, -1))}.get(navigator, vbf)
                s.check((v == np.clip(np.asarray(w), 0, 255).astype("u1")).all(), "navigator", case)
            for r, isl in zip(got, (False, True)):
                case["read lazily"] = isl
                d = np.asarray(r["data"])
                s.check(d.dtype == np.uint8 and d.shape == want.shape, "shape and type of the data", case)
                s.check((d == want).all() if scaling in (None, "crop") else np.abs(d - want).max() <= 1, "values", case)
                ax = r["axes"]
                keep = [a for a in axes if not a["navigate"] or a["size"] > 1]
                s.check([(a["size"], a["navigate"], a["name"], a["index_in_array"]) for a in ax] ==
                        [(a["size"], a["navigate"], a["name"], i) for i, a in enumerate(keep)], "axes", case)
                for a, b in zip(ax, keep):
                    if b["navigate"]:
                        q = b["scale"] * size_of[un] / 1e-9
                        s.check(abs(a["scale"] - q) <= 1e-9 * q and a["units"] == "nm", "scale of the navigation axis", case)
                    else:
                        s.check(a["units"] == "cm" and abs(100 / a["scale"] - ppcm) <= 0.5 + 1e-6, "scale of the patterns", case)
                    s.check(a["offset"] == 0, "offset", case)
                g = r["original_metadata"]["blockfile_header"]
                if om:
                    b = om["blockfile_header"]
                    s.check(g["Note"] == b["Note"][:o1 - 240], "notes", case)
                    s.check(all(g[k] == b[k] for k in ("Beam_energy", "Camera_length", "Scan_rotation", "Data_offset_1", "Acquisition_time",
                                                       "Distortion_N13")), "header", case)
            # interrupted files, and files with more frames than the header says
            if scaling is None and rng.random() < 0.5:
                k = rng.randint(0, nx * ny * 2)
                case = dict(case, frames=k)
                more = nprng.integers(0, 256, (k, n, n), dtype=np.uint8)
                q = np.zeros(k, np.dtype([("m", "S6"), ("d", "u1", (n, n))]))
                q["d"] = more
                with open(path, "wb") as f:
                    f.write(raw[:6] + rng.choice([raw[6:8], b"\x03\x02"]) + raw[8:o2])
                    f.write(q.tobytes())
                s.note(case)
                r, = file_reader(path, endianness=order)
                full = np.zeros((nx * ny, n, n), "u1")
                full[:min(k, nx * ny)] = more[:nx * ny]
                s.check(np.array_equal(r["data"], full.reshape(want.shape)), "frames of an incomplete file", case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
