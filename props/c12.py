"""C12: MRC files have the pixels and axes their headers (or info files) describe."""
import itertools
import os
import shutil
import struct as _struct
import types

from pyvc.text import TextFile, number

from .common import *

ID = "C12"
U = "rsciio/mrc/_api.py"
FN = [U + ":" + f for f in ("file_reader", "get_std_dtype_list", "get_data_type", "get_fei_dtype_list")]
MODES = {0: "u1", 1: "i2", 2: "f4", 4: "c8", 6: "u2", 12: "f2"}

# the format: what lies where in the header of 1024 bytes
NX, NY, NZ, MODE, MX, MY, MZ, XLEN, YLEN, ZLEN, NEXT = 0, 4, 8, 12, 28, 32, 36, 40, 44, 48, 92
XORG, YORG, ZORG = 196, 200, 204
NAMES = {NX: "nx", NY: "ny", NZ: "nz", MODE: "mode", MX: "mx", MY: "my", MZ: "mz", XLEN: "xlen", YLEN: "ylen", ZLEN: "zlen", NEXT: "next",
         XORG: "xorg", YORG: "yorg", ZORG: "zorg"}
KIND = {k: ("f" if k in (XLEN, YLEN, ZLEN, XORG, YORG, ZORG) else "iu") for k in NAMES}


class Fields:
    """record of a header: values by their place in the file, whatever their names"""

    def __init__(self, dtype, values, endian, n=1):
        self.dtype, self.values, self.endian, self.n = np.dtype(dtype), values, endian, n

    def __len__(self):
        return self.n

    def __getitem__(self, name):
        dt, off = self.dtype.fields[name][:2]
        if off not in self.values:
            if dt.kind in "SV":
                return np.zeros(self.n, dt)
            return SymArr.fresh("header%d" % off, (self.n,), dt)
        if self.n == 1:
            expect(dt.itemsize == 4 and dt.kind in KIND.get(off, "f") and dt == dt.newbyteorder(self.endian), "type of the field at byte %d" % off)
        v = self.values[off]
        if not is_sym(v):
            return np.array([v] * self.n, dt.newbyteorder("="))
        return SymArr.func(lambda idx: v.e, (self.n,), np.dtype("f8" if isinstance(v, SymReal) else "i8"), name)


class Header:
    def __init__(self, values, fei, endian):
        self.values, self.fei, self.endian, self.pos = values, fei, endian, 0

    def seek(self, n, *a):
        self.pos = n
        return n

    def tell(self):
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def vc_get(self, dtype, count=-1):
        dt = np.dtype(dtype)
        if self.pos == 0:
            expect(dt.itemsize == 1024 and count == 1, "the header is one record of 1024 bytes")
            self.pos = 1024
            return Fields(dt, self.values, self.endian)
        expect(self.pos == 1024 and dt.itemsize == 128 and count == 1024, "the extended header has 1024 records of 128 bytes")
        self.pos = 1024 + 131072
        return Fields(dt, self.fei, self.endian, 1024)


class Data:
    """what memmap_distributed returns: dimensions only"""

    def __init__(self, shape, log):
        self.shape, self.log = tuple(shape), log

    ndim = property(lambda self: len(self.shape))

    def squeeze(self, axis=None):
        expect(axis is None, "all singleton dimensions are removed")
        return Data([n for n in self.shape if is_sym(n) or n != 1], self.log)

    def compute(self):
        self.log.append("computed")
        return self


def environment(header, log, files, endian):
    def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", positions=None, **k):
        log.append((filename, np.dtype(dtype), tuple(shape), offset, chunks, order, positions, k))
        return Data(shape, log)

    def open_(name, mode="r", *a, **k):
        return header if "b" in mode else TextFile(files, name, mode)
    m = load_module(U, {"file": types.SimpleNamespace(memmap_distributed=distributed),
                        "sarray2dict": lambda rec, *a: {"EXTRA": np.zeros(1, "V4")[0], "LABELS": b"ab", "empty": 0}},
                    np_over={"squeeze": lambda a, axis=None: a.squeeze(axis)}, builtin_over={"open": open_})
    return m


def header_values(one, mode, nxt):
    dims = {k: 1 if c else fresh_int(NAMES[k], 2, inp=True) for k, c in zip((NX, NY, NZ), one)}
    v = dict(dims)
    v[MODE] = mode
    for k in (MX, MY, MZ):
        v[k] = fresh_int(NAMES[k], 0, inp=True)
    for k in (XLEN, YLEN, ZLEN):
        v[k] = fresh_real(NAMES[k], inp=True)
        assume(v[k] > 0)
    for k in (XORG, YORG, ZORG):
        v[k] = fresh_real(NAMES[k], inp=True)
    v[NEXT] = nxt
    return v


def image(one, mode, endian, nav, lazy, fei):
    """one: which of NX, NY, NZ are 1; nav: None or which navigation dimensions are 1"""
    def run():
        nxt = 131072 if fei else fresh_int("next", 0, inp=True)
        if not fei:
            assume(nxt != 131072)
        v = header_values(one, mode, nxt)
        pixel = fresh_real("pixel", inp=True)
        log = []
        h = Header(v, {44: pixel}, endian)
        m = environment(h, log, {}, endian)
        shape = None if nav is None else tuple(1 if c else fresh_int("nav%d" % i, 2, inp=True) for i, c in enumerate(nav))
        chunks = ("these",)
        r, = m.file_reader("d/f.mrc", lazy=lazy, endianness=endian, navigation_shape=shape, chunks=chunks)
        fn, dt, got, off, ch, order, pos, rest = log[0]
        expect(fn == "d/f.mrc" and ch is chunks and order == "C" and pos is None and not rest, "file and chunks are passed on")
        expect(dt == np.dtype(MODES[mode]).newbyteorder(endian), "element type and byte order")
        prove(eqi(off, 1024 + (131072 if fei else nxt)), "the data begins behind the headers")
        dims = ((v[NX], v[NY], v[NZ]) if nav is None else (v[NX], v[NY]) + shape)[::-1]
        expect(len(got) == len(dims), "dimensions of the file")
        for a, b in zip(got, dims):
            prove(eqi(a, b), "dimensions of the file, slowest first")
        expect(log[1:] == ([] if lazy else ["computed"]), "lazy or not")
        # scale, offset, units, name, navigate of each dimension
        if fei:
            scales = [None, re_(pixel) * 10 ** 9, re_(pixel) * 10 ** 9]
            offsets = [z3.RealVal(0)] * 3
        else:
            scales = []
            for ln, mm in ((ZLEN, MZ), (YLEN, MY), (XLEN, MX)):
                scales.append(z3.If(v[mm].e == 0, z3.RealVal(1), re_(v[ln]) / z3.ToReal(v[mm].e) / 10))
            offsets = [re_(v[k]) / 10 for k in (ZORG, YORG, XORG)]
        desc = [("z", scales[0], offsets[0], None, True), ("y", scales[1], offsets[1], "nm", False), ("x", scales[2], offsets[2], "nm", False)]
        extra = 0 if nav is None else len(nav) - 1
        desc = [("", z3.RealVal(1), z3.RealVal(0), None, True)] * extra + desc
        keep = [(n, d) for n, d in zip(dims, desc) if is_sym(n)]
        axes = r["axes"]
        expect(len(axes) == len(keep) == len(r["data"].shape), "an axis for each dimension with more than one element")
        for i, (a, (n, (name, sc, of, un, nv))) in enumerate(zip(axes, keep)):
            expect(a["index_in_array"] == i, "place of the axis")
            prove(eqi(a["size"], n), "size of the axis")
            prove(re_(a["scale"]) == (sc if sc is not None else 1), "scale of the axis")
            prove(re_(a["offset"]) == of, "offset of the axis")
            expect((a["name"], a["units"], a["navigate"]) == (name, un, nv), "name, unit and kind of the axis")
        expect(r["metadata"]["General"]["original_filename"] == "f.mrc", "file name")
        om = r["original_metadata"]
        expect(("fei_header" in om) is fei and om["std_header"]["LABELS"] == b"ab".hex(), "headers are kept")
    return run


def refused(mode):
    def run():
        m = load_module(U)
        try:
            m.get_data_type(np.array([mode], "u4"))
        except ValueError:
            return
        expect(False, "an unknown data type is refused")
    return run


# ---------------------------------------------------------------- Direct Electron

def info_lines(d):
    out = []
    for k, v in d.items():
        out.append(k + " = ")
        out.append(number(v) if is_sym(v) else str(v))
        out.append("\n")
    return out


def movie(scan, stem, camera, calibrated, roi, one, user):
    """axes of a movie with an info file"""
    def run():
        C().ghost["str_of"] = number
        v = header_values((False, False, one == "NZ"), 1, 0)
        log, files = [], {}
        m = environment(Header(v, {}, "<"), log, files, "<")
        px = {k: (fresh_real(k.replace(" ", "_"), inp=True) if calibrated else -1) for k in (
            "Specimen Pixel Size X (nanometers)", "Specimen Pixel Size Y (nanometers)", "Diffraction Pixel Size X", "Diffraction Pixel Size Y")}
        for x in px.values():
            if is_sym(x):
                assume(x > 0)
        sx = 1 if one == "x" else fresh_int("size_x", 2, inp=True)
        sy = 1 if one == "y" else fresh_int("size_y", 2, inp=True)
        fps = fresh_real("fps", inp=True)
        count = fresh_real("count", inp=True)
        assume(fps > 0)
        assume(count > 0)
        info = dict(px)
        if stem is not None:
            info["Instrument Project TEMorSTEM Mode"] = stem
        info["Scan - Enable"] = "Enable" if scan else "Disable"
        info["Scan - Type"] = "Raster"
        info["Scan - ROI Enable"] = "Enable" if roi else "Disable"
        info["Scan - ROI Size X" if roi else "Scan - Size X"] = sx
        info["Scan - ROI Size Y" if roi else "Scan - Size Y"] = sy
        info["Scan - ROI Size X" if not roi else "Scan - Size X"] = 77
        info["Scan - ROI Size Y" if not roi else "Scan - Size Y"] = 78
        info["Image Size X (pixels)"] = v[NX]
        info["Image Size Y (pixels)"] = v[NY]
        info["Scan - Time (seconds)"] = 1.5
        info["Scan - Repeat Delay (seconds)"] = 3
        info["Autosave Movie Sum Count"] = count
        info["Frames Per Second"] = fps
        if camera:
            info["Instrument Project Camera Length (centimeters)"] = 12
        with TextFile(files, "info.txt", "w") as f:
            for p in info_lines(info):
                f.write(p)
        nav = None
        if user:
            nav = tuple(fresh_int("nav%d" % i, 2, inp=True) for i in range(user))
        r, = m.file_reader("d/f.mrc", metadata_file="info.txt", navigation_shape=nav)
        scanning = scan and (stem is None or stem != 0)
        raster = scanning or user
        un = ("ky", "kx", "nm^-1", "Diffraction Pixel Size %s") if raster or camera or scanning or (stem not in (None, 0, -1)) else \
            ("y", "x", "nm", "Specimen Pixel Size %s (nanometers)")

        def scale(k):
            x = px[k]
            return re_(x) if is_sym(x) else z3.RealVal(1)
        sig = [(un[0], un[2], v[NY], scale(un[3] % "Y")), (un[1], un[2], v[NX], scale(un[3] % "X"))]
        if user == 1:
            ys = [("x", "nm", nav[0], scale("Specimen Pixel Size X (nanometers)"))]
        elif raster:
            nx, ny = nav if user else (sx, sy)
            ys = [("y", "nm", ny, scale("Specimen Pixel Size Y (nanometers)")), ("x", "nm", nx, scale("Specimen Pixel Size X (nanometers)"))]
        else:
            ys = [("time", "sec", v[NZ], None)]
        want = [w for w in ys + sig if is_sym(w[2])]
        shape = log[0][2]
        full = [w[2] for w in ys + sig]
        kept = [n for n in shape if is_sym(n)]
        expect(len(kept) == len(want), "dimensions of the data")
        for a, w in zip(kept, want):
            prove(eqi(a, w[2]), "dimensions of the data, slowest first")
        axes = r["axes"]
        expect(len(axes) == len(want), "an axis for each dimension with more than one element")
        for i, (a, (name, unit, n, sc)) in enumerate(zip(axes, want)):
            expect((a["name"], a["units"], a["index_in_array"], a["navigate"]) == (name, unit, i, i < len(want) - 2), "name, unit and kind of the axis")
            prove(eqi(a["size"], n), "size of the axis")
            if sc is not None:
                prove(re_(a["scale"]) == sc, "scale of the axis")
            else:
                prove(re_(a["scale"]) * re_(fps) * re_(count) == 1, "time between the frames")
    return run


CONTRACTS = []
for _o in itertools.product((False, True), repeat=3):
    for _i, (_m, _e) in enumerate(itertools.product(MODES, "<>")):
        for _l in ((False, True) if _i == 2 else (_i % 4 == 1,)):
            for _f in (False, True):
                CONTRACTS.append(Contract("image: singletons %s, mode %d, %s%s%s" % ("".join("01"[x] for x in _o), _m, _e, ", lazy" if _l else "",
                                          ", extended header" if _f else ""), image(_o, _m, _e, None, _l, _f), FN))
for _k in (1, 2, 3):
    for _n in itertools.product((False, True), repeat=_k):
        for _o in ((False, False, False), (True, False, True), (False, True, False), (True, True, False)):
            for _f in (False, True):
                CONTRACTS.append(Contract("navigation shape %s, singletons %s%s" % ("".join("01"[x] for x in _n), "".join("01"[x] for x in _o),
                                          ", extended header" if _f else ""), image(_o, 1, "<", _n, False, _f), FN))
for _m in (3, 5, 7, 13, 101):
    CONTRACTS.append(Contract("mode %d" % _m, refused(_m), [U + ":get_data_type"]))
for _s in (False, True):
    for _st in (None, -1, 0, 1):
        for _c in (False, True):
            for _cal in (False, True):
                for _r in (False, True):
                    for _one in ("", "x", "y", "NZ"):
                        for _u in (0, 1, 2):
                            if _u and _one in "xy" and _one:
                                continue
                            CONTRACTS.append(Contract("movie: %s, mode %s%s%s%s%s%s" % (
                                "scan" if _s else "frames", _st, ", camera length" if _c else "", ", calibrated" if _cal else "",
                                ", roi" if _r else "", ", single " + _one if _one else "", ", navigation shape of %d" % _u if _u else ""),
                                movie(_s, _st, _c, _cal, _r, _one, _u), FN[:1] + [U + ":read_de_metadata_file"]))


# ---------------------------------------------------------------- files that belong to a movie

def related(names, suffix):
    """every image of the movie under its own name, whatever order the directory lists them in"""
    def run():
        seen = []

        class Glob:
            @staticmethod
            def glob(pattern):
                import fnmatch
                d, p = os.path.split(pattern)
                expect(d == "d", "the directory of the movie")
                return ["d/" + n for n in names if fnmatch.fnmatch(n, p)]

            @staticmethod
            def escape(x):
                import glob
                return glob.escape(x)
        m = load_module(U, {"glob": Glob})
        got = m.find_related_de_files("d/20240102_7%s_movie.mrc" % suffix)
        check_related(got, names, "d/", expect)
    return run


def check_related(got, names, d, expect):
    import re
    virt = sorted(n for n in names if re.fullmatch(r"20240102_7_(S_)?(virt)?\d+_[A-Za-z ]+_[a-z_]+\.mrc", n))
    ext = sorted(n for n in names if re.fullmatch(r"20240102_7_(S_)?ext\d+(_[A-Za-z ]+)?\.mrc", n))
    expect(sorted(got["virtual_images"]) == [d + n for n in virt], "all virtual images")
    expect(sorted(got["external_images"]) == [d + n for n in ext], "all external images")
    for imgs, labels in ((got["virtual_images"], got["virtual_image_names"]), (got["external_images"], got["external_image_names"])):
        expect(len(imgs) == len(labels) == len(set(labels)), "a name for each image")
        for i, n in zip(imgs, labels):
            own = re.fullmatch(r".*_(?:virt)?\d+_([A-Za-z ]+)_[a-z_]+\.mrc|.*_(ext\d+)\.mrc|.*_ext\d+_([A-Za-z ]+)\.mrc", i)
            base = next(x for x in own.groups() if x)
            expect(n == base or re.fullmatch(re.escape(base) + r"_\d+", n), "the name of each image is its own")
    info = [n for n in names if n.endswith("info.txt")]
    csv = [n for n in names if n.endswith("scan_coordinates.csv")]
    expect(got["info_file"] == (d + min(info) if info else None) and got["scan_csv"] == (d + min(csv) if csv else None), "info file and scan coordinates")


FILES = ["20240102_7_0_Sum_sum.mrc", "20240102_7_1_Centroid_centroid_amplitude.mrc", "20240102_7_virt2_Sum_sum.mrc", "20240102_7_ext1_HAADF.mrc",
         "20240102_7_ext2.mrc", "20240102_7_ext3_HAADF.mrc"]
for _k, _p in enumerate(itertools.permutations(FILES)):
    if _k % 24 == 0:
        CONTRACTS.append(Contract("related files, order %d" % _k, related(
            list(_p) + ["20240102_7_info.txt", "20240102_7_final.mrc", "20240102_7_movie.mrc", "20240102_7_scan_coordinates.csv"], ""),
            [U + ":find_related_de_files"]))
CONTRACTS.append(Contract("related files: none", related(["20240102_7_movie.mrc"], ""), [U + ":find_related_de_files"]))
CONTRACTS.append(Contract("related files, suffix", related(
    ["20240102_7_S_movie.mrc", "20240102_7_S_info.txt"] + [f.replace("_7_", "_7_S_") for f in reversed(FILES)], "_S"), [U + ":find_related_de_files"]))

ASSUMPTIONS = [
    "memmap_distributed by its contract (C01); numpy.fromfile returns the records that lie at the position of the file; sarray2dict keeps every field (C16)",
    "lengths of calibrated axes are positive (a length of zero is not a calibration); the singleton dimensions are those of length one",
    "frames at given scan positions (custom scans) are decided by the search (bounded)",
]


def search(s):
    import tempfile
    from rsciio.mrc import file_reader
    tmp = tempfile.mkdtemp(prefix="c12-")
    try:
        for it in range(s.n(500, 8000)):
            if not s.left():
                break
            k = s.rng.random()
            d = os.path.join(tmp, "d%d" % it + s.rng.choice(["", " [1]", "movie"]))
            os.mkdir(d)
            (plain if k < 0.5 else de_movie)(s, file_reader, d)
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write(fn, data, mode, endian, nxt, cal):
    """data: (nz, ny, nx); cal: (lens, ms, origins), each x, y, z"""
    h = bytearray(1024)
    ln, mm, og = cal
    nz, ny, nx = data.shape
    for off, v in zip((NX, NY, NZ, MODE, MX, MY, MZ, NEXT), (nx, ny, nz, mode) + tuple(mm) + (nxt,)):
        h[off:off + 4] = _struct.pack(endian + "I", v)
    for off, v in zip((XLEN, YLEN, ZLEN, XORG, YORG, ZORG), tuple(ln) + tuple(og)):
        h[off:off + 4] = _struct.pack(endian + "f", v)
    h[224:224 + 9] = b"a label\0\0"
    with open(fn, "wb") as f:
        f.write(h)
        f.write(b"\7" * nxt)
        f.write(data.astype(data.dtype.newbyteorder(endian)).tobytes())


def some(rng, shape, mode):
    dt = np.dtype(MODES[mode])
    n = int(np.prod(shape)) * dt.itemsize
    x = np.frombuffer(bytes(rng.randrange(120) for _ in range(n)), dt).reshape(shape)
    return x


def same(a, b):
    return a.shape == b.shape and a.dtype.newbyteorder("=") == b.dtype.newbyteorder("=") and \
        a.astype(a.dtype.newbyteorder("<")).tobytes() == b.astype(b.dtype.newbyteorder("<")).tobytes()


def plain(s, file_reader, d):
    rng = s.rng
    mode, endian = rng.choice(list(MODES)), rng.choice("<>")
    nav = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3))) if rng.random() < 0.3 else None
    nz = int(np.prod(nav)) if nav else rng.randint(1, 4)
    data = some(rng, (nz, rng.randint(1, 4), rng.randint(1, 4)), mode)
    nxt = rng.choice([0, 0, 4, 1024, 131072])
    cal = [rng.randint(1, 40) / 4 for _ in range(3)], [rng.randint(0, 5) for _ in range(3)], [rng.randint(-40, 40) / 4 for _ in range(3)]
    fn = os.path.join(d, "f.mrc")
    write(fn, data, mode, endian, nxt, cal)
    if nxt == 131072:
        with open(fn, "r+b") as f:
            f.seek(1024 + 44)
            f.write(_struct.pack(endian + "f", 2.0 ** -30))
    lazy = rng.random() < 0.4
    case = dict(shape=data.shape, mode=mode, endianness=endian, navigation_shape=nav, extended_header=nxt, lengths=cal[0], intervals=cal[1],
                origins=cal[2], lazy=lazy)
    s.note(case)
    try:
        r, = file_reader(fn, lazy=lazy, endianness=endian, navigation_shape=nav)
    except Exception as exc:  # noqa: BLE001
        s.fail("a well formed file is read", dict(case, error=repr(exc)))
    want = data if nav is None else data.reshape(nav[::-1] + data.shape[1:])
    if nxt == 131072:
        sc, of = [1, 2.0 ** -30 * 1e9, 2.0 ** -30 * 1e9], [0] * 3
    else:
        sc = [ln / m / 10 if m else 1 for ln, m in zip(cal[0], cal[1])][::-1]
        of = [o / 10 for o in cal[2]][::-1]
    desc = [("", 1, 0, None, True)] * (len(want.shape) - 3) + [("z", sc[0], of[0], None, True), ("y", sc[1], of[1], "nm", False),
                                                              ("x", sc[2], of[2], "nm", False)]
    desc = [(n,) + e for n, e in zip(want.shape, desc) if n != 1]
    got = r["data"]
    got = np.asarray(got.compute() if hasattr(got, "compute") else got)
    s.check(same(got, np.squeeze(want)), "every pixel is the one of the file", dict(case, got=repr(got)[:300], expected=repr(want)[:300]))
    ok = len(r["axes"]) == len(desc) and all(
        (a["index_in_array"], a["size"], a["name"], a["units"], a["navigate"]) == (i, n, nm, un, nv) and
        abs(a["scale"] - x) <= 1e-6 * abs(x) and abs(a["offset"] - o) <= 1e-6 * abs(o) for i, (a, (n, nm, x, o, un, nv)) in enumerate(zip(r["axes"], desc)))
    s.check(ok, "the axes are those of the header", dict(case, axes=r["axes"], expected=desc))


def de_movie(s, file_reader, d):
    rng = s.rng
    sx, sy, kx, ky = (rng.randint(1, 4) for _ in range(4))
    kx, ky = kx + 1, ky + 1
    kind = rng.choice(["raster", "roi", "custom", "frames"])
    if kind == "custom":
        pts = [(x, y) for x in range(sx) for y in range(sy)]
        # the last corner is visited, others may be left out
        order = rng.sample(pts, rng.randint(1, len(pts)))
        if (sx - 1, sy - 1) not in order:
            order.append((sx - 1, sy - 1))
        if rng.random() < 0.3:
            order += [rng.choice(order) for _ in range(rng.randint(1, 4))]
            rng.shuffle(order)
        n = len(order)
    elif kind == "frames":
        n = rng.randint(1, 4)
    else:
        n = sx * sy
    data = some(rng, (n, ky, kx), 1)
    stem = "20240102_7_" + rng.choice(["", "S_"])
    fn = os.path.join(d, stem + "movie.mrc")
    write(fn, data, 1, "<", 0, ([1.0] * 3, [1] * 3, [0.0] * 3))
    px = {k: rng.choice([-1, rng.randint(1, 40) / 8]) for k in ("Specimen Pixel Size X (nanometers)", "Specimen Pixel Size Y (nanometers)",
                                                              "Diffraction Pixel Size X", "Diffraction Pixel Size Y")}
    info = dict(px)
    roi = kind == "roi"
    info.update({"Scan - Enable": "Disable" if kind == "frames" else "Enable", "Scan - Type": "Custom" if kind == "custom" else "Raster",
                 "Scan - ROI Enable": "Enable" if roi else "Disable", "Scan - Size X": 91 if roi else sx, "Scan - Size Y": 92 if roi else sy,
                 "Scan - ROI Size X": sx if roi else 93, "Scan - ROI Size Y": sy if roi else 94, "Image Size X (pixels)": kx,
                 "Image Size Y (pixels)": ky, "Scan - Time (seconds)": 1.5, "Scan - Repeat Delay (seconds)": 3, "Frames Per Second": 8,
                 "Autosave Movie Sum Count": 2, "Instrument Project TEMorSTEM Mode": rng.choice([-1, 0]) if kind == "frames" else 1})
    if kind == "frames":
        info["Instrument Project TEMorSTEM Mode"] = 0
        if rng.random() < 0.5:
            info["Instrument Project Camera Length (centimeters)"] = 12
    keys = list(info)
    rng.shuffle(keys)
    with open(os.path.join(d, stem + "info.txt"), "w") as f:
        f.write("".join("%s%s= %s\n" % (k, " " * rng.randint(0, 9), info[k]) for k in keys))
    if kind == "custom":
        with open(os.path.join(d, stem + "scan_coordinates.csv"), "w") as f:
            f.write("".join("%d,%d\n" % p for p in order))
    images = {}
    if kind != "custom" and rng.random() < 0.6:
        names = [x for x in ("0_Sum_sum", "1_Centroid_centroid_amplitude", "virt2_Sum_sum", "ext1_HAADF", "ext2", "ext3_HAADF") if rng.random() < 0.5]
        rng.shuffle(names)
        for x in names:
            images[stem + x + ".mrc"] = some(rng, rng.choice([(1, sy + 1, sx + 1), (1, sy, sx), (1, 1, sx * sy), (1, sx * sy, 1)]), 1)
            write(os.path.join(d, stem + x + ".mrc"), images[stem + x + ".mrc"], 1, "<", 0, ([1.0] * 3, [1] * 3, [0.0] * 3))
    lazy = rng.random() < 0.4
    case = dict(kind=kind, scan=(sx, sy), frames=n, pattern=(ky, kx), info=info, images=sorted(images), lazy=lazy, directory=os.path.basename(d),
                positions=order if kind == "custom" else None)
    s.note(case)
    import glob
    real = glob.glob

    def shuffled(*a, **k):
        out = real(*a, **k)
        rng.shuffle(out)
        return out
    glob.glob = shuffled
    try:
        from rsciio.mrc._api import find_related_de_files
        related_files = find_related_de_files(fn)
        r, = file_reader(fn, lazy=lazy)
    except Exception as exc:  # noqa: BLE001
        s.fail("a movie is read", dict(case, error=repr(exc)))
    finally:
        glob.glob = real

    def expect_(ok, name):
        s.check(ok, name, dict(case, found=related_files))
    check_related(related_files, sorted(os.listdir(d)), d + os.sep, expect_)
    one = [1.0 if px[k] == -1 else px[k] for k in px]
    nav = [("y", sy, one[1], "nm"), ("x", sx, one[0], "nm")]
    if kind == "frames":
        want = data
        desc = [("time", n, 1 / 16, "sec"), ("y", ky, one[1], "nm"), ("x", kx, one[0], "nm")]
        if "Instrument Project Camera Length (centimeters)" in info:
            desc[1:] = [("ky", ky, one[3], "nm^-1"), ("kx", kx, one[2], "nm^-1")]
    else:
        if kind == "custom":
            # frames of the same place are found behind each other, in their order
            rep = max(order.count(p) for p in order)
            want = np.zeros((sy, sx, rep, ky, kx), data.dtype)
            for i, ((x, y), frame) in enumerate(zip(order, data)):
                want[y, x, order[:i].count((x, y))] = frame
            nav = nav + [("repeats", rep, 1.0, "times")]
        else:
            want = data.reshape(sy, sx, ky, kx)
        desc = nav + [("ky", ky, one[3], "nm^-1"), ("kx", kx, one[2], "nm^-1")]
    got = r["data"]
    got = np.asarray(got.compute() if hasattr(got, "compute") else got)
    s.check(same(got, np.squeeze(want)), "every frame is at its place in the scan", dict(case, got=repr(got)[:300], expected=repr(want)[:300]))
    desc = [e for e in desc if e[1] != 1]
    ok = len(r["axes"]) == len(desc) and all((a["name"], a["size"], a["units"], a["navigate"], a["index_in_array"]) == (nm, k, un, i < len(desc) - 2, i) and
                                             abs(a["scale"] - x) < 1e-9 for i, (a, (nm, k, x, un)) in enumerate(zip(r["axes"], desc)))
    s.check(ok, "the axes are those of the info file", dict(case, axes=r["axes"], expected=desc))
    stored = r["metadata"]["_HyperSpy"]["navigators"]
    s.check(len(stored) == len(images), "every image of the detectors is there", dict(case, got=sorted(stored)))
    for name, sig in stored.items():
        base = name[len("_sig_"):].rstrip("_0123456789") if not name.startswith("_sig_ext2") else "ext2"
        mine = [v for k, v in images.items() if base in k]
        scan = tuple(k for k in (sy, sx) if k != 1)
        fit = "ext" not in name and base not in ("HAADF",) and kind != "frames"
        s.check(any(same(np.asarray(sig["data"]), np.squeeze(v).reshape(scan) if fit and v.size == sx * sy else np.squeeze(v)) for v in mine),
                "every image is stored under its own name, in the shape of the scan", dict(case, name=name, got=repr(sig["data"])[:200]))
    virtual = sorted(k for k in images if "ext" not in k)
    if virtual and kind != "frames":
        first = images[virtual[0]]
        nv = r["metadata"]["_HyperSpy"].get("_sig_navigator")
        if first.size == sx * sy:
            s.check(nv is not None and same(np.asarray(nv["data"]), np.squeeze(first).reshape(scan)), "the first virtual image is the navigator", case)
        else:
            s.check(nv is None, "an image of another shape is no navigator", case)
