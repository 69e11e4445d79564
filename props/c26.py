"""C26: EDAX files (spc, spd, lsd) give the counts, calibration and metadata that they and their companions hold."""
import os
import shutil
import struct as _struct
import types

from .common import *

ID = "C26"
U = "rsciio/edax/_api.py"
FN = [U + ":" + f for f in ("file_reader", "si_reader", "spc_reader", "_add_spc_metadata", "__get_spc_header", "__get_ipr_header",
                            "get_spd_dtype_list", "get_spc_dtype_list", "get_ipr_dtype_list")] + ["rsciio/utils/_array.py:sarray2dict"]

# the format: place and type of the fields in the headers
SPD = {"tag": (0, "16i1"), "version": (16, "i4"), "nSpectra": (20, "i4"), "nPoints": (24, "i4"), "nLines": (28, "u4"), "nChannels": (32, "u4"),
       "countBytes": (36, "u4"), "dataOffset": (40, "u4"), "nFrames": (44, "u4"), "fName": (48, "120i1")}
SPC = {"version": (0, "f4"), "dataStart": (28, "i4"), "numPts": (32, "i2"), "evPerChan": (384, "i4"), "startEnergy": (448, "f4"),
       "endEnergy": (452, "f4"), "liveTime": (456, "f4"), "tilt": (460, "f4"), "detReso": (472, "f4"), "azimuth": (508, "f4"),
       "elevation": (512, "f4"), "kV": (532, "f4"), "numElem": (638, "i2"), "at": (640, "48u2")}
IPR = {"version": (0, "u2"), "accV": (52, "u2"), "tilt": (54, "i2"), "takeoff": (56, "i2"), "mag": (58, "u4"), "wd": (62, "u2"), "mppX": (64, "f4"),
       "mppY": (68, "f4")}
SYMBOLS = {1: "H", 6: "C", 8: "O", 13: "Al", 14: "Si", 26: "Fe", 92: "U"}


class Record:
    """record of a file: its fields by their place, whatever their names"""

    def __init__(self, dtype, layout, values, endian):
        self.dtype, self.at, self.values, self.endian = np.dtype(dtype), {p: (n, t) for n, (p, t) in layout.items()}, values, endian

    def __len__(self):
        return 1

    def item(self):
        return tuple(self[n][0] for n in self.dtype.names)

    def __getitem__(self, name):
        dt, off = self.dtype.fields[name][:2]
        n, t = self.at.get(off, (None, None))
        if n is None or n not in self.values:
            return np.zeros(1, dt)
        want = np.dtype(t).newbyteorder(self.endian) if t[0] not in "0123456789" else np.dtype(self.endian + t)
        if dt.kind in "V" and dt.names is None and dt.subdtype is None:
            return np.zeros(1, dt)          # the place is skipped
        expect(dt == want or (dt.base.itemsize == 1 and dt.shape == want.shape) or (dt.kind in "iu" and want.kind in "iu" and dt.itemsize == want.itemsize and
                                                                                     (dt == dt.newbyteorder("<")) == (want == want.newbyteorder("<"))), "type of the field at byte %d" % off)
        v = self.values[n]
        if is_sym(v):
            return [v]
        if dt.subdtype:
            a = np.zeros((1,) + dt.shape, dt.base.newbyteorder("="))
            v = np.frombuffer(v, "i1") if isinstance(v, bytes) else np.array(v)
            a[0, :len(v)] = v
            return a
        return np.array([v], dt.newbyteorder("="))


class Open:
    """file that is open"""

    def __init__(self, name, layout, values, endian):
        self.name, self.layout, self.values, self.endian, self.pos = name, layout, values, endian, 0

    def seek(self, n, whence=0):
        expect(whence == 0, "place from the start of the file")
        self.pos = n
        return n

    def tell(self):
        return self.pos

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Table:
    """companion file of a line scan"""

    def __init__(self, lines, rows):
        self.lines, self.rows, self.n = list(lines), rows, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.lines):
            raise StopIteration
        self.n += 1
        return self.lines[self.n - 1]

    readline = __next__


HEAD = ["Sample,A\n", "Area,B, with comma\n", "\n", "no comma\n"] + ["k%d, v%d \n" % (i, i) for i in range(10)]
COLUMNS = "Distance (nm), Counts\n"


def place_of(endian, dt):
    """number that lies at a place of the file"""
    dt = np.dtype(dt)
    dt = dt.newbyteorder(endian) if dt.itemsize > 1 and dt.byteorder == "|" else dt
    order = "" if dt.itemsize == 1 else "<" if dt == dt.newbyteorder("<") else ">"
    return z3.Function("number_" + dt.kind + str(dt.itemsize) + order, I, I)


def environment(files, endian, log):
    def numbers(where, dt, shape):
        f, dt = place_of(endian, dt), np.dtype(dt)
        n = shape if not isinstance(shape, tuple) else None
        if n is None:
            n = 1
            for d in shape:
                n = n * d
        w = ie(where)
        a = SymArr.func(lambda idx: f(w + dt.itemsize * idx[0]), (n,), dt, "counts")
        return a.reshape(shape) if isinstance(shape, tuple) else a

    def fromfile(f, dtype=float, count=-1, sep="", offset=0):
        if isinstance(dtype, list) or np.dtype(dtype).names:
            dt = np.dtype(dtype)
            expect(not is_sym(f.pos) and f.pos == 0 and count == 1 and not is_sym(offset) and offset == 0, "headers lie at the start of the file")
            f.pos = dt.itemsize
            return Record(dt, f.layout, f.values, f.endian)
        log.append((f.name, np.dtype(dtype)))
        return numbers(mk_int(ie(f.pos) + ie(offset)), dtype, count)

    def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", positions=None, **k):
        expect(order == "C" and positions is None, "contract of memmap_distributed")
        log.append((filename, np.dtype(dtype), chunks, k))
        return numbers(offset, dtype, shape)

    def open_(name, mode="r", *a, **k):
        expect(mode in ("r", "rb"), "files are only read")
        if name not in files:
            raise FileNotFoundError(name)
        return files[name]()

    class Rows:
        def __init__(self, f, *a, **k):
            expect(k == {"skipinitialspace": True} and not a and f.n == 14, "the table begins behind 14 lines")
            self.rows = f.rows

        def __iter__(self):
            return iter([{"Distance (nm)": r, "Counts": "1"} for r in self.rows])
    m = load_module(U, np_over={"fromfile": fromfile}, builtin_over={"open": open_})
    m.memmap_distributed = distributed
    p = os.path
    m.os = types.SimpleNamespace(path=types.SimpleNamespace(splitext=p.splitext, split=p.split, dirname=p.dirname, basename=p.basename, join=p.join,
                                                            isfile=lambda n: n in files, exists=lambda n: n in files))
    m.csv = types.SimpleNamespace(DictReader=Rows)
    return m


def spc_values(version, els):
    v = {k: fresh_real(k, inp=True) for k in ("startEnergy", "endEnergy", "liveTime", "tilt", "detReso", "azimuth", "elevation", "kV")}
    v.update(version=version, evPerChan=fresh_int("evPerChan", inp=True), dataStart=fresh_int("dataStart", 0, inp=True), numPts=fresh_int("numPts", 1, inp=True),
             numElem=len(els), at=list(els) + [26])
    return v


def equal(a, b):
    return re_(a) == re_(b)


def same_metadata(md, v, els):
    sem = md["Acquisition_instrument"]["SEM"]
    for got, want in ((sem["beam_energy"], "kV"), (sem["Stage"]["tilt_alpha"], "tilt"), (sem["Detector"]["EDS"]["azimuth_angle"], "azimuth"),
                      (sem["Detector"]["EDS"]["elevation_angle"], "elevation"), (sem["Detector"]["EDS"]["energy_resolution_MnKa"], "detReso"),
                      (sem["Detector"]["EDS"]["live_time"], "liveTime")):
        prove(equal(got, v[want]), "metadata from the header of the spectrum: " + want)
    if els:
        expect(sorted(set(md["Sample"]["elements"])) == sorted({SYMBOLS[e] for e in els}), "elements")
    else:
        expect("elements" not in md.get("Sample", {}), "no elements")


def same_axis(a, size, place, ndim, name, units, scale, offset, navigate):
    expect(a["index_in_array"] % ndim == place and a["name"] == name and a["units"] == units and a["navigate"] is navigate, "name, units and place of the axis")
    prove(eqi(a["size"], size), "size of the axis")
    prove(re_(a["scale"]) == scale, "scale of the axis")
    if offset is not None:
        prove(re_(a["offset"]) == offset, "offset of the axis")


def spectrum(endian, lazy, everything, version, els):
    def run():
        v, log, name = spc_values(version, els), [], "d/Spectrum 1.SPC"
        m = environment({name: lambda: Open(name, SPC, v, endian)}, endian, log)
        r, = m.file_reader(name, lazy=lazy, load_all_spc=everything, endianness=endian)
        d = r["data"]
        expect(d.ndim == 1 and len(r["axes"]) == 1 and log[0][0] == name and np.dtype(d.dtype) == np.dtype(endian + "u4"), "counts of 32 bits of the file")
        prove(eqi(d.shape[0], v["numPts"]), "channels of the spectrum")
        c = fresh_int("channel", 0, inp=True)
        assume(c < v["numPts"])
        prove(eqi(d[c], mk_int(place_of(endian, endian + "u4")(ie(v["dataStart"]) + 4 * c.e))), "counts of the channel")
        same_axis(r["axes"][0], v["numPts"], 0, 1, "Energy", "keV", re_(v["evPerChan"]) / 1000, re_(v["startEnergy"]), False)
        md = r["metadata"]
        expect(md["General"] == {"original_filename": "Spectrum 1.SPC", "title": "EDS Spectrum"} and md["Signal"] == {"signal_type": "EDS_SEM"}, "title and kind")
        same_metadata(md, v, els)
        h = r["original_metadata"]["spc_header"]
        for k in SPC:
            if k in h and is_sym(v.get(k)):
                prove(equal(h[k], v[k]), "header that is kept")
    return run


def image(ext, endian, lazy, nbytes, spc, second, given=False, everything=False, rows=2):
    """second: the file of the calibration of the pixels is there; given: the companions have other names"""
    line = ext.lower() == "lsd"

    def run():
        log, name = [], "d/map 1.0." + ext
        v = {k: fresh_int(k, 1, inp=True) for k in ("nPoints", "nLines", "nChannels", "nSpectra", "dataOffset", "nFrames")}
        v.update(countBytes=nbytes, fName=b"x y.v2.bmp", tag=b"MAPSPECTRA_DATA.")
        nx, ny, nz = v["nPoints"], v["nLines"], v["nChannels"]
        if line:
            assume(v["nSpectra"] <= nx * ny)
        s = spc_values(0.61, (13, 8))
        q = {"version": 333, "mppX": fresh_real("mppX", inp=True), "mppY": fresh_real("mppY", inp=True)}
        dist = [fresh_real("distance", inp=True) for _ in range(rows)]
        names = {"spc": "e/other", "ipr": "e/another", "csv": "e/table"} if given else {"spc": "d/map 1.0.spc", "ipr": "d/x y.v2.ipr", "csv": "d/map 1.0.csv"}
        files = {name: lambda: Open(name, SPD, v, endian)}
        if spc:
            files[names["spc"]] = lambda: Open(names["spc"], SPC, s, endian)
        if second:
            files[names["csv" if line else "ipr"]] = (lambda: Table(HEAD, dist)) if line else (lambda: Open(names["ipr"], IPR, q, endian))
        if given:
            # files of the usual names are not those asked for
            files["d/map 1.0.spc"] = lambda: Open("", SPC, spc_values(0.61, ()), endian)
            files["d/x y.v2.ipr"] = lambda: Open("", IPR, {"version": 333, "mppX": 1.0, "mppY": 1.0}, endian)
        m = environment(files, endian, log)
        kw = {k + "_fname": n for k, n in names.items()} if given else {}
        if lazy:
            kw["chunks"] = ("these",)
        r, = m.file_reader(name, lazy=lazy, endianness=endian, load_all_spc=everything, **kw)
        d = r["data"]
        ndim = 2 if line else 3
        t = np.dtype(endian + "u%d" % nbytes)
        expect(d.ndim == ndim == len(r["axes"]) and np.dtype(d.dtype) == t and log[0][:2] == (name, t) and len(log) == 1, "counts of the file, of their type")
        expect(not lazy or log[0][2:] == (("these",), {}), "chunks are passed on")
        dims = (v["nSpectra"], nz) if line else (ny, nx, nz)
        for a, b in zip(d.shape, dims):
            prove(eqi(a, b), "dimensions of the map")
        at = [fresh_int(k, 0, inp=True) for k in ("y", "x", "channel")[-ndim:]]
        for a, b in zip(at, dims):
            assume(a < b)
        lin = at[0].e
        for a, b in list(zip(at, dims))[1:]:
            lin = lin * ie(b) + a.e
        prove(d.expr(*[a.e for a in at]) == place_of(endian, t)(ie(v["dataOffset"]) + nbytes * lin), "counts of the pixel and channel")
        u = ("nm" if line else "µm") if second else None
        if line:
            step = re_(dist[1]) - re_(dist[0]) if second and rows > 1 else z3.RealVal(1)
            same_axis(r["axes"][0], dims[0], 0, 2, "x", u, step, re_(dist[0]) if second else z3.RealVal(0), True)
        else:
            same_axis(r["axes"][0], ny, 0, 3, "y", u, re_(q["mppY"]) if second else z3.RealVal(1), z3.RealVal(0), True)
            same_axis(r["axes"][1], nx, 1, 3, "x", u, re_(q["mppX"]) if second else z3.RealVal(1), z3.RealVal(0), True)
        same_axis(r["axes"][-1], nz, ndim - 1, ndim, "Energy", "keV" if spc else None, re_(s["evPerChan"]) / 1000 if spc else z3.RealVal(1),
                  re_(s["startEnergy"]) if spc else None, False)
        md, om = r["metadata"], r["original_metadata"]
        expect(md["General"] == {"original_filename": "map 1.0." + ext, "title": "EDS Line Scan" if line else "EDS Spectrum Image"} and
               md["Signal"] == {"signal_type": "EDS_SEM"}, "title and kind")
        if spc:
            same_metadata(md, s, (13, 8))
        else:
            expect("Acquisition_instrument" not in md and "Sample" not in md, "no metadata of a spectrum")
        h = om["spd_header"]
        for k in SPD:
            if is_sym(v.get(k)):
                prove(equal(h[k], v[k]), "header that is kept")
        expect(h["fName"] == b"x y.v2.bmp" and h["tag"] == b"MAPSPECTRA_DATA.", "texts of the header")
        expect(("spc_header" in om) is spc, "header of the spectrum")
        if line and second:
            expect(dict(om["csv_header"]) == dict([("Sample", "A"), ("Area", "B, with comma")] + [("k%d" % i, "v%d" % i) for i in range(10)]), "head of the table")
    return run


def layouts():
    """important fields lie at the same place whether the whole header is read or not, and the record has the length of the format"""
    m = load_module(U)
    for endian in "<>":
        for everything in (False, True):
            for version in (0.5, 0.61, 0.7, 0.8):
                dt = np.dtype(m.get_spc_dtype_list(everything, endian, version))
                places = {o: t for t, o, *_ in dt.fields.values()}
                for n, (o, t) in SPC.items():
                    if o:
                        expect(places.get(o) == np.dtype(endian + t), "place of " + n)
        dt = np.dtype(m.get_spd_dtype_list(endian))
        for n, (o, t) in SPD.items():
            expect(dt.fields[n][1] == o and dt.fields[n][0] == np.dtype(endian + t), "place of " + n)
        for version in (333, 334):
            dt = np.dtype(m.get_ipr_dtype_list(endian, version))
            places = {o: t for t, o, *_ in dt.fields.values()}
            for n, (o, t) in IPR.items():
                expect(places.get(o) == np.dtype(endian + t), "place of " + n)


def refused():
    m = environment({}, "<", [])
    try:
        m.file_reader("d/a.spx")
    except ValueError:
        return
    expect(False, "other files are refused")


CONTRACTS = [Contract("fields of the headers", layouts, FN[-4:-1]), Contract("other files", refused, FN[:1])]
CONTRACTS += [Contract("spectrum %s%s%s, version %s, %d elements" % (_e, ", lazy" if _l else "", ", whole header" if _a else "", _v, len(_n)),
                       spectrum(_e, _l, _a, _v, _n), FN)
              for _e in "<>" for _l in (False, True) for _a, _v, _n in ((False, 0.61, (13, 8, 13)), (False, 0.7, ()), (True, 0.61, (92,)), (True, 0.7, (14, 6)))]
for _x in ("spd", "lsd", "SPD"):
    for _e in "<>":
        for _l in (False, True):
            for _n in (1, 2, 4):
                CONTRACTS.append(Contract("%s of %d bytes %s%s" % (_x, _n, _e, ", lazy" if _l else ""), image(_x, _e, _l, _n, True, True), FN))
            for _s, _c in ((False, False), (False, True), (True, False)):
                CONTRACTS.append(Contract("%s %s%s, companions %d %d" % (_x, _e, ", lazy" if _l else "", _s, _c), image(_x, _e, _l, 2, _s, _c), FN))
            CONTRACTS.append(Contract("%s %s%s, companions given" % (_x, _e, ", lazy" if _l else ""), image(_x, _e, _l, 2, True, True, True, True), FN))
CONTRACTS += [Contract("line scan, table of %d" % _n, image("lsd", "<", False, 2, True, True, rows=_n), FN) for _n in (1, 3)]

ASSUMPTIONS = [
    "numpy.fromfile gives the records and numbers that lie at the place asked for; memmap_distributed by its contract (C01)",
    "floats are mathematical reals; csv.DictReader gives the rows of the table behind the head (read by the search)",
    "the file is as long as its header says",
    "tables of line scans have 1 to 3 rows in the contracts, any in the search",
]


def search(s):
    import logging
    import warnings
    warnings.simplefilter("ignore")
    log = logging.getLogger("rsciio.edax._api")
    level = log.level
    log.setLevel(logging.CRITICAL)
    from rsciio.edax import file_reader
    base = os.path.join(s.tmp, "c26")
    try:
        for k in range(s.n(700, 20000)):
            if not s.left():
                break
            d = os.path.join(base, "d%d" % k)
            os.makedirs(d)
            one(s, file_reader, d)
            shutil.rmtree(d)
    finally:
        log.setLevel(level)
        shutil.rmtree(base, ignore_errors=True)


def record(layout, values, end, size):
    b = bytearray(size)
    for n, v in values.items():
        o, t = layout[n]
        dt = np.dtype(end + t)
        if dt.shape:
            raw = v if isinstance(v, bytes) else np.array(v, dt.base).tobytes()
        else:
            raw = np.array(v, dt).tobytes()
        b[o:o + len(raw)] = raw
    return bytes(b)


def write_spc(path, rng, end, channels=None):
    els = [rng.choice(list(SYMBOLS)) for _ in range(rng.randint(0, 5))]
    v = {n: float(np.float32(rng.uniform(-50, 50))) for n in ("startEnergy", "endEnergy", "liveTime", "tilt", "detReso", "azimuth", "elevation", "kV")}
    n = channels or rng.randint(1, 9)
    v.update(version=rng.choice([0.5, 0.61, 0.7]), evPerChan=rng.choice([1, 5, 10, 20]), numPts=n, dataStart=rng.choice([3840, 3840, 20740, 20901]),
             numElem=len(els), at=els)
    counts = np.array([rng.choice([0, 3, 70000, 2 ** 32 - 1]) for _ in range(n)], "u4")
    b = bytearray(record(SPC, v, end, 21200))
    b[v["dataStart"]:v["dataStart"] + 4 * n] = counts.astype(end + "u4").tobytes()
    with open(path, "wb") as f:
        f.write(b)
    return v, els, counts


def one(s, file_reader, d):
    rng = s.rng
    kind, end, lazy, everything = rng.choice(["spc", "spd", "lsd"]), rng.choice("<>"), rng.random() < 0.5, rng.random() < 0.3
    ext = rng.choice([kind, kind, kind.upper()])
    stem = rng.choice(["map", "a b", "x.y", "µ"])
    path = os.path.join(d, stem + "." + ext)
    shown = os.path.relpath(path) if rng.random() < 0.4 else path
    case = dict(kind=ext, endianness=end, lazy=lazy, load_all_spc=everything, relative=shown != path, stem=stem)
    s.note(case)
    kw = dict(lazy=lazy, endianness=end, load_all_spc=everything)
    sv = None
    if kind == "spc":
        sv, els, counts = write_spc(path, rng, end)
        ndim = 1
    else:
        if rng.random() < 0.8:
            p = os.path.join(d, stem + ".spc") if rng.random() < 0.7 else os.path.join(d, "other.spc")
            sv, els, _ = write_spc(p, rng, end)
            if not p.endswith(stem + ".spc"):
                kw["spc_fname"] = p
        nx, ny, nz, nb = rng.randint(1, 5), rng.randint(1, 4) if kind == "spd" else 1, rng.randint(1, 6), rng.choice([1, 2, 4])
        n = rng.randint(1, nx) if kind == "lsd" else nx * ny
        off = rng.choice([1068, 1069, 1200])
        pic = rng.choice([b"pic.bmp", b"p.1.bmp", b"q"])
        v = dict(tag=b"MAPSPECTRA_DATA.", version=1, nSpectra=n, nPoints=nx, nLines=ny, nChannels=nz, countBytes=nb, dataOffset=off, nFrames=3, fName=pic)
        counts = np.array([rng.randrange(256 ** nb) for _ in range(nx * ny * nz)], "u%d" % nb)
        with open(path, "wb") as f:
            f.write(record(SPD, v, end, off) + counts.astype(counts.dtype.newbyteorder(end)).tobytes() + b"end")
        counts = counts.reshape(ny, nx, nz)
        case.update(header=repr(v))
        second = rng.random() < 0.7
        if kind == "lsd":
            counts, ndim = counts[0][:n], 2
            rows = [round(rng.uniform(-5, 5), 3) for _ in range(rng.choice([1, n, n + 2]))]
            if second:
                p = os.path.join(d, stem + ".csv")
                if rng.random() < 0.3:
                    kw["csv_fname"] = p = os.path.join(d, "table.txt")
                with open(p, "w", encoding="utf-8-sig") as f:
                    f.write("".join(HEAD) + COLUMNS + "".join("%r, %d\n" % (r, i) for i, r in enumerate(rows)))
                case.update(rows=rows)
        else:
            ndim = 3
            q = dict(version=rng.choice([333, 334]), mppX=float(np.float32(rng.uniform(0.01, 3))), mppY=float(np.float32(rng.uniform(0.01, 3))))
            if second:
                p = os.path.join(d, os.path.splitext(pic.decode())[0] + ".ipr")
                if rng.random() < 0.3:
                    kw["ipr_fname"] = p = os.path.join(d, "image.x")
                with open(p, "wb") as f:
                    f.write(record(IPR, q, end, 300))
                case.update(ipr=q)
    case.update(spc=repr(sv), counts=counts.tolist())
    try:
        r, = file_reader(shown, **kw)
        got = np.asarray(r["data"])
    except (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, _struct.error, UnicodeError, NotImplementedError) as e:
        s.fail("the file is read (%s: %s)" % (type(e).__name__, str(e)[:80]), case)
        return
    case["got"] = repr((got.tolist(), r["axes"], r["metadata"]))[:2000]
    s.check(hasattr(r["data"], "compute") is lazy, "lazy or not", case)
    s.check(got.shape == counts.shape and got.dtype == counts.dtype.newbyteorder(end) and np.array_equal(got, counts), "counts", case)
    ax = r["axes"]
    s.check(len(ax) == ndim and [a["size"] for a in ax] == list(counts.shape) and [a["navigate"] for a in ax] == [True] * (ndim - 1) + [False] and
            [a["index_in_array"] % ndim for a in ax] == list(range(ndim)), "an axis for each dimension", case)
    if len(ax) != ndim:
        return
    e = ax[-1]
    s.check(e["name"] == "Energy" and (e["scale"], e["units"]) == ((sv["evPerChan"] / 1000, "keV") if sv else (1, None)) and
            (not sv or e["offset"] == sv["startEnergy"]), "axis of the energy", case)
    md = r["metadata"]
    if sv:
        sem = md["Acquisition_instrument"]["SEM"]
        eds = sem["Detector"]["EDS"]
        s.check((sem["beam_energy"], sem["Stage"]["tilt_alpha"], eds["azimuth_angle"], eds["elevation_angle"], eds["energy_resolution_MnKa"],
                 eds["live_time"]) == tuple(sv[n] for n in ("kV", "tilt", "azimuth", "elevation", "detReso", "liveTime")), "metadata of the spectrum", case)
        s.check(set(md.get("Sample", {}).get("elements", [])) == {SYMBOLS[z] for z in els}, "elements", case)
    else:
        s.check("Acquisition_instrument" not in md and "Sample" not in md, "no metadata of a spectrum", case)
    s.check(md["General"]["original_filename"] == os.path.basename(path), "file name", case)
    if kind == "lsd":
        step = rows[1] - rows[0] if second and len(rows) > 1 else 1
        s.check((ax[0]["scale"], ax[0]["offset"], ax[0]["units"]) == ((step, rows[0], "nm") if second else (1, 0, None)), "axis of the line", case)
        if second:
            s.check(len(r["original_metadata"]["csv_header"]) == 12, "head of the table", case)
    elif kind == "spd":
        want = [(q["mppY"], 0, "µm"), (q["mppX"], 0, "µm")] if second else [(1, 0, None)] * 2
        s.check([(a["scale"], a["offset"], a["units"]) for a in ax[:2]] == want and [a["name"] for a in ax[:2]] == ["y", "x"], "axes of the pixels", case)
