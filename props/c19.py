"""C19: images of Digital Micrograph files have the pixels and axes the file describes."""
import itertools
import os
import shutil
import struct as _struct
import types

from .common import *

ID = "C19"
U = "rsciio/digitalmicrograph/_api.py"
P = U + ":ImageObject."
AXES = [P + f for f in ("shape", "scales", "offsets", "units", "names", "navigate", "signal_type", "get_axes_dict")]
CODES = {1: "i2", 2: "f4", 3: "c8", 6: "u1", 7: "i4", 9: "i1", 10: "u2", 11: "u4", 12: "f8", 13: "c16", 14: "?"}


def calibrated(nd, ncal, kind, spectrum, image_units, order=None):
    """axes of an image with `nd` dimensions, `ncal` of them calibrated"""
    def run():
        m = load_module(U)
        dims = [fresh_int("n%d" % k, 1, inp=True) for k in range(nd)]          # fastest first, as in the file
        units = image_units[:ncal]
        scale = [fresh_real("scale%d" % k, inp=True) for k in range(ncal)]
        origin = [fresh_real("origin%d" % k, inp=True) for k in range(ncal)]
        tags = {}
        if kind in ("EELS", "X-ray", "CL"):
            tags["Meta Data"] = {"Signal": kind}
        elif kind == "monarc":
            tags["Acquisition"] = {"Monarc Spectrometer": {"Grating": "1"}}
        elif kind in ("spim", "spim.eels"):
            tags["spim"] = {"eels": {"x": 1}} if kind == "spim.eels" else {"x": 1}
        if spectrum:
            tags.setdefault("Meta Data", {})["Format"] = spectrum
        im = {"ImageData": {
            "Dimensions": {"Data%d" % k: n for k, n in enumerate(dims)},
            "Calibrations": {"Dimension": {"TagGroup%d" % k: {"Origin": origin[k], "Scale": scale[k], "Units": units[k]} for k in range(ncal)}}},
            "ImageTags": tags}
        obj = m.ImageObject(im, None, order)
        axes = obj.get_axes_dict()
        expect(len(axes) == nd, "an axis for each dimension")
        expect(obj.order == (order or "C"), "memory order")
        stype = {"EELS": "EELS", "spim.eels": "EELS", "X-ray": "EDS_TEM", "CL": "CL", "monarc": "CL"}.get(kind, "")
        expect(obj.signal_type == stype, "signal type")
        got_units = [(units[k] or "") if k < ncal else "" for k in range(nd)]
        special = {"EELS": ("eV", "Energy loss"), "EDS_TEM": ("keV", "Energy"), "CL": ("nm", "Wavelength")}.get(stype)
        names = [None] * nd
        left = list(range(nd))
        if special and special[0] in got_units:
            # the slowest of the axes with this unit
            k = max(i for i, u in enumerate(got_units) if u == special[0])
            names[k] = special[1]
            left.remove(k)
        for k, n in zip(left, "xyz"):
            names[k] = n
        line = spectrum in ("Spectrum image", "Spectrum") or kind in ("spim", "spim.eels")
        nsig = 1 if nd == 1 or (nd == 2 and line) else 2
        for j, a in enumerate(axes):
            k = nd - 1 - j
            expect(a["index_in_array"] == j, "place of the axis")
            prove(eqi(a["size"], dims[k]), "size of the axis")
            prove(re_(a["scale"]) == (re_(scale[k]) if k < ncal else 1), "scale of the axis")
            prove(re_(a["offset"]) == (-re_(origin[k]) * re_(scale[k]) if k < ncal else 0), "offset of the axis")
            expect(a["units"] == got_units[k], "units of the axis")
            expect(a["name"] == names[k], "name of the axis")
            expect(a["navigate"] is (j < nd - nsig), "signal or navigation axis")
        expect(obj.to_spectrum is ((spectrum == "Spectrum image" or kind in ("spim", "spim.eels")) and nd > 2),
               "spectrum images are turned into spectra")
    return run


class Raw:
    """the bytes of the file, seen as elements of a type from an offset on"""

    def __init__(self, name, offset):
        self.name, self.offset, self.closed, self.at = name, offset, False, None

    def seek(self, n, *a):
        self.at = n
        return n

    def close(self):
        self.closed = True

    def vc_get(self, dtype, count=-1):
        prove(self.at is not None and eqi(self.at, self.offset), "reading begins at the place of the data")
        C().ghost["read"] = np.dtype(dtype)
        return elements((count,))


def elements(shape, order="C"):
    g = z3.Function("element", I, I)

    def fn(idx):
        lin = z3.IntVal(0)
        for i, n in (zip(idx, shape) if order == "C" else reversed(list(zip(idx, shape)))):
            lin = lin * ie(n) + i
        return g(lin)
    return SymArr.func(fn, tuple(shape), np.dtype("i8"), "elements")


def pixels(code, nd, order, lazy, endian, closed):
    def run():
        dims = [fresh_int("n%d" % k, 1, inp=True) for k in range(nd)]
        offset = fresh_int("offset", 0, inp=True)
        size = 1
        for n in dims:
            size = n * size
        seen = []

        def distributed(filename, offset=0, shape=None, dtype=None, chunks="auto", order="C", **k):
            seen.append((filename, offset, chunks))
            expect(not k, "arguments")
            C().ghost["read"] = np.dtype(dtype)
            return elements(tuple(shape), order)
        f = Raw("f.dm4", offset)
        f.closed = closed
        again = Raw("f.dm4", offset)
        m = load_module(U, {"memmap_distributed": distributed}, builtin_over={"open": lambda n, mode="r": again})
        data = {"offset": offset, "size": size, "size_bytes": size * np.dtype(CODES[code]).itemsize}
        if endian:
            data["endian"] = endian
        im = {"ImageData": {"DataType": code, "Dimensions": {"Data%d" % k: n for k, n in enumerate(dims)}, "Data": data}}
        obj = m.ImageObject(im, f, order)
        obj.filename = "f.dm4"
        chunks = ("these",)
        out = obj.get_data(lazy, chunks)
        expect(C().ghost["read"] == np.dtype(CODES[code]).newbyteorder(endian or "little"), "element type and byte order")
        if lazy:
            (fn, off, ch), = seen
            expect(fn == "f.dm4" and ch is chunks, "file and chunks are passed on")
            prove(eqi(off, offset), "reading begins at the place of the data")
        expect(out.ndim == nd, "dimensions")
        for j in range(nd):
            prove(eqi(out.shape[j], dims[nd - 1 - j]), "shape")
        idx = [fresh_int("i%d" % j, 0) for j in range(nd)]
        for i, j in zip(idx, range(nd)):
            assume(i < dims[nd - 1 - j])
        g = z3.Function("element", I, I)
        lin = z3.IntVal(0)
        seq = list(zip(idx, reversed(dims)))
        for i, n in (seq if (order or "C") == "C" else reversed(seq)):
            lin = lin * n.e + i.e
        prove(out.expr(*[i.e for i in idx]) == g(lin), "every pixel is the element at its place")
        if not lazy:
            expect(f.closed is closed and again.closed is closed, "the file is left as it was found, or closed again")
    return run


def in_memory():
    m = load_module(U)
    data = np.arange(6)
    im = {"ImageData": {"DataType": 7, "Dimensions": {"Data0": 6}, "Data": data}}
    for lazy in (False, True):
        expect(m.ImageObject(im, None).get_data(lazy) is data, "data that are there are not read again")


def listed(n, thumbs):
    """all images but the thumbnails, in their order"""
    def run():
        m = load_module(U)
        r = m.DigitalMicrographReader.__new__(m.DigitalMicrographReader)
        ims = [{"k": k} for k in range(n)]
        r.tags_dict = {"ImageList": {"TagGroup%d" % k: im for k, im in enumerate(ims)}}
        if thumbs is not None:
            r.tags_dict["Thumbnails"] = {"TagGroup%d" % j: {"ImageIndex": k} for j, k in enumerate(thumbs)}
        got = r.get_image_dictionaries()
        want = [im for k, im in enumerate(ims) if k not in (thumbs or ())]
        expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "all images but the thumbnails")
        r.tags_dict = {}
        expect(r.get_image_dictionaries() is None, "no image list")
    return run


def whole(n, lazy, order, fmt):
    """every image of a file with its own data, axes and metadata"""
    def run():
        built = []
        dims = [[fresh_int("n%d_%d" % (j, k), 1) for k in range(3)] for j in range(n)]
        ims = []
        for j in range(n):
            tags = {"k": j, "DataBar": {}}
            if fmt:
                tags["Meta Data"] = {"Format": fmt, "Signal": ("EELS", "CL", "X-ray")[j % 3]}
            ims.append({"Name": "image %d" % j if j != 1 else [], "ImageData": {
                "DataType": 7, "Dimensions": {"Data%d" % k: d for k, d in enumerate(dims[j])},
                "Data": {"offset": 0, "size": 1, "endian": "little"},
                "Calibrations": {"Dimension": {"TagGroup%d" % k: {"Origin": 0.5 * j, "Scale": 2.0, "Units": "nm"} for k in range(3)},
                                 "Brightness": {"Origin": 0.0, "Scale": 1.0, "Units": "e-"}}}, "ImageTags": tags})

        class Reader:
            def __init__(self, f):
                self.f = f
                self.tags_dict = {"ImageList": {"TagGroup%d" % j: im for j, im in enumerate(ims)}, "other": {"a": [1]}}

            def parse_file(self):
                built.append(self.f)

            def get_image_dictionaries(self):
                return ims
        asked = []

        def get_data(self, lz, chunks="auto"):
            asked.append((self.imdict.ImageTags.k, lz, chunks, self.filename, self.order))
            return "data %d" % self.imdict.ImageTags.k
        m = load_module(U, {"DigitalMicrographReader": Reader}, builtin_over={"open": lambda n_, mode="r": Opened(n_)})
        m.ImageObject.get_data = get_data
        chunks = ("these",)
        out = m.file_reader("d/f.dm4", lazy=lazy, order=order, chunks=chunks)
        expect(len(out) == n, "one signal for each image")
        expect(len(built) == 1 and asked == [(j, lazy, chunks, "d/f.dm4", order or "C") for j in range(n)], "the data of each image is read once")
        for j, r in enumerate(out):
            expect(r["data"] == "data %d" % j, "data")
            for i, a in enumerate(r["axes"]):
                prove(eqi(a["size"], dims[j][2 - i]), "axes of this image")
                expect(a["offset"] == -1.0 * j, "offset")
            g = r["metadata"]
            expect(g["General"]["title"] == ("image %d" % j if j != 1 else "") and g["General"]["original_filename"] == "f.dm4", "title and file name")
            expect(g["Signal"]["signal_type"] == (("EELS", "CL", "EDS_TEM")[j % 3] if fmt else ""), "signal type")
            o = r["original_metadata"]
            expect(o["ImageList"]["TagGroup0"]["ImageTags"]["k"] == j and set(o["ImageList"]) == {"TagGroup0"} and o["other"] == {"a": [1]},
                   "the tags of this image")
            expect(all(o is not q["original_metadata"] and o["other"] is not q["original_metadata"]["other"] and
                       r["metadata"]["General"] is not q["metadata"]["General"] for q in out if q is not r), "signals share nothing")
            expect(len(r["post_process"]) == (2 if fmt == "Spectrum image" else 1), "spectrum images are turned into spectra")
    return run


class Opened:
    def __init__(self, name):
        self.name, self.closed = name, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


# tag -> metadata, factor (None: as it is)
COMMON_MAP = {
    "Microscope Info.Voltage": ("Acquisition_instrument.%s.beam_energy", 1 / 1000),
    "Microscope Info.Stage Position.Stage Alpha": ("Acquisition_instrument.%s.Stage.tilt_alpha", None),
    "Microscope Info.Stage Position.Stage Beta": ("Acquisition_instrument.%s.Stage.tilt_beta", None),
    "Microscope Info.Stage Position.Stage X": ("Acquisition_instrument.%s.Stage.x", 1e-3),
    "Microscope Info.Stage Position.Stage Y": ("Acquisition_instrument.%s.Stage.y", 1e-3),
    "Microscope Info.Stage Position.Stage Z": ("Acquisition_instrument.%s.Stage.z", 1e-3),
    "Microscope Info.Probe Current (nA)": ("Acquisition_instrument.%s.beam_current", None),
    "Microscope Info.Illumination Mode": ("Acquisition_instrument.%s.acquisition_mode", "mode"),
    "Session Info.Specimen": ("Sample.description", "text"),
    "Session Info.Operator": ("General.authors", "text"),
    "DataBar.Acquisition Date": ("General.date", "date"),
    "DataBar.Acquisition Time": ("General.time", "time"),
}
TYPE_MAP = {
    "EELS": {"EELS.Experimental Conditions.Collection semi-angle (mrad)": ("Acquisition_instrument.TEM.Detector.EELS.collection_angle", None),
             "EELS.Experimental Conditions.Convergence semi-angle (mrad)": ("Acquisition_instrument.TEM.convergence_angle", None),
             "EELS.Acquisition.Number_of_frames": ("Acquisition_instrument.TEM.Detector.EELS.frame_number", None)},
    "X-ray": {"EDS.Detector_Info.Azimuthal_angle": ("Acquisition_instrument.TEM.Detector.EDS.azimuth_angle", None),
              "EDS.Detector_Info.Elevation_angle": ("Acquisition_instrument.TEM.Detector.EDS.elevation_angle", None),
              "EDS.Solid_angle": ("Acquisition_instrument.TEM.Detector.EDS.solid_angle", None),
              "EDS.Live_time": ("Acquisition_instrument.TEM.Detector.EDS.live_time", None),
              "EDS.Real_time": ("Acquisition_instrument.TEM.Detector.EDS.real_time", None)},
    "CL": {"CL.Acquisition.Number_of_frames": ("Acquisition_instrument.Detector.frames", None),
           "CL.Acquisition.Exposure_(s)": ("Acquisition_instrument.Detector.exposure_per_frame", None),
           "CL.Acquisition.Central_wavelength_(nm)": ("Acquisition_instrument.Spectrometer.central_wavelength", None)},
    "": {},
}


def expected_map(kind, mode, imaging, scanning):
    want = dict(COMMON_MAP)
    want.update(TYPE_MAP[kind])
    if scanning and kind in ("", "CL"):
        want["DigiScan.Sample Time"] = ("Acquisition_instrument.%s.dwell_time", 1e-6)
    if mode == "TEM":
        want["Microscope Info.Indicated Magnification"] = (
            "Acquisition_instrument.TEM." + ("camera_length" if imaging == "DIFFRACTION" else "magnification"), None)
    else:
        want["Microscope Info.Indicated Magnification"] = ("Acquisition_instrument.%s.magnification", None)
        want["Microscope Info.STEM Camera Length"] = ("Acquisition_instrument.%s.camera_length", None)
    return want


VALUES = {"text": [("a b", "a b"), ("", None)], "mode": [("TEM", "TEM"), ("STEM NANOPROBE", "STEM"), ("SEM", "SEM")],
          "date": [("2/28/2013", "2013-02-28"), ("nothing", None)], "time": [("4:41:23 PM", "16:41:23"), ("?", None)]}


def mapping_is_right(s, case, r, kind, instrument):
    mode, imaging, scanning, source = instrument
    path = "ImageList.TagGroup0.ImageTags" + (".source.Tags at creation" if source else "")
    norm = {k.replace("_", " "): v for k, v in r["mapping"].items()}
    sem = "SEM" if mode == "SEM" else "TEM"
    for k, (to, f) in expected_map(kind, mode, imaging, scanning).items():
        e = norm.get((path + "." + k).replace("_", " "))
        case = dict(case, tag=path + "." + k)
        s.check(e is not None and e[0] == (to % sem if "%s" in to else to), "place of the values of the instrument", dict(case, got=repr(e)))
        if f in VALUES:
            s.check(all(e[1](a) == b for a, b in VALUES[f]), "texts of the instrument", dict(case, got=[e[1](a) for a, b in VALUES[f]]))
        else:
            y = e[1](1250.0) if e[1] is not None else 1250.0
            s.check(abs(y - 1250.0 * (f or 1)) <= 1e-9, "values of the instrument", dict(case, value=1250.0, got=y))


def mapped(kind, mode, imaging, scanning, source):
    """where the values of the instrument go, and in which units"""
    def run():
        m = load_module(U)
        tags = {"Microscope Info": {"Voltage": 1.0}}
        if mode:
            tags["Microscope Info"]["Illumination Mode"] = mode
        if imaging:
            tags["Microscope Info"]["Imaging Mode"] = imaging
        if scanning:
            tags["DigiScan"] = {"Sample Time": 1.0}
        top = dict(tags)
        if source:
            top["source"] = {"Tags at creation": dict(tags)}
        if kind:
            top["Meta Data"] = {"Signal": kind}
        obj = m.ImageObject({"ImageTags": top, "ImageData": {}}, None)
        got = obj.get_mapping()
        path = "ImageList.TagGroup0.ImageTags" + (".source.Tags at creation" if source else "")
        sem = mode is not None and "SEM" in mode and "STEM" not in mode
        micro = "SEM" if sem else "TEM"
        norm = {k.replace("_", " "): v for k, v in got.items()}
        want = expected_map(kind, mode, imaging, scanning)
        x = fresh_real("value", inp=True)
        for k, (to, f) in want.items():
            e = norm.get((path + "." + k).replace("_", " "))
            expect(e is not None, "%s is mapped" % k)
            if e is None:
                continue
            expect(e[0] == (to % micro if "%s" in to else to), "place of %s" % k)
            if f == "text":
                expect(e[1]("a b") == "a b" and e[1]("") is None, "text of " + k)
            elif f == "mode":
                expect([e[1](a) for a in ("TEM", "STEM", "STEM NANOPROBE", "SEM")] == ["TEM", "STEM", "STEM", "SEM"], "mode of the microscope")
            elif f == "date":
                expect(e[1]("2/28/2013") == "2013-02-28" and e[1]("nothing at all") is None, "date of " + k)
            elif f == "time":
                expect(e[1]("4:41:23 PM") == "16:41:23" and e[1]("?") is None, "time of " + k)
            elif f is None:
                expect(e[1] is None, "%s is not changed" % k)
            else:
                y = re_(x) * z3.Q(1, round(1 / f))          # up to the rounding of the factor
                prove(z3.Implies(re_(x) >= 0, z3.And(re_(e[1](x)) - y <= y * z3.Q(1, 10**12), y - re_(e[1](x)) <= y * z3.Q(1, 10**12))),
                      "%s is converted" % k)
        q = got["ImageList.TagGroup0.ImageData.Calibrations.Brightness.Units"]
        first = "X-rays" if kind == "X-ray" else None
        expect(q[0] == "Signal.quantity" and q[1]("e-") == (first or "Electrons") + " (Counts)" and q[1]("") == (first or "Intensity") and
               q[1]("au") == (first or "Intensity") + " (au)", "quantity")
        expect(got["ImageList.TagGroup0.ImageData.Calibrations.Brightness.Scale"][0].endswith("gain_factor") and
               got["ImageList.TagGroup0.ImageData.Calibrations.Brightness.Origin"][0].endswith("gain_offset"), "gain")
        if kind == "EELS":
            e = norm[(path + ".EELS.Acquisition").replace("_", " ")]
            expect(e[0] == "Acquisition_instrument.TEM.Detector.EELS." + ("dwell_time" if scanning else "exposure"), "exposure or dwell time")
            prove(re_(e[1]({"Exposure_s": x, "Number_of_frames": 3})) == 3 * re_(x), "exposure of all frames")
            prove(re_(e[1]({"Exposure_s": x})) == re_(x), "exposure of one frame")
            prove(re_(e[1]({"Integration_time_s": x, "Exposure_s": 1.0})) == re_(x), "integration time")
            a = norm[(path + ".EELS_Spectrometer.Aperture_label").replace("_", " ")]
            expect(a[1]("2.5 mm") == 2.5 and a[1]("") is None and a[1]("no") is None, "aperture")
    return run


CONTRACTS = []
_units = [("nm", "nm", "eV", "s", ""), ("eV", "nm", "nm", "", "s"), ("keV", "", None, "eV", "keV"), ([], "µm", "nm", "keV", "1/nm")]
for _nd in (1, 2, 3, 4, 5):
    for _nc in range(0, _nd + 1):
        if _nd == 5 and _nc not in (0, 5):
            continue
        for _i, (_kind, _sp) in enumerate(itertools.product(("", "EELS", "X-ray", "CL", "monarc", "spim", "spim.eels"),
                                                             (None, "Spectrum", "Spectrum image", "Image"))):
            for _u in (_units if _nc else _units[:1]):
                CONTRACTS.append(Contract("axes: %d dimensions, %d calibrated, %s, %s, %s" % (_nd, _nc, _kind or "no type", _sp, "/".join(map(str, _u[:_nc]))),
                                          calibrated(_nd, _nc, _kind, _sp, _u, (None, "C", "F")[_i % 3]), AXES + [P + "to_spectrum"]))
for _c in CODES:
    for _nd in (1, 2, 3, 4):
        for _o in (None, "C", "F"):
            for _l, _cl in ((False, False), (False, True), (True, False)):
                for _e in ("little", "big", None):
                    CONTRACTS.append(Contract("pixels: type %d, %d dimensions, order %s, %s-endian%s%s" % (
                        _c, _nd, _o, _e, ", lazy" if _l else "", ", closed file" if _cl else ""),
                        pixels(_c, _nd, _o, _l, _e, _cl), [P + "get_data", P + "dtype", P + "shape"]))
CONTRACTS.append(Contract("data that are there", in_memory, [P + "get_data"]))
for _n in range(0, 5):
    for _t in [None] + [t for r in range(3) for t in itertools.combinations(range(_n), r)]:
        CONTRACTS.append(Contract("%d images, thumbnails %s" % (_n, _t), listed(_n, _t), [U + ":DigitalMicrographReader.get_image_dictionaries"]))
CONTRACTS.append(Contract("12 images, thumbnail 11", listed(12, (11,)), [U + ":DigitalMicrographReader.get_image_dictionaries"]))
for _n in (0, 1, 2, 3):
    for _l in (False, True):
        for _o in (None, "F"):
            for _f in (None, "Spectrum image", "Image"):
                CONTRACTS.append(Contract("file with %d images, %s%s, order %s" % (_n, _f, ", lazy" if _l else "", _o),
                                          whole(_n, _l, _o, _f), [U + ":file_reader", P + "get_metadata", P + "title"]))
for _k in TYPE_MAP:
    for _m in (None, "TEM", "STEM NANOPROBE", "SEM"):
        for _im in (None, "DIFFRACTION", "IMAGING"):
            for _s in (False, True):
                for _src in (False, True):
                    CONTRACTS.append(Contract("mapping: %s, %s, %s%s%s" % (_k or "no type", _m, _im, ", scanning" if _s else "", ", stack" if _src else ""),
                                              mapped(_k, _m, _im, _s, _src), [P + f for f in (
                                                  "get_mapping", "_get_mode", "_get_quantity", "_get_time", "_get_date", "_parse_string",
                                                  "_get_exposure_time")]))

ASSUMPTIONS = [
    "numpy.fromfile returns the elements of the type that lie at the position of the file (C07 shows that position to be right); memmap_distributed "
    "returns the elements of the type from the offset on, in the order asked for (C04 decides it)",
    "python-box gives back what was put into it, and finds tags whose names differ by '_' for ' '; dateutil parses dates of the program",
    "the axis of energies or wavelengths is the slowest of those with that unit; of several such axes the file does not say which one is meant",
    "RGBA images and packed complex images of type 5 are decided by the search (bounded); packed complex images of types 27 and 28 are outside "
    "the property: no documentation of their layout, and no file of that kind, is at hand",
]


class Tags:
    """independent writer of tag trees: lists are groups of (name, value)"""

    def __init__(self, version, little):
        self.v, self.e, self.little = version, "<" if little else ">", little

    def q(self, x):
        return _struct.pack(">q" if self.v == 4 else ">i", x)

    def body(self, tags):
        return self.q(len(tags)) + b"".join(self.tag(n, v) for n, v in tags)

    def tag(self, name, v):
        nb = name.encode("latin-1")
        head = _struct.pack(">h", len(nb)) + nb
        if isinstance(v, list):
            return b"\x14" + head + b"\0\1" + (self.q(7) if self.v == 4 else b"") + self.body(v)
        if isinstance(v, bool):
            info, pay = self.q(1) + self.q(8), _struct.pack("?", v)
        elif isinstance(v, int):
            info, pay = self.q(1) + self.q(3), _struct.pack(self.e + "i", v)
        elif isinstance(v, float):
            info, pay = self.q(1) + self.q(6), _struct.pack(self.e + "f", v)
        elif isinstance(v, str):
            info, pay = self.q(3) + self.q(20) + self.q(4) + self.q(len(v)), v.encode("utf-16-le" if self.little else "utf-16-be")
        else:
            t, n, pay = v
            if isinstance(t, tuple):
                info = self.q(5 + 2 * len(t)) + self.q(20) + self.q(15) + self.q(0) + self.q(len(t)) + \
                    b"".join(self.q(0) + self.q(x) for x in t) + self.q(n)
            else:
                info = self.q(3) + self.q(20) + self.q(t) + self.q(n)
        return b"\x15" + head + (b"\0" * 8 if self.v == 4 else b"") + b"%%%%" + info + pay

    def file(self, tags):
        b = b"\1\0" + self.body(tags)
        return _struct.pack(">i", self.v) + self.q(len(b)) + _struct.pack(">i", int(self.little)) + b + b"\0" * 8


ELEMENT = {1: 2, 2: 6, 3: (6, 6), 6: 10, 7: 3, 9: 10, 10: 4, 11: 5, 12: 7, 13: (7, 7), 14: 8, 8: 5, 23: 5, 5: 6}


def hermitian(rng, n):
    """the packed form of a 2n x 2n array with F(2n-i, 2n-j) = F(i, j)*, and the array"""
    full = np.zeros((2 * n, 2 * n), complex)
    vals = np.array([rng.randint(-99, 99) / 4 for _ in range(8 * n * n)]).reshape(2, 2 * n, 2 * n)
    full = vals[0] + 1j * vals[1]
    full = full + np.conjugate(np.roll(full[::-1, ::-1], (1, 1), (0, 1)))
    packed = np.zeros(4 * n * n, "f4")
    packed[0], packed[1] = full[n, 0].real, full[0, 0].real
    packed[2 * n * n], packed[2 * n * n + 1] = full[n, n].real, full[0, n].real
    # the right half, row by row, two numbers for each pixel; the left column
    # takes the place of the pixels (0, n) ... that the four real ones leave
    for i in range(2 * n):
        for j in range(n):
            p = 2 * (i * n + j)
            if (i, j) in ((0, 0), (n, 0)):
                continue
            if j == 0:
                # rows below the middle: the column in the middle; rows above: the first column of the lower half
                v = full[i, n] if i > n else full[n + i, 0]
            else:
                v = full[i, n + j]
            packed[p], packed[p + 1] = v.real, v.imag
    return packed, full.astype("c8")


def search(s):
    from rsciio.digitalmicrograph import file_reader
    tmp = tempfile_dir()
    try:
        for it in range(s.n(800, 20000)):
            if not s.left():
                break
            one(s, file_reader, os.path.join(tmp, "f.dm4"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tempfile_dir():
    import tempfile
    return tempfile.mkdtemp(prefix="c19-")


def one(s, file_reader, fn):
    rng = s.rng
    version, little = rng.choice([3, 4]), rng.random() < 0.6
    w = Tags(version, little)
    n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(11, 13)
    thumbs = sorted(rng.sample(range(n), rng.randint(0, min(2, n - 1))))
    tags, want = [], []
    for k in range(n):
        code = rng.choice(list(ELEMENT) + [2, 10])
        if not little and code in (8, 23):
            code = 2
        nd = rng.randint(1, 4)
        shape = tuple(rng.randint(1, 4) for _ in range(nd))
        dt = np.dtype(CODES.get(code, "u1"))
        if code == 5:
            h = rng.randint(2, 4)
            data, full = hermitian(rng, h)
            shape, nd = (2 * h, 2 * h), 2
        elif code in (8, 23):
            full = np.array([rng.randrange(256) for _ in range(4 * int(np.prod(shape)))], "u1").reshape(shape + (4,))
            data = full[..., [2, 1, 0, 3]]
        else:
            cnt = int(np.prod(shape)) * dt.itemsize
            data = np.frombuffer(bytes(rng.randrange(2 if code == 14 else 256) for _ in range(cnt)), dt).reshape(shape)
            full = data
        order = "C"
        raw = data.astype(data.dtype.newbyteorder(w.e)).tobytes()
        size = data.size if code in (5,) else int(np.prod(shape))
        ncal = rng.randint(0, nd) if rng.random() < 0.3 else nd
        cal = [(rng.randint(-40, 40) / 8, rng.randint(1, 40) / 8, rng.choice(["nm", "eV", "keV", "", "s", "1/nm"])) for _ in range(ncal)]
        sig, fmt = rng.choice([None, "EELS", "X-ray", "CL"]), rng.choice([None, "Spectrum image", "Spectrum", "Image"])
        meta = ([("Signal", sig)] if sig else []) + ([("Format", fmt)] if fmt else [])
        name = rng.choice(["", "image %d" % k])
        mode, imaging, scanning, source = rng.choice([None, "TEM", "STEM NANOPROBE", "SEM"]), rng.choice([None, "DIFFRACTION", "IMAGING"]), \
            rng.random() < 0.5, rng.random() < 0.2
        info = [("Microscope Info", [(x, y) for x, y in (("Illumination Mode", mode), ("Imaging Mode", imaging)) if y] + [("Voltage", 200000.0)])]
        if scanning:
            info.append(("DigiScan", [("Sample Time", 12.0)]))
        if source:
            info.append(("source", [("Tags at creation", list(info))]))
        img = [("ImageData", [
            ("Calibrations", [("Brightness", [("Origin", 0.5), ("Scale", 2.0), ("Units", "e-")]),
                              ("Dimension", [("", [("Origin", o), ("Scale", sc), ("Units", u)]) for o, sc, u in cal])]),
            ("Data", (ELEMENT[code], size, raw)), ("DataType", code), ("Dimensions", [("", d) for d in reversed(shape)]), ("PixelDepth", 4)]),
            ("ImageTags", [("k", k)] + info + ([("Meta Data", meta)] if meta else [])), ("Name", name)]
        tags.append(("", img))
        if k not in thumbs:
            want.append((code, shape, full, cal, sig, fmt, name, k, (mode, imaging, scanning, source)))
    root = [("Application Bounds", ((3, 3), 2, b"\0" * 16)), ("ImageList", tags),
            ("Thumbnails", [("", [("ImageIndex", k)]) for k in thumbs]), ("z", 3)]
    with open(fn, "wb") as f:
        f.write(w.file(root))
    lazy = rng.random() < 0.4 and not any(x[0] in (8, 23) for x in want)
    order = rng.choice([None, "C", "F"]) if all(x[0] != 5 for x in want) else None
    case = dict(version=version, little=little, lazy=lazy, order=order, images=[dict(
        type=x[0], shape=x[1], calibrations=x[3], signal=x[4], format=x[5], name=x[6], instrument=x[8]) for x in want], thumbnails=thumbs)
    s.note(case)
    try:
        out = file_reader(fn, lazy=lazy, order=order)
    except Exception as exc:  # noqa: BLE001
        s.fail("a well formed file is read", dict(case, error=repr(exc)))
    s.check(len(out) == len(want), "all images but the thumbnails", dict(case, got=len(out)))
    for r, (code, shape, full, cal, sig, fmt, name, k, instrument) in zip(out, want):
        nd = len(shape)
        d = r["data"]
        d = np.asarray(d.compute() if hasattr(d, "compute") else d)
        if order == "F" and code not in (8, 23):
            full = full.ravel().reshape(shape, order="F")
        if code in (8, 23):
            o = order or "C"
            ok = d.shape == shape and all(d[c].tobytes() == np.ascontiguousarray(full[..., i].ravel().reshape(shape, order=o)).tobytes()
                                          for i, c in enumerate("RGBA"))
        elif code == 5:
            ok = d.shape == shape and np.array_equal(d, full)
        else:
            ok = d.shape == shape and d.dtype.newbyteorder("<") == full.dtype.newbyteorder("<") and \
                d.astype(d.dtype.newbyteorder("<")).tobytes() == full.astype(full.dtype.newbyteorder("<")).tobytes()
        s.check(ok, "every pixel is the one of the file", dict(case, image=k, got=repr(d)[:300], expected=repr(full)[:300]))
        cal = list(cal) + [(0.0, 1.0, "")] * (nd - len(cal))
        nsig = 1 if nd == 1 or (nd == 2 and fmt in ("Spectrum image", "Spectrum")) else 2
        for j, a in enumerate(r["axes"]):
            og, sc, u = cal[nd - 1 - j]
            s.check((a["index_in_array"], a["size"], a["scale"], a["offset"], a["units"], a["navigate"]) ==
                    (j, shape[j], sc, -og * sc, u, j < nd - nsig), "axes are those of the file", dict(case, image=k, axis=a))
        stype = {"EELS": "EELS", "X-ray": "EDS_TEM", "CL": "CL"}.get(sig, "")
        s.check(r["metadata"]["Signal"]["signal_type"] == stype and r["metadata"]["General"]["title"] == name and
                r["original_metadata"]["ImageList"]["TagGroup0"]["ImageTags"]["k"] == k and
                r["metadata"]["General"]["original_filename"] == "f.dm4", "metadata are those of the image", dict(case, image=k, got=r["metadata"]))
        u = {"EELS": "eV", "EDS_TEM": "keV", "CL": "nm"}.get(stype)
        s.check(u is None or (u in [a["units"] for a in r["axes"]]) == any(a["name"] in ("Energy loss", "Energy", "Wavelength") for a in r["axes"]),
                "the axis of energies has its name", dict(case, image=k, axes=r["axes"]))
        mapping_is_right(s, dict(case, image=k), r, sig or "", instrument)
