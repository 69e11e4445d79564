"""C24: images saved to TIFF are read back unchanged; calibrations of the vendors go to their own axis."""
import datetime
import os
import struct
import types
import warnings

import tifffile
from pyvc import text as tx
from pyvc.text import Encoded, number

from .common import *

ID = "C24"
F = "rsciio/tiff/_api.py"
fs = lambda *names: [F + ":" + n for n in names]
WRITE = fs("file_writer", "_get_tags_dict", "_get_imagej_kwargs", "_get_resolution", "_get_dm_kwargs_extratag", "_get_scale_unit", "_encode",
           "_imagej_description")
READ = fs("file_reader", "_read_tiff", "_parse_scale_unit", "_order_axes_by_name", "_build_axes_dictionaries", "_axes_defaults", "_load_data",
          "_is_force_readable", "_is_fei", "_is_zeiss", "_is_tvips", "_is_olympus_sis", "_is_jeol_sightx", "_is_streak_hamamatsu", "_is_imagej",
          "_is_digital_micrograph", "_intensity_axis_digital_micrograph", "get_metadata_mapping")
OURS = fs("_add_axes_imagej", "_add_axes_digital_micrograph", "_get_scales_from_x_y_resolution")
UNITS = [("nm", "µm"), (None, "1/nm"), ("", ""), ("Å", "°"), ("μm", "nm"), ("Ångström", "s"), ("日", "eV"), ("m", None), ("µm", "µm"), ("px", "Å⁻¹")]


class Pixels:
    """an array, of which only the place where it comes from matters"""

    def __init__(self, shape, dtype, origin):
        self.shape, self.dtype, self.origin, self.ndim = tuple(shape), np.dtype(dtype), origin, len(shape)


def near(a, b, name, tol=z3.RatVal(1, 10 ** 12)):
    a, b = re_(a), re_(b)
    m = z3.If(b < 0, -b, b)
    prove(z3.And(a - b <= tol * m, b - a <= tol * m), name)


class Tag:
    def __init__(self, code, value):
        self.code, self.value = code, value
        self.name = {r[0]: r[1] for r in ((c, n) for c, n in NAMES.items())}.get(code, str(code))


NAMES = {256: "ImageWidth", 257: "ImageLength", 262: "PhotometricInterpretation", 270: "ImageDescription", 271: "Make", 282: "XResolution",
         283: "YResolution", 296: "ResolutionUnit", 305: "Software", 306: "DateTime", 315: "Artist", 33471: "OlympusINI", 33560: "OlympusSIS",
         34118: "CZ_SEM", 34680: "FEI_SFEG", 34682: "FEI_HELIOS", 37706: "TVIPS"}


class Tags:
    def __init__(self, d):
        self.tags = {c: Tag(c, v) for c, v in d.items()}

    def __iter__(self):
        return iter(list(self.tags.values()))

    def __getitem__(self, code):
        return self.tags[code]


class Page:
    """page of a file: has the handle of its pixels"""

    def __init__(self, tags, axes, shape, dtype, rgb=False):
        tags = dict(tags)
        tags.setdefault(262, 2 if rgb else 1)
        self.tags, self.axes, self.shape, self.dtype = Tags(tags), axes, tuple(shape), np.dtype(dtype)
        self.photometric = tifffile.PHOTOMETRIC.RGB if rgb else tifffile.PHOTOMETRIC.MINISBLACK
        codes = set(tags)
        self.is_fei, self.is_sem, self.is_tvips = bool(codes & {34680, 34682}), 34118 in codes, 37706 in codes
        self.is_sis, self.is_imagej = bool(codes & {33471, 33560}), None
        self.asked = []

    def asarray(self, out=None, **k):
        self.asked.append((out, k))
        return Pixels(self.shape, self.dtype, self)


class Series(Page):
    """several pages with one array"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pages = [types.SimpleNamespace(**{n: getattr(self, n) for n in (
            "tags", "photometric", "is_fei", "is_sem", "is_tvips", "is_sis", "is_imagej", "axes", "shape", "dtype")})]


class File:
    """contract of tifffile.TiffFile: flags and metadata are those of the first page"""

    def __init__(self, pages, series, fh=None):
        self.pages, self.series, self.closed, self.filehandle = pages, series, False, fh
        first = (pages or series)[0]
        codes = {t.code: t.value for t in first.tags}
        self.flags = set()
        for name, on in (("fei", first.is_fei), ("sem", first.is_sem), ("tvips", first.is_tvips), ("sis", first.is_sis)):
            if on:
                self.flags.add(name)
        self.fei_metadata = None
        if first.is_fei:
            self.fei_metadata = dict(codes.get(34680, {}), **codes.get(34682, {}))
        self.imagej_metadata = None
        d = codes.get(270)
        if isinstance(d, str) and d.startswith("ImageJ="):
            self.flags.add("imagej")
            self.imagej_metadata = {"ImageJ": "1.11a"}
            for line in list(d.split("\n"))[1:-1]:
                k, v = line.split("=")
                try:
                    v = v.__vc_float__() if isinstance(v, tx.Text) else float(v)
                except (ValueError, Unsupported):
                    pass
                self.imagej_metadata[k] = v

    def close(self):
        self.closed = True


class rgb:
    """contract of the colour conversions (C06)"""

    @staticmethod
    def is_rgbx(a):
        return a.dtype.names is not None

    @staticmethod
    def rgbx2regular_array(a):
        return Pixels(a.shape + (len(a.dtype.names),), a.dtype[0], a)

    @staticmethod
    def regular_array2rgbx(a):
        k = a.shape[-1]
        return Pixels(a.shape[:-1], {"names": list("RGBA")[:k], "formats": [a.dtype] * k}, a)


def environment(opened=None, **over):
    delayed = lambda f, pure=None: lambda *a, **k: ("delayed", f, a, k)
    return load_module(F, dict({"TiffFile": opened, "TiffPage": Page}, **over), np_over={"sqrt": over.pop("sqrt")} if "sqrt" in over else None,
                       patch={"rsciio.utils:rgb": rgb, "dask:delayed": delayed, "dask.array:from_delayed": lambda v, dtype=None, shape=None: (v, dtype, shape)})


class Opened:
    """TiffFile: the files by their name"""

    def __init__(self, files):
        self.files, self.kwds = files, None

    def __call__(self, name, **k):
        self.kwds = k
        return self.files[name]


# ---------------------------------------------------------------- saved and read back
DTYPES = {"u2": "u2", "f4": "f4", "rgba8": [(c, "u1") for c in "RGBA"], "rgb16": [(c, "u2") for c in "RGB"]}


def saved(nd, dtype, units, quantity, noise, when, export, axis, more, lazy, pages):
    def run():
        C().ghost["str_of"] = number
        written = []
        m = environment()
        m.imwrite = lambda *a, **k: written.append((a, k))
        shape = tuple(fresh_int("n%d" % i, 2, inp=True) for i in range(nd))
        data = Pixels(shape, DTYPES[dtype], None)
        unit = ("s",) * (nd - 2) + units
        scales, offsets = [fresh_real("scale%d" % i, inp=True) for i in range(nd)], [fresh_real("offset%d" % i, inp=True) for i in range(nd)]
        axes = [dict(name="a%d" % i, size=shape[i], scale=scales[i], offset=offsets[i], units=unit[i], navigate=i < nd - 2, index_in_array=i)
                for i in range(nd)]
        ax0 = [dict(a) for a in axes]
        md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}}
        if quantity is not None:
            md["Signal"]["quantity"] = quantity
        gain, bias = fresh_real("gain", inp=True), fresh_real("bias", inp=True)
        if noise:
            md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": gain, "gain_offset": bias}}
        md["General"].update(when[0])
        sig = dict(data=data, axes=axes, metadata=md, original_metadata={})
        extra = [(65100, "s", 1, "mine", False)]
        kw = dict(export_scale=export, **({"extratags": extra} if more else {}))
        m.file_writer("d/f.tif", sig, **kw)
        expect(axes == ax0 and all(a[k] is b[k] for a, b in zip(axes, ax0) for k in a), "the axes stay as they were")
        expect(extra == [(65100, "s", 1, "mine", False)], "the tags given stay as they were")
        expect(len(written) == 1 and len(written[0][0]) == 2 and written[0][0][0] == "d/f.tif", "one file")
        (name, img), k = written[0]
        colour = len(np.dtype(DTYPES[dtype])) > 0
        expect(img is data or colour and img.origin is data, "the pixels")
        expect(k["photometric"] == ("RGB" if colour else "MINISBLACK"), "kind of pixels")
        # what tifffile writes
        known = {"software", "photometric", "resolution", "extratags", "metadata", "datetime"}
        expect(set(k) <= known, "the options of tifffile")
        tags = {305: k["software"]}
        if "resolution" in k:
            for r in k["resolution"]:
                prove(And(re_(r) > 0, re_(r) <= 2 ** 32 - 1, re_(r) * 2 ** 32 >= 1), "the resolution fits two numbers of 32 bits")
            for r, s in zip(k["resolution"], scales[::-1]):
                lim = 2 ** 32 - 1
                prove(z3.Implies(And(s.e > 0, s.e <= lim, s.e * lim >= 1), re_(r) * s.e == 1), "pixels per unit")
            for code in (282, 283):
                tags[code] = (fresh_int("numerator", 1), fresh_int("denominator", 1))
            tags[296] = 1
        for code, typ, count, value, once in k.get("extratags", ()):
            expect(code not in tags, "every tag once")
            if typ == "s":
                if isinstance(value, bytes):
                    value = tifffile.tifffile.bytes2str(value)
            else:
                expect(typ in "di" and count == 1, "type of the tag")
            tags[code] = value
        if "datetime" in k:
            expect(type(k["datetime"]) is datetime.datetime, "date and time")
            tags[306] = k["datetime"].strftime("%Y:%m:%d %H:%M:%S")
        if export:
            expect(k["metadata"] is None, "no other description")
        if more:
            expect(not export or tags.get(65100) == "mine", "the tags given")
        code = axis[-nd:] + ("S" if colour else "")
        page = (Page if pages else Series)(tags, code, img.shape, img.dtype, colour)
        f = File([page] if pages else [], [page])
        m = environment(Opened({"d/f.tif": f}))
        (r,) = m.file_reader("d/f.tif", lazy=lazy, multipage_as_list=pages)
        expect(f.closed is not lazy, "the file stays open if, and only if, it is lazy")
        pixels(m, r, page, colour, lazy, shape, np.dtype(DTYPES[dtype]))
        expect(len(r["axes"]) == nd, "number of axes")
        for i, a in enumerate(r["axes"]):
            expect(a["size"] is shape[i], "size")
            expect(a["navigate"] is (i < nd - 2), "navigate")
            if export:
                prove(re_(a["scale"]) == scales[i].e, "scale")
                prove(re_(a["offset"]) == offsets[i].e, "offset")
                expect(a["units"] == (unit[i] or ""), "units")
            else:
                expect(a["scale"] == 1.0 and a["offset"] == 0.0 and a["units"] is None, "no calibration")
        expect([a["name"] for a in r["axes"]][-2:] == ["height", "width"], "names")
        g = r["metadata"]
        expect(g["General"] == dict({"original_filename": "f.tif"}, **when[1]), "date and time")
        n = g["Signal"].get("Noise_properties")
        if export:
            expect(g["Signal"].get("quantity") == quantity, "quantity")
            expect(bool(n) is noise, "noise properties")
            if noise:
                prove(re_(n["Variance_linear_model"]["gain_factor"]) == gain.e, "gain")
                prove(re_(n["Variance_linear_model"]["gain_offset"]) == bias.e, "gain offset")
        expect(r["mapping"] == {}, "no metadata of another program")
    return run


def pixels(m, r, page, colour, lazy, shape, dtype):
    """the data are those of the page"""
    d = r["data"]
    if lazy:
        (kind, f, a, k), dt, sh = d
        expect(kind == "delayed" and dt == dtype and len(sh) == len(shape) and all(x is y for x, y in zip(sh, shape)), "type and shape announced")
        expect(not page.asked, "nothing is read")
        d = f(*a, **k)
    expect(d.dtype == dtype and len(d.shape) == len(shape) and all(x is y for x, y in zip(d.shape, shape)), "type and shape")
    src = d.origin.origin if colour else d.origin
    expect(src is page and len(page.asked) == 1 and page.asked[0] == ("memmap" if lazy else None, {}), "pixels of the page")


CONTRACTS = []
WHENS = [({}, {}), ({"date": "2020-02-29", "time": "23:59:58"}, {"date": "2020-02-29", "time": "23:59:58"}),
         ({"date": "1999-12-01"}, {"date": "1999-12-01", "time": "00:00:00"})]
for _nd in (2, 3):
    for _d in DTYPES:
        for _l in (False, True):
            for _p in ((False, True) if _nd == 2 else (False,)):
                for _z in ("ZYX", "IYX", "TYX")[:1 if _nd == 2 else 3]:
                    for _u in UNITS if _d == "u2" and not _l else UNITS[:1]:
                        CONTRACTS.append(Contract("%d dimensions, %s, %s%s, %s, %s" % (_nd, _d, _z[-_nd:], ", lazy" if _l else "", _u,
                                                                                    "page" if _p else "series"),
                                                  saved(_nd, _d, _u, None, False, WHENS[0], True, _z, False, _l, _p), WRITE + READ + OURS))
    for _q in (None, "", "Electrons (Counts)", "µA", "日"):
        for _n in (False, True):
            for _w in WHENS:
                for _e in (False, True):
                    CONTRACTS.append(Contract("%d dimensions, quantity %r, gain %s, date %s, %s" % (_nd, _q, _n, _w[0], "calibrated" if _e else "plain"),
                                              saved(_nd, "f4", UNITS[1], _q, _n, _w, _e, "IYX", _n, False, False), WRITE + READ + OURS))


# ---------------------------------------------------------------- files of other programs
def dotted(op, path):
    for k in path.split("."):
        if not isinstance(op, dict) or k not in op:
            return None, False
        op = op[k]
    return op, True


def mapped(r):
    """metadata by the mapping, as HyperSpy applies it"""
    out = {}
    for path, to in r["mapping"].items():
        v, there = dotted(r["original_metadata"], path)
        if there:
            place, f = to
            v = f(v) if f is not None else v
            if v is not None:
                out[place] = v
    return out


def opened(tags, code, shape, colour=False, pages=False, fh=None, dtype="u1", **options):
    full = shape + ((3,) if colour else ())
    page = (Page if pages else Series)(tags, code + ("S" if colour else ""), full, dtype, colour)
    # pages hold one image each
    single = page if len(code) == 2 else Page(tags, code[-2:] + ("S" if colour else ""), full[len(code) - 2:], dtype, colour)
    f = File([page] if pages else [single], [page], fh)
    o = Opened({"d/f.tif": f})
    m = environment(o, **options.pop("over", {}))
    (r,) = m.file_reader("d/f.tif", multipage_as_list=pages, **options)
    expect(f.closed is not options.get("lazy", False), "the file is closed after reading")
    dt = np.dtype([(c, dtype) for c in "RGB"]) if colour else np.dtype(dtype)
    pixels(m, r, page, colour, options.get("lazy", False), shape, dt)
    return r


def axes_are(r, code, shape, height, width, depth=(1, None)):
    """(scale, units) of each axis"""
    want = {"Y": ("height",) + height, "X": ("width",) + width, "Z": ("depth",) + depth, "I": ("image series",) + depth, "T": ("time",) + depth}
    expect(len(r["axes"]) == len(code), "number of axes")
    for a, c, n, i in zip(r["axes"], code, shape, range(len(code))):
        name, scale, units = want[c]
        expect(a["size"] is n, "size of the " + name)
        near(a["scale"], scale, "scale of the " + name)
        expect(a["units"] == units, "units of the " + name)
        expect(a["name"] == name and a["offset"] == 0 and a["navigate"] is (i < len(code) - 2), "name, offset and kind of the " + name)


def plain(r, **general):
    g = r["metadata"]
    expect(g["General"] == dict(original_filename="f.tif", **general), "general metadata")
    expect(g["Signal"] == {"signal_type": ""}, "no signal type")


LAYOUTS = [("YX", False, False), ("YX", True, False), ("IYX", False, False), ("ZYX", True, False), ("YX", False, True)]


def sizes(code):
    return tuple(fresh_int("n" + c, 1, inp=True) for c in code)


def positive(name):
    v = fresh_real(name, inp=True)
    assume(v > 0)
    return v


def resolution():
    return {k: (fresh_int("den" + n, 1, inp=True), fresh_int("num" + n, 1, inp=True)) for k, n in ((282, "x"), (283, "y"))}


def per(tags, factor):
    """scales of height and width by the resolution"""
    return [re_(tags[c][1]) / re_(tags[c][0]) * factor for c in (283, 282)]


def both(fn):
    """for every layout of the pixels"""
    return [(("%s%s%s" % (c, ", colour" if k else "", ", pages" if p else "")), (lambda c=c, k=k, p=p: fn(c, k, p))) for c, k, p in LAYOUTS]


def fei(kind, tag, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        w, h, d, hv, wd, cur = [positive(n) for n in ("width", "height", "dwell", "hv", "wd", "current")]
        x, y, z, rot, tilt = [fresh_real(n, inp=True) for n in "xyzrt"]
        md = {"Beam": {"HV": hv}, "EBeam": {"BeamCurrent": cur}, "System": {"SystemType": "Helios"},
              "Stage": {"StageX": x, "StageY": y, "StageZ": z, "StageR": rot, "StageT": tilt, "WorkingDistance": wd},
              "User": {"Date": "06/13/2016", "Time": "05:06:40 PM", "User": "me"}, "Image": {"ResolutionX": shape[-1], "ResolutionY": shape[-2]}}
        if kind == "Scan":
            md["Scan"] = {"PixelWidth": w, "PixelHeight": h, "Dwelltime": d}
        elif kind == "IRBeam":
            md["IRBeam"] = {"HFW": w, "VFW": h}
        elif kind == "broken":
            md["Scan"] = {"Dwelltime": d}
            md["Beam"]["HV"] = md["EBeam"]["BeamCurrent"] = md["Stage"]["WorkingDistance"] = ""
        tags = {tag: md}
        if tag == 34680:
            tags[305] = "FEI"
        r = opened(tags, code, shape, colour, pages)
        if kind == "Scan":
            cal = (h, "m"), (w, "m")
        elif kind == "IRBeam":
            cal = (h / shape[-2], "m"), (w / shape[-1], "m")
        else:
            cal = (1, None), (1, None)
        axes_are(r, code, shape, *cal)
        plain(r)
        op = r["original_metadata"]
        expect(op["fei_metadata"] == md and "FEI_HELIOS" not in op and "FEI_SFEG" not in op, "metadata of the file")
        got = mapped(r)
        S = "Acquisition_instrument.SEM."
        want = {S + "Stage.x": x, S + "Stage.y": y, S + "Stage.z": z, S + "Stage.rotation": rot, S + "Stage.tilt": tilt}
        if kind != "broken":
            want.update({S + "beam_energy": hv / 1000, S + "working_distance": wd * 1000, S + "beam_current": cur * 10 ** 9})
        if kind in ("Scan", "broken"):
            want[S + "dwell_time"] = d
        text = {S + "microscope": "Helios", "General.date": "2016-06-13", "General.time": "17:06:40", "General.authors": "me"}
        same(got, want, text)
    return run


def same(got, want, text):
    expect(set(got) == set(want) | set(text), "the values of the instrument, and no others")
    for k, v in want.items():
        if k in got:
            near(got[k], v, k)
    for k, v in text.items():
        expect(got.get(k) == v, k)


class Unit:
    """contract of pint: quantities are converted by the factors of their units"""
    FACTOR = {"m": 0, "mm": -3, "µm": -6, "um": -6, "nm": -9, "pm": -12, "s": 0, "ms": -3, "µs": -6, "ns": -9, "A": 0, "mA": -3, "nA": -9, "pA": -12, "cm": -2}

    def __init__(self, text):
        self.text = text

    def __rmul__(self, v):
        return types.SimpleNamespace(to=lambda u: types.SimpleNamespace(
            magnitude=mk_real(re_(v) * z3.RealVal(10 ** 20) * z3.RatVal(1, 10 ** (20 - self.FACTOR[self.text] + self.FACTOR[u])))))


def zeiss(length, time, current, full, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        px = positive("pixel")
        kv, mag, rot, tilt, x, y, z, wd, dwell, cur = [fresh_real(n, inp=True) for n in ("kv", "mag", "r", "t", "x", "y", "z", "wd", "dwell", "current")]
        sem = {"": (0, 1, 2, px, 4, 5), "ap_mag": ("Mag", "50.00 K X" if not full else mag), "ap_actualkv": ("EHT", kv, "kV")}
        want = {"beam_energy": kv}
        text = {}
        if full:
            sem.update({"ap_stage_at_x": ("Stage at X", x, length), "ap_stage_at_y": ("Stage at Y", y, length), "ap_stage_at_z": ("Stage at Z", z, length),
                        "ap_stage_at_r": ("Stage at R", rot, "°"), "ap_stage_at_t": ("Stage at T", tilt, "°"), "ap_wd": ("WD", wd, length),
                        "dp_dwell_time": ("Dwell Time", dwell, time), "ap_iprobe": ("I Probe", cur, current), "dp_detector_type": ("Detector", "SE2"),
                        "sv_serial_number": ("Serial No.", "Merlin-1"), "ap_date": ("Date", "23 Dec 2015"), "ap_time": ("Time", "9:40:32"),
                        "sv_user_name": ("User Name", "ME")})
            e = Unit.FACTOR
            to = lambda v, a, b: mk_real(re_(v) * z3.RealVal(10 ** 20) * z3.RatVal(1, 10 ** (20 - e[a] + e[b])))
            want.update({"magnification": mag, "Stage.x": to(x, length, "mm"), "Stage.y": to(y, length, "mm"), "Stage.z": to(z, length, "mm"),
                         "Stage.rotation": rot, "Stage.tilt": tilt, "working_distance": to(wd, length, "mm"), "dwell_time": to(dwell, time, "s"),
                         "beam_current": to(cur, current, "nA")})
            text = {"General.date": "2015-12-23", "General.time": "09:40:32", "General.authors": "ME", "Acquisition_instrument.SEM.microscope": "Merlin-1",
                    "Acquisition_instrument.SEM.Detector.detector_type": "SE2"}
        else:
            text = {"Acquisition_instrument.SEM.magnification": "50.00 K X"}
        r = opened({34118: sem}, code, shape, colour, pages, over={})
        f = px * 1024 / shape[-1]
        axes_are(r, code, shape, (f, "m"), (f, "m"))
        plain(r)
        got = mapped(r)
        expect(set(got) == {"Acquisition_instrument.SEM." + k for k in want} | set(text), "the values of the instrument, and no others")
        for k, v in want.items():
            near(got["Acquisition_instrument.SEM." + k], v, k, z3.RatVal(1, 10 ** 6))
        for k, v in text.items():
            expect(got.get(k) == v, k)
    return run


def tvips(kind, mode, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        w, h, mag, exp, ht = [positive(n) for n in ("width", "height", "mag", "exposure", "ht")]
        stage = [fresh_real("stage%d" % i, inp=True) for i in range(5)]
        md = {"TemMagnification": mag, "CameraType": "F416", "ExposureTime": exp, "TemHighTension": ht, "Comment": "note" if kind == 2 else "",
              "Date": 132122901, "Time": 3661, "TemStagePosition": stage}
        if mode is not None:
            md["TemMode"] = mode
        tags = {37706: md}
        if kind == 2:
            md.update(PixelSizeX=w, PixelSizeY=h)
            cal = (h, "nm"), (w, "nm")
        else:
            tags.update(resolution())
            a, b = per(tags, z3.RatVal(1, 100))
            cal = (mk_real(a), "m"), (mk_real(b), "m")
        r = opened(tags, code, shape, colour, pages)
        axes_are(r, code, shape, *cal)
        plain(r)
        got = mapped(r)
        T = "Acquisition_instrument.TEM."
        st = got.pop(T + "Stage", None)
        expect(st is not None and set(st) == {"x", "y", "z", "tilt_alpha", "tilt_beta"}, "position of the stage")
        for k, v in zip(("x", "y", "z"), stage):
            near(st[k], v * 1000, "stage " + k)
        expect(st["tilt_alpha"] is stage[3] and st["tilt_beta"] is stage[4], "tilt of the stage")
        text = {T + "Detector.Camera.name": "F416", "General.time": "1:01:01"}
        if kind == 2:
            text["General.notes"] = "note"
        same(got, {T + ("camera_length" if mode == 3 else "magnification"): mag, T + "Detector.Camera.exposure": exp / 1000,
                   T + "beam_energy": ht / 1000}, text)
    return run


def olympus(tag, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        w, h, mag = positive("width"), positive("height"), positive("mag")
        assume(w >= 1e-13)
        assume(h >= 1e-13)
        md = {"pixelsizex": w, "pixelsizey": h, "magnification": mag, "cameraname": "Veleta"}
        r = opened({33471: {"Dimension": {"X": 1}}, 33560: md} if tag is None else {tag: md}, code, shape, colour, pages)
        half = z3.RatVal(6, 10 ** 16)
        for name, v in (("height", h), ("width", w)):
            (a,) = [a for a in r["axes"] if a["name"] == name]
            prove(And(re_(a["scale"]) - v.e <= half, v.e - re_(a["scale"]) <= half), "scale of the " + name)
            expect(a["units"] == "m" and a["offset"] == 0 and a["size"] is shape[code.index(name[0] == "h" and "Y" or "X")], "units and size of the " + name)
        plain(r)
        expect(r["original_metadata"]["Olympus_SIS_metadata"] is md, "metadata of the file")
        T = "Acquisition_instrument.TEM."
        same(mapped(r), {T + "magnification": mag}, {T + "Detector.Camera.name": "Veleta"})
    return run


def forced(unit, other, code, colour, pages):
    """asked for: the resolution of the file, in whatever file"""
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        tags = dict(resolution())
        if unit is not None:
            tags[296] = unit
        if other == "ImageJ":
            tags[270] = "ImageJ=1.52\nunit=nm\nspacing=3.0\n"
        elif other == "DM":
            tags.update({65003: "nm", 65004: "nm", 65009: 3.0, 65010: 5.0})
        r = opened(tags, code, shape, colour, pages, force_read_resolution=True)
        if unit in (2, 3):
            a, b = per(tags, 25400 if unit == 2 else 10000)
            axes_are(r, code, shape, (mk_real(a), "µm"), (mk_real(b), "µm"))
        elif unit == 1:
            axes_are(r, code, shape, (1, None), (1, None))
        plain(r)
        expect(r["mapping"] == {}, "no metadata of another program")
    return run


def imagej(unit, spacing, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        tags = dict(resolution())
        step = positive("spacing")
        d = "ImageJ=1.52\n"
        if unit:
            d = d + "unit=%s\n" % unit
        if spacing:
            d = d + "spacing=" + number(step) + "\n"
        tags[270] = d
        r = opened(tags, code, shape, colour, pages)
        a, b = per(tags, 1) if unit else (1, 1)
        u = {"micron": "µm", "\\u00B5m": "µm", "angstrom": "Å"}.get(unit, unit)
        axes_are(r, code, shape, (mk_real(a), u) if unit else (1, None), (mk_real(b), u) if unit else (1, None), (step if spacing else 1, None))
        plain(r)
        expect(r["mapping"] == {}, "no metadata of another program")
    return run


def micrograph(have, code, colour, pages):
    """tags of DigitalMicrograph, some of which can be missing"""
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        num = {k: fresh_real("tag%d" % k, inp=True) for k in (65006, 65007, 65008, 65009, 65010, 65011, 65024, 65025)}
        text = {65003: "nm", 65004: "µm", 65005: "s", 65022: "e-"}
        tags = {k: v for k, v in list(num.items()) + list(text.items()) if k in have}
        r = opened(tags, code, shape, colour, pages)
        for a, c, n in zip(r["axes"], code, shape):
            i = {"X": 0, "Y": 1}.get(c, 2)
            near(a["scale"], num[65009 + i] if 65009 + i in have else 1, "scale")
            near(a["offset"], num[65006 + i] if 65006 + i in have else 0, "offset")
            expect(a["units"] == (text[65003 + i] if 65003 + i in have else None) and a["size"] is n, "units and size")
        s = r["metadata"]["Signal"]
        expect(s.get("quantity") == ("e-" if 65022 in have else None), "quantity")
        n = s.get("Noise_properties")
        expect((n is not None) is (65024 in have and 65025 in have), "noise properties")
        if n:
            n = n["Variance_linear_model"]
            expect(n["gain_factor"] is num[65025] and n["gain_offset"] is num[65024], "gain")
    return run


SIGHTX = """<TemReporter><Instruments>JEM</Instruments><Eos><EosMode>%(eos)s</EosMode></Eos><IlluminationSystem><ImageField>ill-BF</ImageField></IlluminationSystem>
<ImageFormingSystem><ModeString>%(mode)s</ModeString><SelectorString>%(sel)s</SelectorString><SelectorValue>%(value)s</SelectorValue><SelectorUnitString>%(unit)s</SelectorUnitString>
<ImageFormingMode>ifm-SAMAG</ImageFormingMode><ScanningImageFormingMode>ifm-ALIGN</ScanningImageFormingMode></ImageFormingSystem>
<ElectronGun><AccelerationVoltage>%(ht)s</AccelerationVoltage><BeamCurrent>12.5</BeamCurrent></ElectronGun>
<GonioStage><StagePosition><TX>1.5</TX><TY>2.5</TY></StagePosition><MZ>3000000</MZ></GonioStage><DateTime>2022-03-04T05:06:07.1234567+09:00</DateTime></TemReporter>"""


def jeol(eos, mode, value, unit, ht, res, code, colour, pages):
    def run():
        C().ghost["str_of"] = number
        shape = sizes(code)
        sel = "x%s" % value
        tags = dict(resolution())
        tags.update({296: res, 271: "JEOL Ltd.", 306: "2022-03-04T05", 270: SIGHTX % dict(eos=eos, mode=mode, value=value, unit=unit, ht=ht, sel=sel) + "\r\n\x00"})
        r = opened(tags, code, shape, colour, pages)
        metre = z3.RatVal(254, 10000) if res == 2 else z3.RatVal(1, 100)
        if eos == "eosTEM" and mode == "MAG":
            a, b = per(tags, metre * 10 ** 9 / int(value))
            cal = (mk_real(a), "nm"), (mk_real(b), "nm"), (1, "nm")
        elif eos == "eosTEM" and mode == "DIFF":
            length = float(value) / {"mm": 1000, "cm": 100, "m": 1}[unit]
            p = 2 * 9.1093837015e-31 * 1.602176634e-19 * float(ht) * (1 + 1.602176634e-19 * float(ht) / (2 * 9.1093837015e-31 * 299792458.0 ** 2))
            lam = 6.62607015e-34 / np.sqrt(p) * 1e9
            a, b = per(tags, metre / re_(float(length * lam)))
            cal = (mk_real(a), "1 / nm"), (mk_real(b), "1 / nm"), (1, None)
        else:
            cal = (1, None), (1, None)
        axes_are(r, code, shape, *cal)
        g = r["metadata"]["General"]
        expect(g == {"original_filename": "f.tif", "date": "2022-03-04", "time": "05:06:07.123456", "time_zone": "+09:00", "title": g.get("title")}, "date and time")
        stem = eos == "modeASID"
        expect(g["title"] == ("STEM" if stem else "TEM") + ", BF, " + ("ALIGN" if stem else "SAMAG") + ", " + sel, "title")
        got = mapped(r)
        T = "Acquisition_instrument.TEM."
        expect(float(got.pop(T + ("camera_length" if mode == "DIFF" else "magnification"), "nan")) == float(value), "magnification or camera length")
        for k in ("Stage.tilt_alpha", "Stage.tilt_beta"):
            got[T + k] = float(got.get(T + k, "nan"))
        same(got, {T + "beam_energy": float(ht) / 1000, T + "beam_current": 0.0125, T + "Stage.z": 3.0, T + "Stage.tilt_alpha": 1.5, T + "Stage.tilt_beta": 2.5},
             {T + "microscope": "JEM",
              T + "acquisition_mode": "STEM" if eos == "eosASID" else "TEM"})
    return run


def several(pages, lazy):
    """every image of the file, with its own metadata"""
    def run():
        n, k = sizes("YX"), sizes("YX")
        a, b, c = Page({65100: "a"}, "YX", n, "u1"), Page({65100: "b"}, "YX", k, "u2"), Page({65100: "c"}, "YX", k, "u2")
        s = Series({65100: "s"}, "IYX", (2,) + k, "u2")
        f = File([a, b, c], [Series({65100: "a"}, "YX", n, "u1"), s])
        o = Opened({"d/f.tif": f})
        m = environment(o)
        out = m.file_reader("d/f.tif", lazy=lazy, multipage_as_list=pages, is_ome=False)
        expect(o.kwds == {"is_ome": False}, "the options of tifffile")
        want = [a, b, c] if pages else f.series
        expect(len(out) == len(want), "every image")
        for r, p in zip(out, want):
            expect(r["original_metadata"]["65100"] == p.tags[65100].value, "tags of the image")
            d = r["data"]
            if lazy:
                d = d[0][2][0]
                expect(d is p, "pixels of the image")
            else:
                expect(d.origin is p and d.shape == p.shape and d.dtype == p.dtype, "pixels of the image")
            expect([x["size"] for x in r["axes"]] == list(p.shape) and len(r["axes"]) == len(p.shape), "axes of the image")
        expect(f.closed is not lazy, "the file is closed after reading")
    return run


def dates():
    """other ways to write the date"""
    for text, more, want in (("2020:01:02 03:04:05", {}, {"date": "2020-01-02", "time": "03:04:05"}), ("2020/01/02 03:04", {}, {"date": "2020-01-02", "time": "03:04:00"}),
                             ("2020/01/02 03:04", {270: "text"}, {"date": "2020-01-02", "time": "03:04:00"}), ("2020:01:02 03:04:05", {270: "text"}, {"date": "2020-01-02", "time": "03:04:05"}),
                             ("yesterday", {}, {}), ("yesterday", {270: "text"}, {}), ("", {}, {})):
        r = opened({306: text, **more}, "YX", sizes("YX"))
        plain(r, **want)


def streak(kind, focus, other):
    def run():
        from unittest import mock
        n = (3, 4)
        xax, yax = np.array([10.0, 10.5, 11.0, 11.5]), np.array([0.0, 1.0, 4.0])
        desc = '[Scaling],ScalingXUnit="nm",ScalingYUnit="ps",ScalingXScalingFile="%s",ScalingYScalingFile="%s"\r\n[Camera],Name="ORCA",X=1=2' % (
            "Other" if other else "#1284,0004", "Focus mode" if focus else "#2048,0003")
        asked = []

        class Handle:
            at = None

            def seek(self, a, w=0):
                self.at = a if w == 0 else None

        fh = Handle()

        def fromfile(f, dtype=None, count=-1):
            expect(f is fh and np.dtype(dtype) == np.float32, "values of the axis")
            asked.append((fh.at, count))
            return {1284: xax, 2048: yax}[fh.at].astype("f4")
        fits = []

        def polyfit(x, y, deg):
            fits.append((list(x), list(y), deg))
            return np.arange(deg, -1, -1) + len(list(y)) * 10.0
        # the part of numpy that reads and fits is stood for
        m = load_module(F, {"TiffFile": None, "TiffPage": Page}, np_over={"fromfile": fromfile, "polyfit": polyfit}, patch={"rsciio.utils:rgb": rgb})
        page = Page({256: 4, 257: 3, 270: desc, 305: "HPD-TA 9", 315: "Copyright Hamamatsu, 2018", 306: "2020/01/02 03:04"}, "YX", n, "u2")
        f = File([page], [page], fh)
        m.TiffFile = Opened({"d/f.tif": f})
        w = []
        m.warnings = types.SimpleNamespace(warn=lambda *a, **k: w.append(a))
        (r,) = m.file_reader("d/f.tif", hamamatsu_streak_axis_type=kind)
        expect(bool(w) is (kind is None), "warning if, and only if, the axis is linearised unasked")
        x, y = np.arange(4) if other else xax, np.arange(3) if focus else yax
        h, v = r["axes"]
        expect(v["name"] == "width" and v["units"] == "nm" and v["size"] == 4 and (v["scale"], v["offset"]) == (41.0, 40.0), "axis of the width")
        expect(h["name"] == "height" and h["units"] == "ps", "axis of the height")
        expect(fits[0] == ([0, 1, 2, 3], list(x), 1), "the line of the width")
        if kind == "data":
            expect(list(h["axis"]) == list(y) and "scale" not in h and len(fits) == 1, "values of the height")
        elif kind == "functional":
            expect(fits[1] == ([0, 1, 2], list(y), 3) and [h[c] for c in "abcd"] == [33.0, 32.0, 31.0, 30.0] and h["size"] == 3 and
                   h["expression"] == "a*x**3+b*x**2+c*x+d" and h["x"] == {"scale": 1, "offset": 0, "size": 3}, "function of the height")
        else:
            expect(fits[1] == ([0, 1, 2], list(y), 1) and (h["scale"], h["offset"], h["size"]) == (31.0, 30.0, 3), "line of the height")
        expect(set(asked) == ({(1284, 4)} if not other else set()) | ({(2048, 3)} if not focus else set()), "places of the axes")
        p = r["original_metadata"]["ImageDescriptionParsed"]
        expect(list(p["Scaling"]["ScalingXaxis"]) == list(x) and list(p["Scaling"]["ScalingYaxis"]) == list(y) and p["Camera"] == {"Name": "ORCA"}, "metadata of the file")
        g = r["metadata"]["General"]
        expect(g == {"original_filename": "f.tif", "date": "2020-01-02", "time": "03:04:00"}, "date and time")
    return run


def not_streak():
    """files that are like those of Hamamatsu are plain"""
    for more in ({315: "Somebody", 305: "HPD-TA 9"}, {315: "Copyright Hamamatsu"}, {305: "HPD-TA 9"}, {315: "Copyright Hamamatsu", 305: "other"}):
        shape = sizes("YX")
        r = opened(more, "YX", shape)
        axes_are(r, "YX", shape, (1, None), (1, None))
        plain(r)
        expect("ImageDescriptionParsed" not in r["original_metadata"], "nothing of the streak camera")
    for kind in ("", "x", "Data"):
        try:
            opened({}, "YX", sizes("YX"), hamamatsu_streak_axis_type=kind)
        except ValueError:
            continue
        expect(False, "other types of axis are refused")


CONTRACTS.append(Contract("files that are no streak", not_streak, READ))


def family(name, make, funcs):
    for c, k, p in LAYOUTS:
        CONTRACTS.append(Contract("%s, %s%s%s" % (name, c, ", colour" if k else "", ", pages" if p else ""), make(c, k, p), READ + funcs))


for _t in (34682, 34680):
    for _k in ("Scan", "IRBeam", "none", "broken"):
        family("FEI %d %s" % (_t, _k), lambda c, k, p, a=_k, b=_t: fei(a, b, c, k, p),
               fs("_axes_fei", "_parse_beam_current_FEI", "_parse_beam_energy_FEI", "_parse_working_distance_FEI"))
for _l, _t, _c in (("mm", "ns", "pA"), ("µm", "µs", "nA"), ("nm", "ms", "A"), ("m", "s", "mA")):
    family("Zeiss %s" % _l, lambda c, k, p, a=(_l, _t, _c): zeiss(*a, True, c, k, p), fs("_axes_zeiss", "_parse_tuple_Zeiss", "_parse_tuple_Zeiss_with_units"))
family("Zeiss, few values", lambda c, k, p: zeiss("mm", "s", "A", False, c, k, p), fs("_axes_zeiss", "_parse_tuple_Zeiss", "_parse_tuple_Zeiss_with_units"))
for _v in (1, 2):
    for _m in (None, 1, 3):
        family("TVIPS version %d, mode %s" % (_v, _m), lambda c, k, p, a=_v, b=_m: tvips(a, b, c, k, p),
               fs("_axes_tvips", "get_tvips_mapping", "_parse_tvips_time", "_parse_tvips_date", "_parse_string", "_get_scales_from_x_y_resolution"))
for _t in (33471, 33560, None):
    family("Olympus %s" % _t, lambda c, k, p, a=_t: olympus(a, c, k, p), fs("_axes_olympus_sis"))
for _u in (None, 1, 2, 3):
    for _o in ("", "ImageJ", "DM"):
        if _u is None and _o or _o == "DM":
            continue
        family("resolution asked for, unit %s %s" % (_u, _o), lambda c, k, p, a=_u, b=_o: forced(a, b, c, k, p),
               fs("_axes_force_read", "_get_scales_from_x_y_resolution"))
for _u in (None, "micron", "nm", "\\u00B5m", "angstrom", "inch", "1/nm"):
    for _s in (False, True):
        family("ImageJ unit %s%s" % (_u, ", spacing" if _s else ""), lambda c, k, p, a=_u, b=_s: imagej(a, b, c, k, p), OURS)
_ALL = (65003, 65004, 65005, 65006, 65007, 65008, 65009, 65010, 65011, 65022, 65024, 65025)
for _h in [_ALL, ()] + [tuple(t for t in _ALL if t != x) for x in _ALL] + [(x,) for x in _ALL]:
    family("DigitalMicrograph %s" % ("%d tags" % len(_h) if len(_h) != 11 else "without %d" % (set(_ALL) - set(_h)).pop()) + (" %d" % _h[0] if len(_h) == 1 else ""),
           lambda c, k, p, a=_h: micrograph(a, c, k, p), OURS)
for _e, _m, _v, _u in (("eosTEM", "MAG", "50000", "X"), ("eosTEM", "DIFF", "200", "mm"), ("eosTEM", "DIFF", "20", "cm"), ("eosTEM", "DIFF", "2", "m"),
                       ("modeASID", "MAG", "1000", "X"), ("eosASID", "DIFF", "80", "mm"), ("eosTEM", "LOW", "100", "X")):
    for _t in ("200000", "80000"):
        for _r in (2, 3):
            family("JEOL %s %s %s, %s V, unit %d" % (_e, _m, _u, _t, _r), lambda c, k, p, a=(_e, _m, _v, _u, _t, _r): jeol(*a, c, k, p),
                   fs("_axes_jeol_sightx", "get_jeol_sightx_mapping", "_get_scales_from_x_y_resolution"))
for _p in (False, True):
    for _l in (False, True):
        CONTRACTS.append(Contract("several images%s%s" % (", pages" if _p else "", ", lazy" if _l else ""), several(_p, _l), READ))
CONTRACTS.append(Contract("dates", dates, READ))
for _k in (None, "uniform", "data", "functional"):
    for _f in (False, True):
        for _o in (False, True):
            CONTRACTS.append(Contract("Hamamatsu %s%s%s" % (_k, ", focus mode" if _f else "", ", other" if _o else ""), streak(_k, _f, _o),
                                      READ + fs("_axes_hamamatsu_streak", "_get_hamamatsu_streak_description")))

ASSUMPTIONS = [
    "tifffile stores the pixels, tags and options that it is given, reads them from the same pages, and flags the formats by their tags "
    "(contract in the classes Page and File; the search runs tifffile itself); text of tags is decoded as UTF-8, else cp1252",
    "the colour conversions keep the pixels (C06); dask calls the function that it is given when it computes",
    "numbers written with str() are read as the same number by float(); float arithmetic is exact (scales to 1e-12, rounded ones to their digits)",
    "pint converts lengths, times and currents by the factors of their prefixes; dateutil and numpy.polyfit do what they say",
    "units, quantities, dates and the text of XML descriptions are listed texts; stacks have two or more images (a single image, or more than three "
    "dimensions, are stored folded)",
]


# ---------------------------------------------------------------- concrete files
def text_of(x):
    return tifffile.tifffile.bytes2str(x)


def number_of(rng):
    return rng.choice([rng.uniform(1e-3, 1e3), 10 ** rng.uniform(-12, 12), 1.0, 0.1, 1e-9, 2.5e-10, 1 / 3, 5e10, 1e-30, 3, -0.5, -2.0])


def close_to(a, b, tol=1e-9):
    return isinstance(a, (int, float, np.number)) and abs(a - b) <= tol * abs(b)


def rand_saved(s, path, api):
    rng = s.rng
    nd = rng.choice([2, 2, 3])
    kind = rng.choice(["u1", "i1", "u2", "i2", ">u2", "u4", "i4", "u8", "i8", "f2", "f4", "f8", "?", "rgb8", "rgba8", "rgb16", "rgba16", "c8"])
    shape = tuple(rng.choice([2, 3, 4, 5, 7]) if i < nd - 2 else rng.choice([1, 2, 3, 4, 5, 16, 33]) for i in range(nd))
    if kind.startswith("rgb"):
        comp = "u1" if kind.endswith("8") else "u2"
        dt = np.dtype([(c, comp) for c in ("RGBA" if "a" in kind else "RGB")])
        shape = tuple(max(n, 2) for n in shape)
    else:
        dt = np.dtype(kind)
    data = np.frombuffer(bytes(rng.getrandbits(8) for _ in range(int(np.prod(shape)) * dt.itemsize)), dt)
    if dt.kind in "fc":
        data = np.where(np.isfinite(data), data, 0).astype(dt)
    if dt.kind == "b":
        data = np.frombuffer(bytes(rng.getrandbits(1) for _ in range(int(np.prod(shape)))), dt)
    data = data.reshape(shape)
    unit = lambda: rng.choice([None, "", "nm", "µm", "1/nm", "Å", "°", "s", "eV", "μm", "Ångström", "日", "m", "px", "mrad"])
    axes = [dict(name="a%d" % i, size=shape[i], scale=number_of(rng), offset=rng.choice([0, 0.0, -3.5, number_of(rng)]), units=unit(),
                 navigate=i < nd - 2, index_in_array=i) for i in range(nd)]
    md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}}
    if rng.random() < 0.4:
        md["Signal"]["quantity"] = rng.choice(["Electrons (Counts)", "", "µA", "日", "e-"])
    if rng.random() < 0.4:
        md["Signal"]["Noise_properties"] = {"Variance_linear_model": {
            "gain_factor": rng.choice([0, number_of(rng)]), "gain_offset": rng.choice([0, 0.0, number_of(rng)])}}
    when = {}
    if rng.random() < 0.6:
        when["date"] = "%04d-%02d-%02d" % (rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29))
        if rng.random() < 0.7:
            when["time"] = "%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60))
    md["General"].update(when)
    return data, axes, md, when


def check_saved(s, path, api):
    rng = s.rng
    data, axes, md, when = rand_saved(s, path, api)
    export, lazy, extra = rng.random() < 0.9, rng.random() < 0.3, rng.random() < 0.3
    kw = dict(export_scale=export) if rng.random() < 0.5 or not export else {}
    if extra:
        kw["extratags"] = [(65100, "s", 1, "mine", False)]
    pages = data.ndim == 2 and rng.random() < 0.3
    case = dict(shape=data.shape, dtype=str(data.dtype), axes=repr(axes), metadata=repr(md), export_scale=export, lazy=lazy, multipage_as_list=pages)
    s.note(case)
    sig = dict(data=data, axes=[dict(a) for a in axes], metadata=md, original_metadata={})
    md0 = repr(md)
    try:
        api.file_writer(path, sig, **kw)
        (r,) = api.file_reader(path, lazy=lazy, multipage_as_list=pages)
        if lazy:
            s.check(r["data"].dtype.newbyteorder("=") == data.dtype.newbyteorder("=") and r["data"].shape == data.shape, "type and shape announced by lazy data", case)
            r = dict(r, data=r["data"].compute())
    except (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, struct.error, UnicodeError, OverflowError, ZeroDivisionError,
            tifffile.TiffFileError) as e:
        s.fail("images are saved and read (%s: %s)" % (type(e).__name__, str(e)[:60]), case)
        return
    s.check(sig["axes"] == axes and repr(sig["metadata"]) == md0, "saving leaves the signal as it was", case)
    got = np.asarray(r["data"])
    case["got"] = repr((got.shape, str(got.dtype), r["axes"], r["metadata"]))[:1500]
    same_ = got.shape == data.shape and got.dtype.newbyteorder("=") == data.dtype.newbyteorder("=")
    s.check(same_ and (got == data).all(), "the pixels", case)
    s.check(len(r["axes"]) == data.ndim, "number of axes", case)
    for i, (a, b) in enumerate(zip(r["axes"], axes)):
        s.check(a["size"] == b["size"] and a["navigate"] is (i < data.ndim - 2), "size and kind of the axes", case)
        if export:
            s.check(a["scale"] == b["scale"], "scale of the axes", case)
            s.check(a["offset"] == b["offset"], "offset of the axes", case)
            s.check(a["units"] == (b["units"] or ""), "units of the axes", case)
        else:
            s.check(a["scale"] == 1 and a["offset"] == 0 and a["units"] is None, "no calibration is saved if it is not to be", case)
    g = r["metadata"]["General"]
    want = dict(when, original_filename=os.path.basename(path))
    if "date" in want:
        want.setdefault("time", "00:00:00")
    s.check(g == want, "date and time", case)
    if export:
        s.check(r["metadata"]["Signal"].get("quantity") == md["Signal"].get("quantity"), "quantity", case)
        s.check(r["metadata"]["Signal"].get("Noise_properties") == md["Signal"].get("Noise_properties"), "noise properties", case)
        if extra:
            s.check(r["original_metadata"].get("65100") == "mine", "the tags given", case)


def tvips_bytes(rng, version, values):
    t = tifffile.TIFF
    v1 = np.zeros((), t.TVIPS_HEADER_V1)
    v1["Version"] = version
    if version == 1:
        return v1.tobytes()
    v2 = np.zeros((), t.TVIPS_HEADER_V2)
    v2["Magic"] = 0xAAAAAAAA
    for k, v in values.items():
        if isinstance(v, str):
            n = v2.dtype[k].itemsize
            v = np.frombuffer(v.encode("utf-16-le").ljust(n, b"\0"), "V%d" % n)[0]
        v2[k] = v
    return v1.tobytes() + v2.tobytes()


def check_vendor(s, path, api):
    """files as the programs of the instruments write them"""
    rng = s.rng
    vendor = rng.choice(["fei", "zeiss", "tvips", "sis", "jeol", "imagej", "resolution", "hamamatsu", "dates"])
    nd, colour = 2, rng.random() < 0.2 and vendor not in ("hamamatsu", "tvips")
    h, w = rng.sample([2, 3, 5, 8, 13, 21], 2)
    n = rng.choice([2, 3]) if vendor == "imagej" and rng.random() < 0.5 else 1
    data = np.frombuffer(bytes(rng.getrandbits(8) for _ in range(n * h * w * (3 if colour else 1))), "u1").reshape(
        ((n,) if n > 1 else ()) + (h, w) + ((3,) if colour else ()))
    sx, sy = rng.uniform(1e-3, 9), rng.uniform(1e-3, 9)
    extra, cal, want, opts, wk = [], None, {}, {}, {}
    S, T = "Acquisition_instrument.SEM.", "Acquisition_instrument.TEM."
    general, depth, hv = {}, (1, None), rng.choice([200.0, 15.0, 80.5])
    res = None
    as_text = lambda code, t: (code, "B", len(t.encode()), t.encode(), True)
    if vendor == "fei":
        kind = rng.choice(["Scan", "IRBeam", ""])
        t = "[User]\r\nDate=06/13/2016\r\nTime=05:06:40 PM\r\nUser=me\r\n[Beam]\r\nHV=%r\r\n[Stage]\r\nStageX=%r\r\nStageY=%r\r\nStageZ=0.5\r\nWorkingDistance=%r\r\n" % (
            hv, sx, sy, sy * 1e-3)
        t += "[EBeam]\r\nBeamCurrent=%r\r\n[Image]\r\nResolutionX=%d\r\nResolutionY=%d\r\n" % (sx * 1e-9, w, h)
        want = {S + "beam_energy": hv / 1e3, S + "Stage.x": sx, S + "Stage.y": sy, S + "Stage.z": 0.5, S + "working_distance": sy, S + "beam_current": sx,
                "General.date": "2016-06-13", "General.time": "17:06:40", "General.authors": "me"}
        if kind == "Scan":
            t += "[Scan]\r\nPixelWidth=%r\r\nPixelHeight=%r\r\nDwelltime=1e-05\r\n" % (sx, sy)
            want[S + "dwell_time"] = 1e-5
            cal = (sy, "m"), (sx, "m")
        elif kind == "IRBeam":
            t += "[IRBeam]\r\nHFW=%r\r\nVFW=%r\r\n" % (sx, sy)
            cal = (sy / h, "m"), (sx / w, "m")
        else:
            cal = (1, None), (1, None)
        extra = [as_text(rng.choice([34680, 34682]), t)]
    elif vendor == "zeiss":
        lines = ["0", "1", "2", repr(sx), "4"]
        u = rng.choice(["mm", "µm", "nm"])
        f = {"mm": 1, "µm": 1e-3, "nm": 1e-6}[u]
        c, cf = rng.choice([("pA", 1e-3), ("nA", 1), ("µA", 1e3)])
        for key, line in (("AP_WD", "WD = %r %s" % (sy, u)), ("AP_MAG", "Mag = 105 X"), ("AP_ACTUALKV", "EHT = %r kV" % hv), ("AP_STAGE_AT_X", "Stage at X = %r %s" % (sx, u)),
                          ("AP_STAGE_AT_Y", "Stage at Y = %r %s" % (sy, u)), ("AP_STAGE_AT_R", "Stage at R = 10.5 °"), ("AP_IPROBE", "I Probe = %r %s" % (sx, c)),
                          ("AP_DATE", "Date :23 Dec 2015"), ("AP_TIME", "Time :9:40:32"), ("SV_USER_NAME", "User Name = ME"), ("DP_DWELL_TIME", "Dwell Time = 50 ns")):
            lines += [key, line]
        want = {S + "working_distance": sy * f, S + "magnification": 105, S + "beam_energy": hv, S + "Stage.x": sx * f, S + "Stage.y": sy * f, S + "Stage.rotation": 10.5,
                S + "beam_current": sx * cf, "General.date": "2015-12-23", "General.time": "09:40:32", "General.authors": "ME", S + "dwell_time": 5e-8}
        extra = [as_text(34118, "\r\n".join(lines))]
        cal = (sx * 1024 / w, "m"), (sx * 1024 / w, "m")
    elif vendor == "tvips":
        version, mode = rng.choice([1, 2, 2]), rng.choice([1, 2, 3])
        v = dict(PixelSizeX=np.float32(sx), PixelSizeY=np.float32(sy), TemMode=mode, TemMagnification=np.float32(sx * 1e4), ExposureTime=500, TemHighTension=200000,
                 CameraType="F416", Comment="note", Time=3661, TemStagePosition=[1, 2, 3, 4, 5])
        raw = tvips_bytes(rng, version, v)
        extra = [(37706, "B", len(raw), raw, True)]
        if version == 2:
            cal = (float(np.float32(sy)), "nm"), (float(np.float32(sx)), "nm")
            want = {T + ("camera_length" if mode == 3 else "magnification"): float(np.float32(sx * 1e4)), T + "Detector.Camera.exposure": 0.5, T + "beam_energy": 200.0,
                    T + "Detector.Camera.name": "F416", "General.notes": "note", "General.time": "1:01:01",
                    T + "Stage": {"x": 1e3, "y": 2e3, "z": 3e3, "tilt_alpha": 4.0, "tilt_beta": 5.0}}
        else:
            res = (4.0, 8.0)
            cal = (1e-2 / 8, "m"), (1e-2 / 4, "m")
    elif vendor == "sis":
        raw = struct.pack("<4s6xhhhhh6x32sH", b"SIS0", 1, 2, 3, 4, 100, b"n", 1) + struct.pack("<hhI", 1, 1, 0) + struct.pack(
            "<10xhdd8xd2x34s32s", -9, sx, sy, hv, b"Veleta", b"p")
        extra = [(33560, "B", len(raw), raw, True)]
        cal = (sy * 1e-9, "m"), (sx * 1e-9, "m")
        want = {T + "magnification": hv, T + "Detector.Camera.name": "Veleta"}
    elif vendor == "jeol":
        eos, mode, value, unit = rng.choice([("eosTEM", "MAG", rng.choice([500, 50000]), "X"), ("eosTEM", "DIFF", 250, "mm"), ("eosTEM", "DIFF", 25, "cm"), ("modeASID", "MAG", 100, "X")])
        ht = rng.choice([200000, 80000])
        x = SIGHTX % dict(eos=eos, mode=mode, value=value, unit=unit, ht=ht, sel="s")
        inch = rng.random() < 0.5
        metre = 0.0254 if inch else 0.01
        res, wk = (4.0, 8.0), dict(resolutionunit="INCH" if inch else "CENTIMETER")
        extra = [(271, "s", 0, "JEOL Ltd.", True), (306, "s", 0, "2022-03-04T05:06:07.", True), (270, "s", 0, x, True)]
        if mode == "MAG" and eos == "eosTEM":
            cal = (metre / 8 / value * 1e9, "nm"), (metre / 4 / value * 1e9, "nm")
        elif mode == "DIFF":
            p_ = 2 * 9.1093837015e-31 * 1.602176634e-19 * ht * (1 + 1.602176634e-19 * ht / (2 * 9.1093837015e-31 * 299792458.0 ** 2))
            k = metre / (0.25 * 6.62607015e-34 / p_ ** 0.5 * 1e9)
            cal = (k / 8, "1 / nm"), (k / 4, "1 / nm")
        else:
            cal = (1, None), (1, None)
        general = {"date": "2022-03-04", "time": "05:06:07.123456", "time_zone": "+09:00", "title": ("STEM, BF, ALIGN, s" if eos == "modeASID" else "TEM, BF, SAMAG, s")}
        want = {T + "beam_energy": ht / 1e3, T + "beam_current": 0.0125, T + "Stage.z": 3.0, T + "microscope": "JEM",
                T + ("camera_length" if mode == "DIFF" else "magnification"): value, T + "acquisition_mode": "TEM"}
    elif vendor == "imagej":
        unit = rng.choice(["micron", "nm", "\\u00B5m", "inch", "1/nm", "angstrom"])
        name = {"micron": "µm", "\\u00B5m": "µm", "angstrom": "Å"}.get(unit, unit)
        wk, res = dict(imagej=True, metadata={"unit": unit, "axes": "TYX" if n > 1 else "YX"}), (4.0, 8.0)
        if colour:
            wk["metadata"]["axes"] += "S"
        cal = (1 / 8, name), (1 / 4, name)
        if n > 1:
            wk["metadata"]["spacing"] = sx
            depth = (sx, None)
    elif vendor == "resolution":
        u, f, name = rng.choice([("INCH", 25400, "µm"), ("CENTIMETER", 1e4, "µm"), ("NONE", None, None)])
        res, wk, opts = (4.0, 8.0), dict(resolutionunit=u), dict(force_read_resolution=True)
        cal = ((f / 8, name), (f / 4, name)) if f else ((1, None), (1, None))
        if rng.random() < 0.5:
            extra = [as_text(34118, "0\r\n1\r\n2\r\n5.0\r\n")]
    elif vendor == "hamamatsu":
        x, y = np.float32(sx) + np.arange(w, dtype="f4") * np.float32(0.5), np.cumsum(np.float32([rng.uniform(0.5, 2) for _ in range(h)]))
        marker = b"X" * 8
        raw = marker + x.tobytes() + y.astype("f4").tobytes()
        extra = [(65200, "B", len(raw), raw, True), (315, "s", 0, "Copyright Hamamatsu, 2018", True)]
        wk["software"] = "HPD-TA 9"
    else:
        text, general = rng.choice([("2020:01:02 03:04:05", {"date": "2020-01-02", "time": "03:04:05"}), ("2020/01/02 03:04", {"date": "2020-01-02", "time": "03:04:00"}), ("never", {})])
        extra = [(306, "s", 0, text, True)] + ([(270, "s", 0, "some text", True)] if rng.random() < 0.5 else [])
        cal = (1, None), (1, None)
    if res:
        wk["resolution"] = res
    case = dict(vendor=vendor, shape=data.shape, extratags=repr(extra)[:1500], options=repr(wk), read=repr(opts))
    kw = dict(photometric="rgb" if colour else "minisblack", software=None, metadata=None)
    kw.update(wk)
    if vendor == "hamamatsu":
        # the places of the axes are written as numbers of a fixed width
        d = '[Scaling],ScalingXUnit="nm",ScalingYUnit="ps",ScalingXScalingFile="#%08d,4",ScalingYScalingFile="#%08d,4"\r\n[Camera],Name="ORCA"'
        tifffile.imwrite(path, data, extratags=extra + [(270, "s", 0, d % (0, 0), True)], **kw)
        with open(path, "rb") as f:
            at = f.read().index(marker) + 8
        extra = extra + [(270, "s", 0, d % (at, at + 4 * w), True)]
    tifffile.imwrite(path, data, extratags=extra, **kw)
    if vendor == "sis":
        with open(path, "r+b") as f:
            at = f.read().index(b"SIS0")
            f.seek(at + 64)
            f.write(struct.pack("<I", at + 68))
    s.note(case)
    pages, lazy = rng.random() < 0.3 and n == 1, rng.random() < 0.3
    axis = rng.choice(["uniform", "data", "functional", None]) if vendor == "hamamatsu" else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (r,) = api.file_reader(path, lazy=lazy, multipage_as_list=pages, hamamatsu_streak_axis_type=axis, **opts)
    except (OSError, ValueError, KeyError, IndexError, TypeError, AttributeError, struct.error, UnicodeError, OverflowError, ZeroDivisionError,
            tifffile.TiffFileError) as e:
        s.fail("files of %s are read (%s: %s)" % (vendor, type(e).__name__, str(e)[:60]), case)
        return
    if lazy:
        r = dict(r, data=r["data"].compute())
    got = np.asarray(r["data"])
    case["got"] = repr((r["axes"], r["metadata"]))[:1500]
    px = got if not colour else np.stack([got[c] for c in got.dtype.names], -1) if got.dtype.names else got
    s.check(px.shape == data.shape and px.dtype == data.dtype and np.array_equal(px, data) and bool(got.dtype.names) is bool(colour), "the pixels", case)
    by = {a["name"]: a for a in r["axes"]}
    size = dict(height=h, width=w)
    s.check(len(r["axes"]) == (3 if n > 1 else 2) and set(size) <= set(by), "the axes", case)
    for name in set(size) & set(by):
        s.check(by[name].get("size", len(by[name].get("axis", ()))) == size[name], "size of the axes", case)
    if cal:
        for name, (scale, units) in zip(("height", "width"), cal):
            if name in by:
                s.check((close_to(by[name]["scale"], scale, 1e-6) or vendor == "sis" and abs(by[name]["scale"] - scale) < 6e-16) and by[name]["offset"] == 0, "scale of the %s" % name, case)
                s.check(by[name]["units"] == units, "units of the %s" % name, case)
        if n > 1:
            a = r["axes"][0]
            s.check(close_to(a["scale"], depth[0], 1e-6) and a["size"] == n and a["navigate"] is True, "scale of the stack", case)
    elif set(size) <= set(by):
        a, b = by["width"], by["height"]
        s.check(abs(a["scale"] - 0.5) < 1e-4 and abs(a["offset"] - float(x[0])) < 1e-3 and a["units"] == "nm" and b["units"] == "ps", "axis of the width", case)
        if axis == "data":
            s.check(np.array_equal(b["axis"], y), "values of the height", case)
        elif axis == "functional":
            if h > 4:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s.check(np.allclose([b[c] for c in "abcd"], np.polyfit(np.arange(h), y, 3)), "function of the height", case)
        else:
            s.check(np.allclose([b["scale"], b["offset"]], np.polyfit(np.arange(h), y, 1)), "line of the height", case)
        p = r["original_metadata"]["ImageDescriptionParsed"]
        s.check(np.array_equal(p["Scaling"]["ScalingXaxis"], x) and np.array_equal(p["Scaling"]["ScalingYaxis"], y) and p["Camera"] == {"Name": "ORCA"}, "metadata of the file", case)
    s.check(r["metadata"]["General"] == dict(general, original_filename=os.path.basename(path)), "date, time and title", case)
    out = mapped(r)
    for k, v in want.items():
        ok = k in out and (out[k] == v if isinstance(v, (str, dict)) else close_to(float(out[k]), v, 1e-6))
        s.check(ok, "%s of the metadata" % k, case)
    if vendor in ("tvips", "sis", "imagej", "resolution", "dates") and "34118" not in repr(extra):
        s.check(vendor == "tvips" and not want or set(out) == set(want), "no other values of the instrument", case)


def check_pages(s, path, api):
    """pages of different images"""
    rng = s.rng
    images = []
    with tifffile.TiffWriter(path) as t:
        for k in range(rng.choice([2, 3])):
            shape = rng.choice([(2, 3), (5, 4), (3, 3)])
            a = np.array([rng.getrandbits(15) for _ in range(shape[0] * shape[1])], "u2").reshape(shape)
            images.append(a)
            t.write(a, metadata=None, extratags=[(65100, "s", 0, "page %d" % k, True)])
    case = dict(shapes=[a.shape for a in images])
    lazy = rng.random() < 0.5
    out = api.file_reader(path, lazy=lazy, multipage_as_list=True)
    s.check(len(out) == len(images), "every page", case)
    for k, (r, a) in enumerate(zip(out, images)):
        d = np.asarray(r["data"].compute() if lazy else r["data"])
        s.check(np.array_equal(d, a) and d.dtype == a.dtype and r["original_metadata"]["65100"] == "page %d" % k and [x["size"] for x in r["axes"]] == list(a.shape),
                "pixels and tags of every page", case)


def search(s):
    import logging
    logging.getLogger("tifffile").setLevel(logging.CRITICAL)
    logging.getLogger("rsciio.tiff._api").setLevel(logging.CRITICAL)
    from rsciio.tiff import _api as api
    tmp = getattr(s, "tmp", None) or "."
    for k in range(s.n(900, 12000)):
        if not s.left():
            break
        path = os.path.join(tmp, "f%d.tif" % k)
        check_saved(s, path, api)
        check_vendor(s, path, api)
        if k % 5 == 0:
            check_pages(s, path, api)
        if os.path.exists(path):
            os.remove(path)
