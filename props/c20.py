"""C20: spectra saved to MSA files are read back unchanged."""
import copy
import datetime
import logging
import os
import shutil

from pyvc import text as tx
from pyvc.load import LoopSpec
from pyvc.sym import SymList
from pyvc.text import TextFile, number, opener, sized, unknown

from .common import *

ID = "C20"
U = "rsciio/msa/_api.py"
FUNCS = [U + ":" + f for f in ("file_writer", "parse_msa_string", "file_reader")]
MONTHS = ("JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC")

# where the values of the instrument are in the metadata ("%s" is TEM or SEM)
AI = "Acquisition_instrument.%s."
PLACES = {"BEAMKV": AI + "beam_energy", "PROBECUR": AI + "beam_current", "CONVANGLE": AI + "convergence_angle",
          "THICKNESS": "Sample.thickness", "XTILTSTGE": AI + "Stage.tilt_alpha", "INTEGTIME": AI + "Detector.EELS.exposure",
          "DWELLTIME": AI + "Detector.EELS.dwell_time", "COLLANGLE": AI + "Detector.EELS.collection_angle",
          "ELEVANGLE": AI + "Detector.EDS.elevation_angle", "AZIMANGLE": AI + "Detector.EDS.azimuth_angle",
          "SOLIDANGLE": AI + "Detector.EDS.solid_angle", "LIVETIME": AI + "Detector.EDS.live_time",
          "REALTIME": AI + "Detector.EDS.real_time", "FWHMMNKA": AI + "Detector.EDS.energy_resolution_MnKa"}
# signal type and what it is read back as
TYPES = {"": "", "EELS": "EELS", "EDS_TEM": "EDS_TEM", "EDS_SEM": "EDS_SEM", "CL": "CL"}
FORMAT = "EMSA/MAS Spectral Data File"


def put(d, path, v):
    *head, last = path.split(".")
    for h in head:
        d = d.setdefault(h, {})
    d[last] = v


def leaves(d, p=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(leaves(v, p + (k,)))
        else:
            out[".".join(p + (k,))] = v
    return out


class Moment:
    """a date or a time, by its fields (contract of datetime)"""

    def __init__(self, fields):
        self.fields = fields

    second = property(lambda self: self.fields["S"][1])

    def _text(self, fmt):
        out = []
        i = 0
        while i < len(fmt):
            if fmt[i] == "%":
                out += list(tx.parts_of(self.fields[fmt[i + 1]][0]))
                i += 2
            else:
                out.append(fmt[i])
                i += 1
        return tx.mk(out)

    strftime = _text

    def date(self):
        return Moment({k: v for k, v in self.fields.items() if k in "Ymd"})

    def time(self):
        return Moment({k: v for k, v in self.fields.items() if k in "HMS"})

    def isoformat(self):
        return self._text("%Y-%m-%d" if "Y" in self.fields else "%H:%M:%S")


class Clock:
    def __init__(self, fields):
        self.fields = fields

    def strptime(self, text, fmt):
        if not isinstance(text, tx.Text):
            return datetime.datetime.strptime(text, fmt)
        names = [fmt[i + 1] for i in range(len(fmt)) if fmt[i] == "%"]
        if text != Moment(self.fields)._text(fmt):
            raise ValueError("time data does not match")
        out = {n: self.fields[n] for n in names}
        if "H" in names:
            out.setdefault("S", ("00", 0))
        return Moment(out)


def two(name, lo, hi):
    return (tx.Text([tx.Atom("text", name, alphabet=set("0123456789"), length=4 if name == "year" else 2)]), fresh_int(name, lo, hi))


def environment(files, month, seconds):
    fields = {"Y": two("year", 1, 9999), "m": ("%02d" % month, month), "d": two("day", 1, 31), "H": two("hour", 0, 23),
              "M": two("minute", 0, 59), "S": two("second", 1, 59) if seconds else ("00", 0)}
    clock = Clock(fields)
    m = load_module(U, {"dt": clock}, builtin_over={"open": opener(files)})
    return m, Moment(fields)


def reading(v, k):
    y, data = C().ghost["y"], C().ghost["data"]
    j = z3.Int("j!")
    return {"as many points as lines": ie(y.n) == ie(k),
            "the points are those of the lines": z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ie(k)), y.entry(mk_int(j)) == data(j)))}


def growing(old):
    lst = SymList.of(old, "y", kinds=("real",))
    C().ghost["y"] = lst
    return lst


def word(name, n=None):
    free = ("\t", "\n", "\r", " ")
    return sized(name, n, free) if n else unknown(name, free=("\t", "\n", "\r"), empty=True)


def titles(kind):
    w = lambda s, n: sized(s, n, ("\t", "\n", "\r", " "))
    return {"short": lambda: w("title", 5) + " " + w("t2", 7), "empty": lambda: "", "blank at 64": lambda: w("a", 63) + "  " + w("b", 20),
            "colon": lambda: w("a", 7) + ": " + w("b", 70) + ": " + w("c", 64), "blanks": lambda: w("a", 60) + " " * 9 + w("b", 140),
            "one word": lambda: w("a", 200), "64": lambda: w("a", 64), "128": lambda: w("a", 64) + w("b", 64),
            "begins with a blank": lambda: "  " + w("a", 100), "colon at 64": lambda: w("a", 63) + ": " + w("b", 1),
            "hash": lambda: "# " + w("a", 61) + "#" + w("b", 20)}[kind]()


def saved(fmt, sep, dtype, stype, title, month, seconds, have, earlier, missing):
    """earlier: the original metadata are those of an MSA file"""
    def run():
        C().ghost["str_of"] = number
        files = {}
        m, when = environment(files, month, seconds)
        n = fresh_int("points", 0, inp=True)
        data = SymArr.fresh("data", (n,), np.dtype(dtype))
        val = (lambda j: data.expr(j)) if np.dtype(dtype).kind == "f" else (lambda j: z3.ToReal(data.expr(j)))
        C().ghost["data"] = val
        axis = dict(size=n, index_in_array=0, name=None if missing else word("name"), scale=fresh_real("scale", inp=True),
                    offset=fresh_real("offset", inp=True), units=None if missing else word("units"), navigate=False)
        md = {"General": {"title": titles(title)}, "Signal": {"signal_type": stype}}
        if month:
            md["General"]["date"] = when.date().isoformat()
            md["General"]["time"] = when.time().isoformat()
        micro = "SEM" if stype == "EDS_SEM" else "TEM"
        values = {}
        for k in have:
            values[PLACES[k].replace("%s", micro)] = fresh_real(k, inp=True)
        for k, v in values.items():
            put(md, k, v)
        beam = values.get("Acquisition_instrument.%s.beam_energy" % micro)
        if stype == "EDS_TEM":
            assume(beam > 30)
        elif stype == "EDS_SEM" and beam is not None:
            assume(beam <= 30)
        if have:
            put(md, "Acquisition_instrument.%s.Detector.EDS.EDS_det" % micro, word("detector", 6))
            values["Acquisition_instrument.%s.Detector.EDS.EDS_det" % micro] = md["Acquisition_instrument"][micro]["Detector"]["EDS"]["EDS_det"]
        om = {}
        if earlier:
            om = {"FORMAT": FORMAT, "VERSION": "1.0", "TITLE": "before", "DATE": "01-JAN-2001", "TIME": "01:01", "OWNER": word("owner", 9),
                  "NPOINTS": 7.0, "NCOLUMNS": 5.0, "DATATYPE": fmt or "XY", "XPERCHAN": 3.5, "OFFSET": 4.5, "SIGNALTYPE": "ELS",
                  "BEAMKV   -kV": fresh_real("old_beam") if "BEAMKV" in have else None, "MYKEY": word("mine", 8),
                  "SPECTRUM": "Spectral Data Starts Here", "EMISSION": fresh_real("emission")}
            if om["BEAMKV   -kV"] is None:
                del om["BEAMKV   -kV"]
        signal = dict(data=data, axes=[axis], metadata=md, original_metadata=om)
        om0, md0, ax0 = dict(om), leaves(md), dict(axis)
        table = {k: dict(v) for k, v in m.keywords.items()}
        fobj = lambda v: next(x for x in list(v._d.values()) if isinstance(x, TextFile))
        C().run.loop_specs = [tx.rows_written(fobj, needs=["signal"]),
                              LoopSpec("lines of points", reading, needs=["y"], types={"y": growing})]
        m.file_writer("d/f.msa", signal, **({} if fmt == "default" else {"format": fmt}), **({} if sep is None else {"separator": sep}))
        om1, md1 = signal["original_metadata"], leaves(signal["metadata"])
        expect(om1 is om and list(om1) == list(om0) and all(om1[k] is om0[k] for k in om0), "the original metadata stays as it was")
        expect(list(md1) == list(md0) and all(md1[k] is md0[k] for k in md0), "the metadata stays as it was")
        expect(list(axis) == list(ax0) and all(axis[k] is ax0[k] for k in ax0), "the axis stays as it was")
        expect({k: dict(v) for k, v in m.keywords.items()} == table, "the table of keywords stays as it was")
        (r,) = m.file_reader("d/f.msa")
        back = r["data"]
        expect(isinstance(back, SymArr) and back.ndim == 1 and back.dtype == np.float64, "a spectrum of float64")
        prove(eqi(back.shape[0], n), "number of points")
        i = fresh_int("i", 0)
        assume(i < n)
        prove(back.expr(i.e) == val(i.e), "every point")
        (a,) = r["axes"]
        prove(eqi(a["size"], n), "size of the axis")
        prove(re_(a["scale"]) == re_(ax0["scale"]), "scale of the axis")
        prove(re_(a["offset"]) == re_(ax0["offset"]), "offset of the axis")
        for k in ("name", "units"):
            expect(a[k] == ("" if ax0[k] is None else ax0[k]), k + " of the axis")
        expect(a["navigate"] is False and a["index_in_array"] == 0, "signal axis")
        g = leaves(r["metadata"])
        expect(g.get("General.title", "") == md0["General.title"], "title")
        if month:
            expect(g.get("General.date") == md0["General.date"], "date")
            expect(g.get("General.time") == md0["General.time"], "time")
        expect(g["Signal.signal_type"] == TYPES[stype], "signal type")
        found = {k for k in g if not k.startswith(("General.", "Signal.")) and not k.endswith("_units")}
        expect(found == set(values), "the same values of the instrument")
        for k, v in values.items():
            if k in found:
                expect(g[k] == v, k) if isinstance(v, str) else prove(re_(g[k]) == re_(v), k)
        form = fmt if fmt in ("Y", "XY") else (om0.get("DATATYPE", "Y") if fmt is None else None)
        if form is not None:
            expect(r["original_metadata"].get("DATATYPE") == form, "the format asked for")
        if earlier:
            o = r["original_metadata"]
            expect(o.get("OWNER") == om0["OWNER"] and o.get("MYKEY") == om0["MYKEY"], "other keywords are kept")
            prove(re_(o["EMISSION"]) == re_(om0["EMISSION"]), "other numbers are kept")
    return run


def columns(fmt, c, separator, blank):
    """files with several values on a line"""
    def run():
        C().ghost["str_of"] = number
        files = {}
        m, when = environment(files, 1, False)
        n = fresh_int("lines", 0, inp=True)
        val = fresh_fn("value", z3.IntSort(), z3.RealSort())
        xs = fresh_fn("position", z3.IntSort(), z3.RealSort())
        k = fresh_int("row")
        parts = [" "] if blank else []
        for j in range(c):
            if fmt == "XY":
                parts += list(number(mk_real(xs(k.e * c + j))).parts) + [separator]
            parts += list(number(mk_real(val(k.e * c + j))).parts) + [separator if j < c - 1 or blank else "\n"]
        if blank:
            parts.append("\n")
        head = "#FORMAT : %s\n#DATATYPE    : %s\n#NCOLUMNS : %d\n#SPECTRUM : x\n" % (FORMAT, fmt, c)
        files["f.msa"] = head + tx.mk([tx.Rows(n, k, parts)]) + "\n#ENDOFDATA : \n"
        C().run.loop_specs = [LoopSpec("lines of points", lambda v, i: several(c, val, i), needs=["y"], types={"y": growing})]
        (r,) = m.file_reader("f.msa")
        back = r["data"]
        prove(eqi(back.shape[0], n * c), "number of points")
        i = fresh_int("i", 0)
        assume(i < n * c)
        prove(back.expr(i.e) == val(i.e), "every point")
        prove(eqi(r["axes"][0]["size"], n * c), "size of the axis")
    return run


def several(c, val, k):
    y = C().ghost["y"]
    j = z3.Int("j!")
    return {"as many points as on the lines": ie(y.n) == c * ie(k),
            "the points are those of the lines": z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c * ie(k)), y.entry(mk_int(j)) == val(j)))}


def read_date(month):
    """dates and times of other programs"""
    def run():
        for name in (MONTHS[month - 1], MONTHS[month - 1].capitalize(), MONTHS[month - 1].lower()):
            for tm, iso in (("9:05", "09:05:00"), ("23:59:58", "23:59:58"), ("00:00", "00:00:00")):
                m = load_module(U)
                (r,) = m.parse_msa_string("#FORMAT : x\n#DATE        : 7-%s-1995\n#TIME : %s\n#DATATYPE : Y\n#SPECTRUM : \n1.\n#END : \n" % (name, tm))
                expect(r["metadata"]["General"].get("date") == "1995-%02d-07" % month, "date")
                expect(r["metadata"]["General"].get("time") == iso, "time")
    return run


CONTRACTS = []


def add(name, **k):
    d = dict(fmt="Y", sep=None, dtype="f8", stype="", title="short", month=3, seconds=True, have=(), earlier=False, missing=False)
    d.update(k)
    CONTRACTS.append(Contract(name, saved(**d), FUNCS))


for _f in ("Y", "XY", "default"):
    for _s in (None, ",", " ", "\t", ", "):
        for _d in ("f8", "f4", "i4", "u2"):
            add("format %s, separator %r, %s" % (_f, _s, _d), fmt=_f, sep=_s, dtype=_d)
for _e in (False, True):
    add("format of the file%s" % (", from an MSA file" if _e else ""), fmt=None, earlier=_e)
for _t in TYPES:
    for _h in ((), tuple(PLACES), ("BEAMKV",), ("THICKNESS", "BEAMKV", "LIVETIME")):
        if _t == "EDS_TEM" and "BEAMKV" not in _h:
            continue
        for _e in (False, True):
            add("type %s, %d values%s" % (_t or "none", len(_h), ", from an MSA file" if _e else ""), stype=_t, have=_h, earlier=_e)
for _m in range(0, 13):
    for _s in (False, True):
        for _e in (False, True):
            add("month %d%s%s" % (_m, ", seconds" if _s else "", ", from an MSA file" if _e else ""), month=_m, seconds=_s, earlier=_e)
for _t in ("empty", "blank at 64", "colon", "blanks", "one word", "64", "128", "begins with a blank", "colon at 64", "hash"):
    add("title: " + _t, title=_t)
add("without name and units", missing=True)
for _f, _c in (("Y", 1), ("Y", 2), ("Y", 5), ("XY", 1), ("XY", 2)):
    for _s in (", ", ",", " ", "   ", "\t"):
        for _b in (False, True):
            CONTRACTS.append(Contract("%d columns of %s, separator %r%s" % (_c, _f, _s, ", blanks" if _b else ""), columns(_f, _c, _s, _b), FUNCS[1:]))
for _m in range(1, 13):
    CONTRACTS.append(Contract("reading month %d" % _m, read_date(_m), FUNCS[1:2]))

ASSUMPTIONS = [
    "numbers written with repr() or str() are read as the same number by float(); element types are exact in float64",
    "datetime: strptime and strftime are inverse on the fields they name; DTBox is Box (third party), run as it is",
    "titles are words of unknown characters at listed lengths (up to 209 characters); other text has no line breaks or tabs, "
    "nor blanks at its ends",
]


def search(s):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    from rsciio.msa import file_reader, file_writer, parse_msa_string
    rng = s.rng
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c20_%d" % os.getpid())
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, "f.msa")
    pieces = ["EELS", "a", "b: c", "x-y", " ", "  ", "µ", "#", "of the", ":", "10:30", "-", "spectrum", "e", "é", "None", "0"]

    def words(lo, hi):
        n = rng.randint(lo, hi)
        out = ""
        while len(out) < n:
            out += rng.choice(pieces) + rng.choice(["", " ", " "])
        return out[:n].strip()

    def num():
        return rng.choice([rng.uniform(-1e3, 1e3), rng.uniform(0, 1) * 10.0 ** rng.randint(-300, 300), 0, 1, 5, 0.1, 1e-9, 123456789.0,
                           float(rng.randrange(2 ** 53)), np.float64(1 / 3), np.int64(7), np.float32(0.1), -2.5, 1e22])

    def table():
        import rsciio.msa._api as api
        return {k: dict(v) for k, v in api.keywords.items()}
    table0 = table()
    try:
        for it in range(s.n(1500, 20000)):
            if not s.left():
                break
            stype = rng.choice(list(TYPES))
            micro = "SEM" if stype == "EDS_SEM" else "TEM"
            n = rng.choice([0, 1, 2, 3, 10])
            dt = np.dtype(rng.choice(["f8", "f4", "i4", "u2", "u1", "i8"]))
            if dt.kind == "f":
                data = np.array([float(num()) for _ in range(n)])
                with np.errstate(over="ignore"):
                    data = data.astype(dt)
            else:
                info = np.iinfo(dt)
                data = np.array([rng.choice([rng.randint(max(info.min, -2 ** 53), min(info.max, 2 ** 53)), 0, 1, info.max >> 11])
                                 for _ in range(n)], dtype=dt)
            axis = dict(size=n, index_in_array=0, name=rng.choice([None, "", words(1, 20)]), scale=num(), offset=num(),
                        units=rng.choice([None, "", "eV", "nm", "1/nm", "µm"]), navigate=False)
            md = {"General": {"title": rng.choice(["", words(1, 30), words(40, 300)])}, "Signal": {"signal_type": stype}}
            if rng.random() < 0.6:
                md["General"]["date"] = "%04d-%02d-%02d" % (rng.randint(1900, 2099), rng.randint(1, 12), rng.randint(1, 28))
            if rng.random() < 0.6:
                md["General"]["time"] = "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.choice([0, 30, 1, 59]))
            values = {}
            for k, p in PLACES.items():
                if rng.random() < 0.4:
                    values[p.replace("%s", micro)] = num()
            beam = "Acquisition_instrument.%s.beam_energy" % micro
            if stype == "EDS_TEM":
                values[beam] = rng.choice([200, 300.0, 30.1, 80])
            elif stype == "EDS_SEM" and beam in values:
                values[beam] = rng.choice([15, 30.0, 5, 0.5])
            if rng.random() < 0.3:
                values["Acquisition_instrument.%s.Detector.EDS.EDS_det" % micro] = rng.choice(["SDD", "SiLi UTW", "a: b"])
            for k, v in values.items():
                put(md, k, v)
            om = {}
            if rng.random() < 0.4:
                om = {"FORMAT": FORMAT, "VERSION": "1.0", "TITLE": "", "DATE": "01-JAN-2001", "TIME": "01:01", "OWNER": words(1, 20),
                      "NPOINTS": 7.0, "NCOLUMNS": 1.0, "DATATYPE": rng.choice(["Y", "XY"]), "XPERCHAN": 3.5, "OFFSET": 4.5,
                      "SIGNALTYPE": "ELS", "MYKEY": words(1, 20), "EMISSION": num()}
                if beam in values:
                    om[rng.choice(["BEAMKV", "BEAMKV   -kV"])] = num()
            sig = dict(data=data, axes=[dict(axis)], metadata=copy.deepcopy(md), original_metadata=dict(om))
            fmt = rng.choice(["Y", "XY", None, "default"])
            sep = rng.choice([None, None, ",", " ", "\t"])
            case = dict(data=data.tolist(), dtype=str(dt), axis={k: v if not isinstance(v, np.generic) else v.item() for k, v in axis.items()},
                        metadata=repr(md), original_metadata=repr(om), format=fmt, separator=sep)
            s.note(case)
            try:
                file_writer(path, sig, **({} if fmt == "default" else {"format": fmt}), **({} if sep is None else {"separator": sep}))
                r, = file_reader(path)
            except Exception as exc:
                s.fail("saving or reading fails: %r" % exc, case)
                continue
            s.check(repr(sig["metadata"]) == repr(md) and repr(sig["original_metadata"]) == repr(om) and sig["axes"] == [axis],
                    "saving leaves the signal as it was", case)
            s.check(table() == table0, "saving and reading leave the table of keywords as it was", case)
            case["got"] = repr((r["data"].tolist(), r["axes"], r["metadata"]))[:2000]
            s.check(r["data"].dtype == np.float64 and np.array_equal(r["data"], data.astype("f8")), "data", case)
            a, = r["axes"]
            s.check(a["size"] == n and a["scale"] == axis["scale"] and a["offset"] == axis["offset"] and
                    a["name"] == (axis["name"] or "") and a["units"] == (axis["units"] or "") and a["navigate"] is False, "axis", case)
            g = leaves(r["metadata"])
            for k in ("title", "date", "time"):
                want = md["General"].get(k, "")
                if k != "title" and not want:
                    continue
                s.check(g.get("General." + k, "") == want, k, case)
            s.check(g["Signal.signal_type"] == TYPES[stype], "signal type", case)
            found = {k: v for k, v in g.items() if not k.startswith(("General.", "Signal.")) and not k.endswith("_units")}
            s.check(found == values, "values of the instrument", case)
            if om:
                o = r["original_metadata"]
                s.check(o["OWNER"] == om["OWNER"] and o["MYKEY"] == om["MYKEY"] and o["EMISSION"] == om["EMISSION"], "other keywords", case)
            with open(path, encoding="latin-1", newline="") as fh:
                txt = fh.read().split("\r\n")
            form = fmt if fmt in ("Y", "XY") else om.get("DATATYPE", "Y") if fmt is None else None
            begin = [i for i, t in enumerate(txt) if t.startswith("#SPECTRUM")]
            ok = len(begin) == 1 and txt[0].startswith("#FORMAT") and txt[1].startswith("#VERSION") and txt[-1].startswith("#ENDOFDATA")
            ok = ok and all(t.startswith("#") for t in txt[:begin[0]]) and len(txt) - begin[0] - 2 == n
            s.check(ok, "the file has head, one line for each point, and end", case)
            if ok and form is not None:
                gap = sep if sep is not None else ", "
                rows_ = [[x for x in t.split(gap.strip() or gap) if x.strip()] for t in txt[begin[0] + 1:-1]]
                pos = axis["offset"] + axis["scale"] * np.arange(n)
                s.check(r["original_metadata"].get("DATATYPE") == form and all(len(x) == len(form) for x in rows_), "the format asked for", case)
                if form == "XY" and all(len(x) == 2 for x in rows_):
                    s.check(all(float(x[0]) == float(v) for x, v in zip(rows_, pos)), "positions of the points", case)
            day = datetime.date(rng.randint(1900, 2099), rng.randint(1, 12), rng.randint(1, 28))
            q, = parse_msa_string("#FORMAT : x\n#DATE : %02d-%s-%04d\n#DATATYPE : Y\n#SPECTRUM : \n1.\n#END : \n" % (
                day.day, MONTHS[day.month - 1].capitalize(), day.year))
            s.check(q["metadata"]["General"].get("date") == day.isoformat(), "date of other programs", dict(day=day.isoformat()))
            # files of other programs: several values on a line
            c = rng.choice([1, 2, 5])
            kind = "Y" if c == 5 else rng.choice(["Y", "XY"])
            rows = [[repr(float(num())) for _ in range(c)] for _ in range(rng.randint(0, 4))]
            gap = rng.choice([",", ", ", " ", "   ", "\t"])
            body = [gap.join(v if kind == "Y" else "1.5" + gap + v for v in row) + rng.choice(["", ",", " "]) for row in rows]
            head = ["#FORMAT      : " + FORMAT, "#DATATYPE    : " + kind, "#NCOLUMNS    : %d" % c, "#XPERCHAN : 0.5", "#XUNITS  : eV", "#SPECTRUM    : "]
            txt = "\n".join(head + body + ["#ENDOFDATA   : "])
            case = dict(text=txt)
            s.note(case)
            q, = parse_msa_string(txt)
            s.check(q["data"].tolist() == [float(v) for row in rows for v in row] and q["axes"][0]["size"] == c * len(rows), "several values on a line", case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
