"""C15: signals saved to ripple files are read back unchanged."""
import itertools
import logging
import os
import shutil
import types

from pyvc.text import TextFile, number, opener, unknown

from .common import *

ID = "C15"
U = "rsciio/ripple/_api.py"
W = [U + ":" + f for f in ("file_writer", "write_rpl", "write_raw")]
R_ = [U + ":" + f for f in ("file_reader", "parse_ripple", "correct_INCA_format", "read_raw")]

DTYPES = ["float64", "float32", "uint8", "uint16", "int32", "int64"]
LEFT_OUT = ("\t", "\n", "\r", ";", "data-Length")

INSTRUMENT = {"": {}, "EELS": {"beam_energy": "beam_energy", "convergence_angle": "convergence_angle",
                               "Detector.EELS.collection_angle": "collection_angle"}}
for _m in ("SEM", "TEM"):
    INSTRUMENT["EDS_" + _m] = {k: k for k in (
        "beam_energy", "Stage.tilt_alpha", "Detector.EDS.elevation_angle", "Detector.EDS.azimuth_angle",
        "Detector.EDS.live_time", "Detector.EDS.energy_resolution_MnKa")}


class Lazy:
    """what memmap_distributed returns: the elements of the file, by contract (C01)"""

    def __init__(self, arr):
        self.arr = arr

    shape = property(lambda self: self.arr.shape)
    ndim = property(lambda self: self.arr.ndim)
    dtype = property(lambda self: self.arr.dtype)

    def reshape(self, *shape):
        return Lazy(self.arr.reshape(*shape))

    def compute(self):
        return self.arr


def entails(e):
    return not C().feasible(z3.Not(e))


def mapped(stored, shape, dtype, what="data"):
    """the array of the given shape in a file that holds the elements of `stored` in C order"""
    expect(np.dtype(dtype) == stored.dtype, what + ": element type and byte order")
    src = stored.reshaped_from if getattr(stored, "reshaped_from", None) is not None else stored
    where, j = [], 0
    for n in src.shape:
        if entails(ie(n) == 1):
            where.append(None)
        elif j < len(shape) and entails(ie(n) == ie(shape[j])):
            where.append(j)
            j += 1
        else:
            expect(False, what + ": the sizes in the header are those of the data")
            raise PathEnd()
    expect(all(entails(ie(n) == 1) for n in shape[j:]), what + ": the sizes in the header are those of the data")
    # row-major positions do not change when dimensions of length one are left out
    return SymArr.func(lambda idx: src.expr(*[z3.IntVal(0) if w is None else idx[w] for w in where]),
                       tuple(shape), stored.dtype, "read")


def environment(files):
    def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", **k):
        expect(order == "C" and not is_sym(offset) and offset == 0, "the data starts at the beginning of the raw file")
        stored = C().ghost.get("tofile", {}).get(filename)
        if stored is None:
            raise FileNotFoundError(filename)
        return Lazy(mapped(stored, tuple(shape), dtype))
    osm = types.SimpleNamespace(path=types.SimpleNamespace(
        exists=lambda f: f in C().ghost.get("tofile", {}) or f in files, splitext=os.path.splitext,
        split=os.path.split, basename=os.path.basename, join=os.path.join))
    return load_module(U, {"os": osm, "file": types.SimpleNamespace(memmap_distributed=distributed)},
                       builtin_over={"open": opener(files)})


def text(name):
    return unknown(name, free=LEFT_OUT, other=("<undefined>", "None"))


def saved(sig_at, dtype, sigtype, units, instr):
    """sig_at: positions of the signal axes among the axes of the array"""
    def run():
        nd, sig = sig_at
        C().ghost["str_of"] = number
        files = {}
        m = environment(files)
        dims = [fresh_int("n%d" % i, 1, inp=True) for i in range(nd)]
        data = SymArr.fresh("data", tuple(dims), np.dtype(dtype))
        axes = []
        for i in range(nd):
            axes.append(dict(index_in_array=i, name=text("name%d" % i), size=dims[i],
                             scale=fresh_real("scale%d" % i, inp=True), offset=fresh_real("offset%d" % i, inp=True),
                             units=None if units and i == 0 else text("units%d" % i), navigate=i not in sig))
        md = {"General": {k: text(k) for k in ("title", "date", "time")}, "Signal": {"signal_type": sigtype}}
        values = {}
        kind = "SEM" if sigtype == "EDS_SEM" else "TEM"
        if instr != "none":
            md["Acquisition_instrument"] = {"SEM": {}, "TEM": {}}
        if instr == "all":
            for path in INSTRUMENT.get(sigtype, {}):
                values[path] = fresh_real(path.split(".")[-1], inp=True)
                d = md["Acquisition_instrument"][kind]
                *head, last = path.split(".")
                for h in head:
                    d = d.setdefault(h, {})
                d[last] = values[path]
        signal = dict(data=data, axes=[dict(a) for a in axes], metadata=md, original_metadata={})
        m.file_writer("d/f.rpl", signal)
        expect(set(C().ghost.get("tofile", {})) == {"d/f.raw"} and set(files) == {"d/f.rpl"}, "one rpl and one raw file")
        (r,) = m.file_reader("d/f.rpl")
        order = [i for i in range(nd) if i not in sig] + list(sig)
        keep = [i for i in order if not entails(ie(dims[i]) == 1)]
        got = r["axes"]
        expect(len(got) == len(keep), "an axis for each dimension with more than one element")
        for k, (a, i) in enumerate(zip(got, keep)):
            w = axes[i]
            expect(a["index_in_array"] == k, "place of the axis")
            prove(eqi(a["size"], w["size"]), "size of the axis")
            prove(re_(a["scale"]) == re_(w["scale"]), "scale of the axis")
            prove(re_(a["offset"]) == re_(w["offset"]), "offset of the axis")
            expect(a["name"] == w["name"], "name of the axis")
            expect(a["units"] is None if w["units"] is None else a["units"] == w["units"], "units of the axis")
            expect(a["navigate"] is w["navigate"], "signal or navigation axis")
        back = r["data"]
        expect(isinstance(back, SymArr) and back.dtype == data.dtype and back.ndim == len(keep), "data type and dimensions")
        for n, i in zip(back.shape, keep):
            prove(eqi(n, dims[i]), "shape of the data")
        at = [fresh_int("i%d" % i, 0) for i in range(len(keep))]
        for x, i in zip(at, keep):
            assume(x < dims[i])
        full = [z3.IntVal(0)] * nd
        for x, i in zip(at, keep):
            full[i] = x.e
        prove(back.expr(*[x.e for x in at]) == data.expr(*full), "every element of the data")
        g = r["metadata"]["General"]
        expect(all(g[k] == md["General"][k] for k in ("title", "date", "time")), "title, date and time")
        expect(r["metadata"]["Signal"]["signal_type"] == sigtype, "signal type")
        ai = r["metadata"].get("Acquisition_instrument", {})
        flat = {}

        def walk(d, p=()):
            for k, v in d.items():
                walk(v, p + (k,)) if isinstance(v, dict) else flat.__setitem__(".".join(p + (k,)), v)
        walk(ai)
        expect(set(flat) == {kind + "." + p for p in values}, "the same values of the instrument")
        for p, v in values.items():
            if kind + "." + p in flat:
                prove(re_(flat[kind + "." + p]) == re_(v), "instrument: " + p)
    return run


def raw(record, length, dtype, order, lazy):
    """reading raw data as the keywords say"""
    def run():
        h, w, d = (fresh_int(k, 1, inp=True) for k in ("height", "width", "depth"))
        off = fresh_int("offset", 0, inp=True)
        seen = []

        def distributed(filename, dtype=None, shape=None, offset=0, chunks="auto", order="C", **k):
            seen.append((filename, np.dtype(dtype), tuple(shape), offset, chunks, order))
            return Lazy(SymArr.fresh("file", tuple(shape), np.dtype(dtype)))
        m = load_module(U, {"file": types.SimpleNamespace(memmap_distributed=distributed)})
        chunks = ("these chunks",)
        info = {"width": w, "height": h, "depth": d, "offset": off, "data-length": length, "data-type": dtype,
                "byte-order": order, "record-by": record}
        out = m.read_raw(info, "f.raw", chunks=chunks)
        (fn, dt, shape, o, ch, od), = seen
        expect(fn == "f.raw" and ch is chunks and od == "C", "file, chunks and memory order are passed on")
        prove(eqi(o, off), "the data begins at the offset")
        want = np.dtype({"signed": "i", "unsigned": "u", "float": "f"}[dtype] + length).newbyteorder(
            {"little-endian": "<", "big-endian": ">", "dont-care": "="}[order])
        expect(dt == want, "element type")
        sizes = {"vector": (h, w, d), "image": (d, h, w), "dont-care": (h, w)}[record]
        keep = [n for n in sizes if not entails(n.e == 1)]
        if not keep:
            expect(len(shape) == 1 and shape[0] == 1, "one element is read")
        else:
            expect(len(shape) == len(keep), "one dimension for each size but one")
            for a, b in zip(shape, keep):
                prove(eqi(a, b), "sizes in the order of the records")
        expect(out.ndim == len(keep), "the data has these dimensions")
    return run


def not_text(name):
    def run():
        m = load_module(U)
        try:
            m.read_raw({"width": 1, "height": 1, "depth": 1, "offset": 0, "data-length": "4", "data-type": name,
                        "byte-order": "dont-care", "record-by": "image"}, "f.raw")
        except TypeError:
            return
        expect(False, "an unknown type of data is refused")
    return run


def header(kv):
    """every keyword of the header keeps its value, of the right type"""
    def run():
        C().ghost["str_of"] = number
        files = {}
        m = load_module(U, builtin_over={"open": opener(files)})
        base = {"width": fresh_int("width", 1), "height": fresh_int("height", 1), "depth": fresh_int("depth", 1),
                "offset": fresh_int("offset", 0), "data-length": kv[0], "data-type": kv[1], "byte-order": kv[2],
                "record-by": kv[3]}
        keys = dict(base)
        for k, t in m.rpl_keys.items():
            if k not in keys:
                keys[k] = text(k) if t is str or getattr(t, "__name__", "") == "vc_str" else fresh_real(k.replace("-", "_"))
        for k in ("depth", "width", "height"):
            keys[k + "-name"] = text(k + "_name")
        m.write_rpl("f.rpl", keys)
        with TextFile(files, "f.rpl") as f:
            info = m.parse_ripple(f)
        for k, v in keys.items():
            expect(k in info, "keyword %s" % k)
            if isinstance(v, SymInt):
                prove(eqi(info[k], v), "value of " + k)
            elif is_sym(v):
                prove(re_(info[k]) == re_(v), "value of " + k)
            else:
                expect(info[k] == v, "value of " + k)
        expect(set(info) - set(keys) <= {"key"}, "no other keywords")
    return run


ORDERS = []
for _nd in (1, 2, 3):
    for _ns in (1, 2):
        if _ns <= _nd:
            for _sig in itertools.combinations(range(_nd), _ns):
                ORDERS.append((_nd, _sig))
CONTRACTS = []
for _o in ORDERS:
    for _i, (_dt, _bo) in enumerate(itertools.product(DTYPES, "<>")):
        if np.dtype(_dt).itemsize == 1 and _bo == ">":
            continue
        _st = ("", "EELS", "EDS_TEM", "EDS_SEM", "EDS")[_i % 5]
        CONTRACTS.append(Contract("%d dimensions, signal axes %s, %s%s, %s" % (_o[0], _o[1], _bo, _dt, _st or "no type"),
                                  saved(_o, np.dtype(_dt).newbyteorder(_bo), _st, _i % 2, ("all", "none", "some")[_i % 3]), W + R_))
for _st in ("", "EELS", "EDS_TEM", "EDS_SEM", "EDS"):
    for _in in ("all", "none", "some"):
        CONTRACTS.append(Contract("instrument of %s: %s" % (_st or "no type", _in),
                                  saved((1, (0,)), np.dtype("f8"), _st, 0, _in), W + R_))
for _r in ("vector", "image", "dont-care"):
    for _l, _t in [(l, t) for l in "1248" for t in ("signed", "unsigned")] + [("4", "float"), ("8", "float")]:
        for _b in ("little-endian", "big-endian", "dont-care"):
            CONTRACTS.append(Contract("raw %s %s %s %s" % (_r, _t, _l, _b), raw(_r, _l, _t, _b, True), [U + ":read_raw"]))
CONTRACTS.append(Contract("raw refused", not_text("complex"), [U + ":read_raw"]))
for _kv in (("4", "float", "little-endian", "vector"), ("8", "float", "big-endian", "image"), ("1", "unsigned", "dont-care", "dont-care"),
            ("2", "signed", "big-endian", "vector"), ("1", "signed", "dont-care", "image")):
    CONTRACTS.append(Contract("header %s" % " ".join(_kv), header(_kv), [U + ":write_rpl", U + ":parse_ripple"]))

ASSUMPTIONS = [
    "text written with str() is read as the same number by int() and float(); text in names, units, title, date and time "
    "has no tab, line break, semicolon, 'data-Length' or blank at its ends, and is neither 'None' nor '<undefined>'",
    "memmap_distributed by its contract (C01); numpy.tofile writes the elements in C order; dimensions of length one do "
    "not change row-major positions",
]


def search(s):
    logging.disable(logging.CRITICAL)
    from rsciio.ripple import file_reader, file_writer
    rng = s.rng
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c15_%d" % os.getpid())
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, "f.rpl")
    words = ["x", "Energy", "a b", "µ-1", "1", "key", "scale 2", "(a)", "depth", "0.5", "a:b", "#", "image", ":", "at 10:30", "b :c"]
    try:
        for it in range(s.n(1500, 15000)):
            if not s.left():
                break
            nd = rng.choice([1, 2, 3])
            ns = rng.choice([1, 2]) if nd > 1 else 1
            sig = sorted(rng.sample(range(nd), ns)) if rng.random() < 0.4 else list(range(nd - ns, nd))
            shape = tuple(rng.choice([1, 2, 3, 4, 5, 10]) for _ in range(nd))
            dt = np.dtype(rng.choice(DTYPES)).newbyteorder(rng.choice("<>="))
            r = np.random.RandomState(rng.randrange(2 ** 31))
            data = r.randint(0, 256, shape + (dt.itemsize,), dtype=np.uint8).view(dt)[..., 0]
            if dt.kind == "f":
                data = np.nan_to_num(data)
            if rng.random() < 0.3:
                data = np.asfortranarray(data)
            num = lambda: rng.choice([1, 0.5, -2.0, 1e-9, 10, 0.1, 123456.789, 1e22, np.float64(0.3), np.int64(3), 0,
                                      rng.uniform(-1e3, 1e3), 2.5e-300])
            word = lambda: " ".join(rng.choice(words) for _ in range(rng.randint(1, 2)))
            axes = [dict(size=shape[i], index_in_array=i, name=word(), scale=num(), offset=num(),
                         units=rng.choice(["nm", "", "eV", "µm", None, "1/nm", "A (b)"]), navigate=i not in sig) for i in range(nd)]
            st = rng.choice(["", "EELS", "EDS_TEM", "EDS_SEM", "EDS", "other"])
            md = {"General": {k: word() if rng.random() < 0.8 else "" for k in ("title", "date", "time")},
                  "Signal": {"signal_type": st}}
            values = {}
            kind = "SEM" if st == "EDS_SEM" else "TEM"
            if rng.random() < 0.7:
                md["Acquisition_instrument"] = {"TEM": {}, "SEM": {}}
                for p in INSTRUMENT.get(st, {}):
                    if rng.random() < 0.7:
                        values[p] = num()
                        d = md["Acquisition_instrument"][kind]
                        *head, last = p.split(".")
                        for h in head:
                            d = d.setdefault(h, {})
                        d[last] = values[p]
            case = dict(shape=shape, signal_axes=sig, dtype=str(dt), signal_type=st, instrument={k: float(v) for k, v in values.items()},
                        axes=[{k: a[k] if not isinstance(a[k], np.generic) else float(a[k]) for k in ("name", "scale", "offset", "units")}
                              for a in axes], general=md["General"])
            s.note(case)
            import copy
            keep = copy.deepcopy(axes)
            lazy = rng.random() < 0.3
            try:
                file_writer(path, dict(data=data, axes=axes, metadata=md, original_metadata={}))
                if rng.random() < 0.2:
                    os.replace(path[:-3] + "raw", path[:-3] + "RAW")
                r, = file_reader(path, lazy=lazy)
                got = np.asarray(r["data"])
            except Exception as exc:
                s.fail("saving or reading fails: %r" % exc, case)
                continue
            finally:
                for ext in ("rpl", "raw", "RAW"):
                    if os.path.exists(path[:-3] + ext):
                        os.unlink(path[:-3] + ext)
            order = [i for i in range(nd) if i not in sig] + sig
            want = data.transpose(order)
            want = want.reshape([n for n in want.shape if n > 1])
            case["got shape"] = got.shape
            s.check(got.dtype == dt and got.shape == want.shape and got.tobytes() == want.tobytes(), "data", case)
            exp = [keep[i] for i in order if shape[i] > 1]
            case["got axes"] = [{k: str(v) for k, v in a.items()} for a in r["axes"]]
            s.check(len(exp) == len(r["axes"]), "number of axes", case)
            for k, (a, b) in enumerate(zip(exp, r["axes"])):
                s.check(all(a[q] == b[q] for q in ("size", "name", "scale", "offset", "units", "navigate"))
                        and b["index_in_array"] == k, "axis %d" % k, case)
            s.check(all(r["metadata"]["General"][k] == md["General"][k] for k in md["General"]), "general metadata", case)
            s.check(r["metadata"]["Signal"]["signal_type"] == st, "signal type", case)
            flat = {}

            def walk(d, p=()):
                for k, v in d.items():
                    walk(v, p + (k,)) if isinstance(v, dict) else flat.__setitem__(".".join(p + (k,)), v)
            walk(r["metadata"].get("Acquisition_instrument", {}))
            case["got instrument"] = {k: str(v) for k, v in flat.items()}
            s.check(flat == {kind + "." + p: v for p, v in values.items()}, "instrument", case)
        for it in range(s.n(300, 3000)):
            if not s.left():
                break
            h, w, d = (rng.choice([1, 2, 3, 5]) for _ in range(3))
            rec = rng.choice(["vector", "image", "dont-care"])
            kind, ln = rng.choice([("signed", 1), ("signed", 2), ("signed", 4), ("signed", 8), ("unsigned", 1), ("unsigned", 2),
                                   ("unsigned", 4), ("unsigned", 8), ("float", 4), ("float", 8)])
            bo = rng.choice(["little-endian", "big-endian", "dont-care"]) if ln > 1 else "dont-care"
            off = rng.choice([0, 0, 1, 16, 100])
            if rec == "dont-care":
                d = 1
            shape = {"vector": (h, w, d), "image": (d, h, w), "dont-care": (h, w)}[rec]
            dt = np.dtype({"signed": "i", "unsigned": "u", "float": "f"}[kind] + str(ln)).newbyteorder(
                {"little-endian": "<", "big-endian": ">", "dont-care": "="}[bo])
            r = np.random.RandomState(rng.randrange(2 ** 31))
            data = np.nan_to_num(r.randint(0, 256, shape + (ln,), dtype=np.uint8).view(dt)[..., 0])
            style = rng.choice(["plain", "comment", "bruker"])
            lines = [("key", "value")] + [(k, str(v)) for k, v in (
                ("width", w), ("height", h), ("depth", d), ("offset", off), ("data-length" if style != "bruker" else "data-Length", ln),
                ("data-type", kind), ("byte-order", bo), ("record-by", rec), ("ev-per-chan", 10))]
            text_ = "".join(k + "\t" + v + (" ; note" if style == "comment" else "") + "\n" for k, v in lines)
            if rng.random() < 0.3:
                text_ = "; a comment\n\n" + text_
            case = dict(header=text_)
            s.note(case)
            with open(path, "w") as f:
                f.write(text_)
            with open(path[:-3] + "raw", "wb") as f:
                f.write(bytes(r.randint(0, 256, off, dtype=np.uint8)) + data.tobytes())
            try:
                out, = file_reader(path, lazy=rng.random() < 0.3)
                got = np.asarray(out["data"])
            except Exception as exc:
                s.fail("reading fails: %r" % exc, case)
                continue
            want = data.reshape([n for n in shape if n > 1])
            s.check(got.dtype == dt and got.shape == want.shape and got.tobytes() == want.tobytes(), "raw data", case)
            s.check([a["size"] for a in out["axes"]] == list(want.shape), "axes of the raw data", case)
            dep = [a for a in out["axes"] if a["name"] == "depth"]
            s.check(all(a["scale"] == 10 for a in dep), "calibration of the channels", case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
