"""C28: image stacks saved to MRCZ files are read back unchanged."""
import itertools
import os
import types

from .common import *

ID = "C28"
U = "rsciio/mrcz/_api.py"
FN = [U + ":file_writer", U + ":file_reader", U + ":_parse_metadata"]
NM = {"nm": (1, 1), "pm": (1, 1000), "A": (1, 10), "\u00c5": (1, 10), "\u00b5m": (1000, 1), "m": (10 ** 9, 1), "um": (1000, 1), "mm": (10 ** 6, 1)}


class Stack(Sym):
    """pixels, known by the array that they were saved from"""

    def __init__(self, shape, origin, lazy):
        self.shape, self.origin, self.lazy = tuple(shape), origin, lazy

    ndim = property(lambda self: len(self.shape))
    dtype = np.dtype("f4")

    def product(self, shape):
        p = z3.IntVal(1)
        for n in shape:
            p = p * ie(n)
        return p

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        prove(self.product(self.shape) == self.product(shape), "the pixels keep their number")
        # C order: shapes that differ by dimensions of length one only keep the place of pixels
        keep = lambda t: [n for n in t if is_sym(n) or n != 1]
        a, b = keep(self.shape), keep(shape)
        expect(len(a) == len(b), "dimensions of length one only are inserted")
        for x, y in zip(a, b):
            prove(eqi(x, y), "each dimension keeps its size")
        return Stack(shape, self.origin, self.lazy)




def stand_in(given, dims, disk):
    """the mrcz library: what is written can be read"""
    def write(how):
        def f(data, filename, meta=None, endian="le", dtype=None, pixelsize=None, pixelunits="\\AA", shape=None, voltage=0.0, C3=0.0, gain=1.0,
              compressor=None, clevel=1, n_threads=None, quickStats=True, idx=None, backend=None):
            expect(not disk, "the file is written once")
            expect(filename == "f.mrcz" and data is given and dtype is None and shape is None and idx is None, "the data go to the file as they are")
            ps = list(pixelsize)
            expect(len(ps) in (1, 2, 3), "one pixel size for each dimension of the stack")
            # units as the library knows them, in 10000ths of an angstrom
            unit = {"\\AA": z3.RealVal("0.1"), "\\mum": z3.RealVal(1000), "pm": z3.RealVal("0.001")}.get(pixelunits, z3.RealVal(1))
            if len(ps) == 1:
                ps = ps * 3
            elif len(ps) == 2:
                ps = [1.0] + ps
            # the library keeps zero voltage and gain of one for values that are not given
            none = lambda v, d: d if v is None else v
            disk.update(how=how, endian=endian, pixelsize=[re_(p) * unit for p in ps], voltage=none(voltage, 0.0), C3=C3, gain=none(gain, 1.0),
                        meta=meta, options=(compressor, clevel, n_threads))
        return f

    def read(filename, idx=None, endian="le", pixelunits="\\AA", fileConvention="ccpem", useMemmap=False, n_threads=None, slices=None):
        expect(filename == "f.mrcz" and idx is None and slices is None and fileConvention == "ccpem", "the whole file is read")
        expect(endian == disk["endian"], "the byte order asked for")
        disk["threads"] = n_threads
        unit = {"\\AA": z3.RealVal(10), "\\mum": z3.RealVal("0.0001"), "pm": z3.RealVal(1000)}.get(pixelunits, z3.RealVal(1))
        full = (1,) * (3 - len(dims)) + tuple(dims)
        header = {"dimensions": list(full), "MRCtype": 2, "compressor": None, "dtype": "<f4", "pixelsize": [mk_real(p * unit) for p in disk["pixelsize"]],
                  "pixelunits": pixelunits, "minImage": 0.0, "maxImage": 1.0, "meanImage": 0.5, "extendedBytes": 10, "metaId": b"json",
                  "voltage": disk["voltage"], "C3": disk["C3"], "gain": disk["gain"], "packedBytes": 0}
        for k, v in disk["meta"].items():
            if k not in header:
                header[k] = v
        shape = full if useMemmap else tuple(n for n in full if is_sym(n) or n != 1)
        return Stack(shape, given, useMemmap), header
    return types.SimpleNamespace(writeMRC=write("now"), asyncWriteMRC=write("later"), readMRC=read, __version__="0.6.0")


def roundtrip(one, lazy, units, endian, energy, gain, options, later):
    def run():
        dims = tuple(1 if c else fresh_int("n%d" % i, 2, inp=True) for i, c in enumerate(one))
        nd = len(dims)
        scales = [fresh_real("scale%d" % i, inp=True) for i in range(nd)]
        axes = [dict(index_in_array=i, name="zyx"[3 - nd + i], size=dims[i], scale=scales[i], offset=0.0, units=units[3 - nd + i], navigate=i < nd - 2)
                for i in range(nd)]
        md = {"General": {"title": "a \u00b5"}, "Signal": {"signal_type": ""}}
        if energy:
            ev = 200.0 if energy == 1 else fresh_real("energy", inp=True)
            md["Acquisition_instrument"] = {"TEM": {"beam_energy": ev, "camera_length": 7}}
        if gain:
            gv = fresh_real("gain", inp=True)
            md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": gv}}
        given, disk = Stack(dims, None, False), {}
        m = load_module(U, {"_mrcz": stand_in(given, dims, disk)})
        compressor, clevel, threads = options
        m.file_writer("f.mrcz", {"data": given, "axes": axes, "metadata": md}, endianness=endian, do_async=later, compressor=compressor, clevel=clevel,
                      n_threads=threads)
        expect(disk and disk["how"] == ("later" if later else "now"), "the file is written")
        expect(disk["options"] == (compressor, clevel, threads), "options of the compression")
        expect(disk["endian"] == ("le" if endian == "<" else "be"), "byte order of the file")
        out = m.file_reader("f.mrcz", lazy=lazy, endianness=endian)
        expect(len(out) == 1, "one signal")
        r = out[0]
        full = (1,) * (3 - nd) + dims
        d = r["data"]
        expect(isinstance(d, Stack) and d.origin is given and len(d.shape) == 3, "the pixels")
        expect(d.lazy == lazy, "mapped to memory if lazy")
        expect(len(r["axes"]) == 3, "three axes")
        for i, a in enumerate(r["axes"]):
            prove(z3.And(eqi(d.shape[i], full[i]), eqi(a["size"], full[i])), "size of each dimension")
            expect((a["name"], a["navigate"], a["index_in_array"], a["units"]) == ("zyx"[i], i == 0, i, "nm"), "name, place, kind and units of the axis")
            prove(re_(a["offset"]) == 0, "offset")
            j = i - 3 + nd
            if j >= 0:
                num, den = NM.get(units[i], (1, 1))
                want = scales[j].e * num / den
                got = re_(a["scale"])
                # floating-point factors: 0.1 and 0.001 are not these numbers exactly
                prove(z3.And((got - want) * 10 ** 9 <= z3.If(want < 0, -want, want), (want - got) * 10 ** 9 <= z3.If(want < 0, -want, want)), "scale of the axis, in nm")
        for k, v in md.items():
            expect(r["metadata"].get(k) == v, "the metadata")
        expect(set(r["metadata"]) <= set(md), "nothing else in the metadata")
        h = r["original_metadata"]["mrcz_header"]
        for key, path, value in (("voltage", "Acquisition_instrument.TEM.beam_energy", ev if energy else 0.0),
                                 ("gain", "Signal.Noise_properties.Variance_linear_model.gain_factor", gv if gain else 1.0)):
            to, f = r["mapping"]["mrcz_header." + key]
            expect(to == path, "place of %s in the metadata" % key)
            prove(re_(f(h[key])) == re_(value), "the " + key)
    return run


def only_c():
    m = load_module(U, {"_mrcz": stand_in(None, (2, 2, 2), {})})
    try:
        m.file_reader("f.mrcz", mmap_mode="r")
    except ValueError:
        return
    expect(False, "modes of the memory map other than c are refused")


CONTRACTS = [Contract("modes of the memory map", only_c, [U + ":file_reader"])]
UNITS = [("nm", "nm", "nm"), ("\u00b5m", "\u00b5m", "\u00b5m"), ("\u00c5", "pm", "pm"), ("s", "A", "m"), (None, "mm", "um"), ("pm", "", None)]
ONES = [o for n in (2, 3) for o in itertools.product((False, True), repeat=n)]
k = 0
for one in ONES:
    for units in UNITS:
        for lazy in (False, True):
            k += 1
            energy, gain, endian = k % 3, (k // 2) % 2, "<>"[(k // 3) % 2]
            options = [(None, 1, None), ("zstd", 1, 4), ("lz4", 9, None)][k % 7 % 3]
            CONTRACTS.append(Contract("%s %s %s %s%s" % ("x".join("1" if c else "n" for c in one), "/".join(str(u) for u in units), endian,
                                                         "lazy" if lazy else "eager", " later" if k % 5 == 0 else ""),
                                      roundtrip(one, lazy, units, endian, energy, gain, options, k % 5 == 0), FN))

ASSUMPTIONS = [
    "mrcz: readMRC gives the pixels, sizes, pixel size, voltage, gain and JSON metadata that writeMRC was given (squeezed unless mapped to memory), "
    "pixel sizes kept in angstroms and given in the units asked for; the search runs the library, uncompressed files only (blosc is not installed)",
    "numpy: reshape to a shape that differs by dimensions of length one keeps each pixel at its place",
    "floating-point products of scales treated as real numbers, factors between units to 1e-9",
]


def search(s):
    import copy
    import logging
    import dask.array as da
    from rsciio import mrcz
    logging.disable(logging.CRITICAL)
    rng = s.rng
    fn = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c28_%d.mrcz" % os.getpid())
    lengths = list(NM)
    try:
        for it in range(s.n(1200, 20000)):
            if not s.left():
                break
            dt = rng.choice(["i1", "i2", "u2", "f4", "c8", ">i2", ">u2", ">f4", ">c8", "f8", "c16"])
            nd = rng.choice([2, 3, 3, 3])
            shape = (rng.randint(1, 4), rng.randint(1, 6), rng.randint(1, 6))[-nd:]
            data = (np.arange(int(np.prod(shape))) * 37 % 251 - (0 if dt[-2:] == "u2" else 125)).reshape(shape).astype(dt)
            if "c" in dt:
                data = data * (1 - 2j)
                data = data.astype(dt)
            lay = rng.randrange(4)
            if lay == 1:
                data = data[..., ::-1]
            elif lay == 2:
                data = np.asfortranarray(data)
            names = "zyx"[-nd:]
            units = [rng.choice(lengths + ["nm"] * 4 + ["s", None, "1/nm"]) for _ in shape]
            scales = [rng.choice([1.0, 0.25, 1e-3, 3.3, 7e4, 2, rng.random()]) for _ in shape]
            axes = [dict(name=n, units=u, navigate=n == "z", size=m, scale=sc, offset=0.0, index_in_array=i)
                    for i, (n, m, sc, u) in enumerate(zip(names, shape, scales, units))]
            md = {"General": {"title": rng.choice(["t", "\u00e9", ""]), "n": 3, "l": [1, 2.5, {"a": None}], "ok": True}, "Signal": {"signal_type": ""}}
            energy = rng.choice([None, 200.0, 80, 300.5])
            gain = rng.choice([None, 1.0, 2.5])
            if energy is not None:
                md["Acquisition_instrument"] = {"TEM": {"beam_energy": energy, "stage": {"tilt_alpha": -1.5}}}
            if gain is not None:
                md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": gain}}
            end, lazy = rng.choice("<>"), rng.random() < 0.5
            case = dict(dtype=dt, shape=shape, units=units, scales=scales, endianness=end, lazy=lazy, layout=lay, energy=energy, gain=gain)
            s.note(case)
            given = da.from_array(data, chunks=2) if rng.random() < 0.25 else data
            sig = dict(data=given, axes=axes, metadata=md)
            before = copy.deepcopy((axes, md))
            try:
                kw = {} if end == "<" and rng.random() < 0.5 else dict(endianness=end)
                mrcz.file_writer(fn, sig, **kw)
                s.check((axes, md) == before, "saving leaves the signal alone", case)
                res = mrcz.file_reader(fn, **kw) if not lazy and rng.random() < 0.5 else mrcz.file_reader(fn, lazy=lazy, **kw)
            except Failure:
                raise
            except Exception as exc:
                s.fail("saving or reading fails: %r" % exc, case)
                continue
            s.check(len(res) == 1, "one signal", case)
            r = res[0]
            d = np.asarray(r["data"])
            s.check(isinstance(r["data"], np.memmap) == lazy, "mapped to memory if lazy", case)
            want = data.astype({"f8": "f4", "c16": "c8"}.get(dt, dt)).reshape((1,) * (3 - nd) + shape)
            s.check(d.shape == want.shape and d.dtype == want.dtype.newbyteorder(end) and bool((d == want).all()), "pixels of the stack", dict(case, got=repr(d)))
            s.check(len(r["axes"]) == 3, "three axes", case)
            for i, a in enumerate(r["axes"]):
                c = dict(case, axis=i, got=repr(a))
                s.check((a["name"], a["size"], a["index_in_array"], a["navigate"], a["units"], a["offset"]) == ("zyx"[i], want.shape[i], i, i == 0, "nm", 0), "axis", c)
                j = i - 3 + nd
                if j >= 0:
                    num, den = NM.get(units[j], (1, 1))
                    w = scales[j] * num / den
                    s.check(abs(a["scale"] - w) <= 1e-6 * w, "scale in nm", dict(c, want=w))
            s.check(r["metadata"] == md, "metadata", dict(case, got=repr(r["metadata"])))
            h = r["original_metadata"]["mrcz_header"]
            for key, v in (("voltage", energy or 0), ("gain", gain or 1)):
                path, f = r["mapping"]["mrcz_header." + key]
                s.check(abs(f(h[key]) - v) < 1e-4, key, dict(case, got=repr(h[key])))
                s.check(path.split(".")[-1] == {"voltage": "beam_energy", "gain": "gain_factor"}[key], "place of " + key, case)
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
