"""C06: colour arrays (structured R, G, B[, A]) and arrays of components are the same picture."""
import itertools
import logging
import os

from .common import *

ID = "C06"
U = "rsciio/utils/rgb.py"


class Flags:
    def __init__(self, c):
        self.c = c

    def __getitem__(self, k):
        if k in ("C_CONTIGUOUS", "C"):
            return self.c
        raise Unsupported("flags[%r]" % k)

    c_contiguous = property(lambda self: self.c)


class Pix(Sym):
    """an array whose items are numbers, or structures of numbers; val(idx, byte offset in the item)"""

    def __init__(self, shape, dtype, val, contig, masked=False, lazy=False, scale=1):
        self.shape, self.dtype, self.val = tuple(shape), np.dtype(dtype), val
        self.contig, self.masked, self.lazy, self.scale = contig, masked, lazy, scale
        self.flags = Flags(contig)

    ndim = property(lambda self: len(self.shape))

    def compute(self):
        expect(self.lazy, "only lazy arrays are computed")
        return Pix(self.shape, self.dtype, self.val, C().fork(fresh_bool("contig").e), False)

    def copy(self, order="C"):
        return Pix(self.shape, self.dtype, self.val, order == "C", self.masked)

    def view(self, dt):
        if self.lazy:
            raise Unsupported("view of a lazy array")
        new = np.dtype(dt)
        if new.subdtype is not None and self.dtype.names:
            sub, (k,) = new.subdtype
            if sub.itemsize * k != self.dtype.itemsize:
                raise Unsupported("view changes the size of the items")
            return Pix(self.shape + (k,), sub, lambda idx, off, extra=0, v=self.val, n=self.ndim, z=sub.itemsize:
                       v(idx[:n], off, idx[n] * z), True, self.masked)
        if new.names and not self.dtype.names:
            expect(self.contig, "a view with another item size needs contiguous data")
            k = self.shape[-1]
            if is_sym(k) or new.itemsize != int(k) * self.dtype.itemsize:
                raise Unsupported("view changes the size of the last dimension")
            z = self.dtype.itemsize
            return Pix(self.shape[:-1] + (1,), new, lambda idx, off, extra=0, v=self.val, n=self.ndim:
                       v(tuple(idx[:n - 1]) + ((off + extra) // z,), 0), True, self.masked)
        raise Unsupported("view as %r" % (dt,))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if self.shape[-1:] == (1,) and len(shape) == self.ndim - 1 and all(a is b for a, b in zip(shape, self.shape)):
            return Pix(shape, self.dtype, lambda idx, off, extra=0, v=self.val: v(tuple(idx) + (0,), off, extra),
                       True, self.masked)
        raise Unsupported("reshape to %r" % (shape,))

    def astype(self, dt):
        return Pix(self.shape, dt, self.val, self.contig, self.masked, scale=self.scale)

    def __itruediv__(self, d):
        expect(self.dtype.kind == "f", "only floating point data are divided in place")
        self.scale = self.scale / d
        return self

    def __truediv__(self, d):
        return Pix(self.shape, "f8", self.val, self.contig, self.masked, scale=self.scale / d)

    def comp(self, idx, c):
        """component c of pixel idx"""
        if self.dtype.names:
            name = "RGBA"[c]
            return self.val(tuple(idx), self.dtype.fields[name][1], 0)
        return self.val(tuple(idx) + (c,), 0, 0)


def mod():
    ident = lambda a, **k: Pix(a.shape, a.dtype, a.val, True, False)

    class Ma:
        @staticmethod
        def is_masked(a):
            return a.masked
    import contextlib
    return load_module(U, {"is_dask_array": lambda x: x.lazy,
                           "get_progress_bar_context_manager": lambda p: contextlib.nullcontext},
                       np_over=dict(ascontiguousarray=ident, ma=Ma))


def shape_(nd):
    return tuple(fresh_int("n%d" % i, 0) for i in range(nd))


def source(nd, dt, regular, lazy=False):
    """an arbitrary picture"""
    dims = shape_(nd)
    f = z3.Function("pixel%d" % nd, *([I] * (nd + 1)), R)
    contig = C().fork(fresh_bool("contiguous").e)
    masked = not lazy and C().fork(fresh_bool("masked").e)
    d = np.dtype(dt)
    if regular is None:
        z = d.fields["R"][0].itemsize

        def val(idx, off, extra=0):
            return f(*[ie(i) for i in idx], z3.IntVal((off + extra) // z))
        return dims, f, Pix(dims, d, val, contig, masked, lazy)

    def val(idx, off=0, extra=0):
        return f(*[ie(i) for i in idx])
    return dims, f, Pix(dims + (regular,), d, val, contig, masked, lazy)


def same_picture(p, dims, f, k, scale=1):
    nd = len(dims)
    ix = tuple(fresh_int("i%d" % i, 0) for i in range(nd))
    for i, n in zip(ix, dims):
        assume(i < n)
    for c in range(k):
        prove(p.comp(ix, c) == f(*[ie(i) for i in ix], z3.IntVal(c)), "component %s" % "RGBA"[c])
    expect(p.scale == scale, "scale of the components")


NAMES = {"rgb8": ("u1", 3), "rgba8": ("u1", 4), "rgb16": ("u2", 3), "rgba16": ("u2", 4)}


def to_regular(nd, name, lazy, friendly):
    def run():
        m = mod()
        dt = m.RGB_DTYPES[name]
        z, k = NAMES[name]
        expect(dt.names == tuple("RGBA"[:k]) and all(dt.fields[n][0] == np.dtype(z) for n in dt.names), "the colour type")
        dims, f, p = source(nd, dt, None, lazy)
        expect(bool(m.is_rgbx(p)) and bool(m.is_rgba(p)) == (k == 4) and bool(m.is_rgb(p)) == (k == 3), "recognised")
        out = m.rgbx2regular_array(p, plot_friendly=friendly, show_progressbar=False)
        expect(len(out.shape) == nd + 1 and all(a is b for a, b in zip(out.shape, dims)) and out.shape[-1] == k,
               "one more dimension")
        fl = friendly and z == "u2"
        expect(out.dtype == np.dtype("f8" if fl else z), "type of the components")
        same_picture(out, dims, f, k, 1 / 65535 if fl else 1)
    return run


def to_rgb(nd, z, k):
    def run():
        m = mod()
        dims, f, p = source(nd, z, k)
        out = m.regular_array2rgbx(p)
        expect(out.shape == dims and out.dtype.names == tuple("RGBA"[:k]) and bool(m.is_rgbx(out)), "a colour array")
        same_picture(out, dims, f, k)
        back = m.rgbx2regular_array(out)
        expect(back.dtype == np.dtype(z) and back.shape[-1] == k, "and back")
        same_picture(back, dims, f, k)
    return run


def refused(z, k):
    def run():
        m = mod()
        dims, f, p = source(2, z, k)
        try:
            m.regular_array2rgbx(p)
        except ValueError:
            return
        expect(False, "an array that holds no colours is refused")
    return run


def other(dt):
    def run():
        m = mod()
        dims, f, p = source(2, dt, 5)
        out = m.rgbx2regular_array(p)
        expect(not m.is_rgbx(p) and out.dtype == p.dtype and out.shape == p.shape, "other arrays are returned as they are")
        same_picture(out, dims, f, 4)
    return run


class Pic:
    """an array of which only the shape matters"""

    def __init__(self, shape, origin, gone=()):
        self.shape, self.ndim, self.origin, self.gone = tuple(shape), len(shape), origin, gone

    def squeeze(self, axis=None):
        if axis is None:
            axis = tuple(i for i in range(self.ndim) if self.shape[i] == 1)
        if not isinstance(axis, tuple):
            axis = (axis,)
        if self.gone:
            raise Unsupported("squeezed twice")
        axis = tuple(int(i) % self.ndim for i in axis)
        for i in axis:
            prove((self.shape[i] == 1).e, "only dimensions of length one are taken away")
        return type(self)([n for i, n in enumerate(self.shape) if i not in axis], self.origin, axis)


class Chan(Pic):
    """one channel of an image"""

    @property
    def c(self):
        return self.origin[1]

    def __eq__(self, o):
        return Same(self.c, o.c)

    __hash__ = None


class Colour(Pic):
    pass


class Same:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def all(self):
        if self.a == self.b:
            return True
        k = ("same", frozenset((self.a, self.b)))
        if k not in C().ghost:
            C().ghost[k] = bool(fresh_bool("same_%s%s" % (self.a, self.b)))
        return C().ghost[k]


class Image:
    def __init__(self, shape, k):
        self.shape, self.ndim = tuple(shape) + (k,), len(shape) + 1

    def __getitem__(self, key):
        if isinstance(key, tuple) and isinstance(key[-1], int) and (
                key[0] is Ellipsis and len(key) == 2 or len(key) == self.ndim and all(q == slice(None) for q in key[:-1])):
            return Chan(self.shape[:-1], (self, key[-1]))
        raise Unsupported("part of an image")


def read_image(nd, k):
    def run():
        im = Image(shape_(nd), k)
        done = []

        def squeeze(x, axis=None):
            if isinstance(x, Pic):
                return x.squeeze(axis)
            raise Unsupported("squeeze of the whole image")
        import types
        m = load_module("rsciio/image/_api.py", {"iio": types.SimpleNamespace(imread=lambda fn, **kw: im)},
                        np_over=dict(squeeze=squeeze))
        import rsciio.utils.rgb as rgb
        from unittest import mock

        def conv(x):
            expect(x is im, "the whole image is converted")
            return Colour(im.shape[:-1], im)
        with mock.patch.object(rgb, "regular_array2rgbx", conv):
            out = m._read_data("f.png")
        eq = lambda a, b: Same(a, b).all()
        if isinstance(out, Chan):
            expect(out.c in (0, 1, 2) and (eq(0, 1) and eq(1, 2)), "read as grayscale only if the three channels agree")
        else:
            expect(isinstance(out, Colour) and out.origin is im, "read in colour")
        expect(all(i < nd - 2 for i in out.gone), "the two dimensions of the image stay")
        for i in range(nd - 2):
            if i not in out.gone:
                prove((im.shape[i] != 1).e, "frames of a single image are left out")
    return run


CONTRACTS = []
F1, F2 = [U + ":rgbx2regular_array", U + ":is_rgb", U + ":is_rgba", U + ":is_rgbx"], [U + ":regular_array2rgbx"]
for _nd in (1, 2, 3, 4):
    for _name in NAMES:
        for _lazy in (False, True):
            for _fr in (False, True):
                CONTRACTS.append(Contract("%s with %d dimensions%s%s" % (_name, _nd, ", lazy" if _lazy else "",
                                                                         ", for plots" if _fr else ""),
                                          to_regular(_nd, _name, _lazy, _fr), F1))
    for _z, _k in (("u1", 3), ("u1", 4), ("u2", 3), ("u2", 4)):
        CONTRACTS.append(Contract("%d components %s with %d dimensions" % (_k, _z, _nd), to_rgb(_nd, _z, _k), F2 + F1))
for _z, _k in (("u4", 3), ("i2", 3), ("f4", 4), ("u1", 2), ("u1", 5), ("u2", 1), ("b1", 3)):
    CONTRACTS.append(Contract("refused: %d components %s" % (_k, _z), refused(_z, _k), F2))
for _dt in ("u1", "u2", "f8"):
    CONTRACTS.append(Contract("not colour: %s" % _dt, other(_dt), F1))
for _nd in (2, 3):
    for _k in (3, 4):
        CONTRACTS.append(Contract("image file, %d dimensions, %d channels" % (_nd, _k), read_image(_nd, _k),
                                  ["rsciio/image/_api.py:_read_data"]))

ASSUMPTIONS = [
    "numpy: a view of contiguous data keeps the bytes; a structure of equal fields has its fields one after the other",
    "dimensions enumerated 1-4; imageio and tifffile store and return what they are given (the search runs them)",
    "an image whose three colour channels agree everywhere is read as grayscale (an alpha channel is then dropped)",
]


def search(s):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import dask.array as da
    from rsciio import image, tiff
    from rsciio.utils import rgb
    rng = np.random.default_rng(s.seed)
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c06_%d" % os.getpid())

    def picture(sh, name):
        z, k = NAMES[name]
        hi = 256 if z == "u1" else 65536
        a = rng.integers(0, hi, sh + (k,)).astype(z)
        mode = rng.integers(0, 7)
        if mode < 3:
            a[..., (mode + 1) % 3] = a[..., mode]       # two channels agree
        elif mode == 3:
            a[..., :3] = a[..., :1]
            if a.size:
                a[(0,) * len(sh)][rng.integers(0, 3)] ^= 1      # agree but for one pixel
        if mode > 4 and rng.random() < 0.4:
            a[..., rng.integers(0, k)] = rng.choice([0, hi - 1])    # a constant channel
        return a
    for it in range(s.n(1500, 40000)):
        if not s.left():
            break
        name = ("rgb8", "rgba8", "rgb16", "rgba16")[rng.integers(0, 4)]
        z, k = NAMES[name]
        sh = tuple(int(x) for x in rng.integers(1, 6, rng.integers(1, 5)))
        a = picture(sh, name)
        order = rng.integers(0, 5)
        v = a
        if order == 1:
            v = np.asfortranarray(a)
        elif order == 2:
            v = np.concatenate([a, a], axis=0)[::2] if sh[0] % 2 == 0 else a[::-1][::-1]
            a = np.array(v)
        elif order == 3:
            w = np.zeros(sh + (k + 2,), z)
            w[..., 1:k + 1] = a
            v = w[..., 1:k + 1]
        elif order == 4:
            v = np.ma.array(a, mask=rng.random(a.shape) < 0.3)
        case = dict(kind=name, shape=sh, values=a.tolist(), layout=int(order))
        s.note(case)
        try:
            c = rgb.regular_array2rgbx(v)
            ok = c.dtype == rgb.RGB_DTYPES[name] and c.shape == sh and all(
                np.array_equal(np.asarray(c[n]), a[..., i]) for i, n in enumerate("RGBA"[:k]))
            s.check(ok, "components to colours", case)
            x = c if order != 1 or len(sh) < 2 else np.asfortranarray(c)
            if order == 2:
                x = np.asarray(c)[::-1]
                back = rgb.rgbx2regular_array(x)[::-1]
            elif order == 0 and rng.random() < 0.4:
                back = rgb.rgbx2regular_array(da.from_array(np.asarray(x)), show_progressbar=False)
            else:
                back = rgb.rgbx2regular_array(x)
            s.check(back.dtype == np.dtype(z) and np.array_equal(np.asarray(back), a), "colours to components", case)
            pf = rgb.rgbx2regular_array(c, plot_friendly=True)
            if order == 4:
                pf = np.ma.filled(pf, 7)
            want = a if z == "u1" else a / 65535
            if order == 4:
                want = np.where(np.ma.getmaskarray(v), 7, want).astype(want.dtype)
            s.check(pf.dtype.kind == ("u" if z == "u1" else "f") and np.allclose(np.asarray(pf), want, rtol=1e-12, atol=0),
                    "components for plots", case)
            s.check(rgb.is_rgbx(c) and rgb.is_rgba(c) == (k == 4) and rgb.is_rgb(c) == (k == 3)
                    and not rgb.is_rgbx(a), "recognised", case)
        except Failure:
            raise
        except Exception as exc:
            case["error"] = repr(exc)
            s.fail("conversion fails", case)
            continue
        if len(sh) == 2 or len(sh) == 3:
            c = np.asarray(c)
            sig = dict(data=c, axes=[dict(name=n, size=m, scale=1.0, offset=0.0, units="nm", navigate=False)
                                     for n, m in zip("zyx"[-len(sh):], sh)], metadata={}, original_metadata={})
            lazy = rng.random() < 0.3
            for mod_, ext in ((image, "png"), (image, "gif"), (tiff, "tif")):
                if ext == "gif" and k == 4:
                    continue
                if ext != "tif" and (z != "u1" or len(sh) != 2) or len(sh) == 3 and sh[0] == 1:
                    continue
                path = base + "." + ext
                try:
                    mod_.file_writer(path, sig)
                    r = mod_.file_reader(path, lazy=lazy)[0]
                    got = np.asarray(r["data"])
                    gray = ext != "tif" and (a[..., 0] == a[..., 1]).all() and (a[..., 1] == a[..., 2]).all()
                    if gray:
                        s.check(np.array_equal(got, a[..., 0]), "grayscale " + ext, case)
                    else:
                        s.check(got.dtype == c.dtype and got.shape == c.shape and bool((got == c).all()),
                                "colours read from " + ext, dict(case, got=repr(got)))
                        s.check([x["size"] for x in r["axes"]] == list(sh), "axes of the colour image " + ext, case)
                except Failure:
                    raise
                except Exception as exc:
                    s.fail("saving or reading %s fails: %r" % (ext, exc), case)
                finally:
                    if os.path.exists(path):
                        os.unlink(path)
