"""Binary files as a row of pieces: records, arrays, bytes, frames.

What is written is kept piece by piece with its place; what is read must begin and end where pieces do, with the
layout they were written in (the bytes of a number are those of the same number in the same type and byte order).
"""
import numpy as np
import z3

from .arr import SymArr
from .engine import C, Unsupported, prove
from .sym import Sym, SymBytes, SymInt, SymReal, cast_int, fresh_int, ie, is_sym, mk_int, re_, vlen


def entails(e):
    return not C().feasible(z3.Not(e))


def same(a, b):
    return a == b if not is_sym(a) and not is_sym(b) else entails(ie(a) == ie(b))


class Cell:
    """a field of a structured array with one record"""

    def __init__(self, rec, name):
        self.rec, self.name = rec, name

    def __len__(self):
        return 1

    shape = (1,)

    def __getitem__(self, k):
        if k != 0 and k != -1:
            raise IndexError("index out of bounds")
        return self.rec.values[self.name]

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) or k == 0 or k == -1):
            raise IndexError("index out of bounds")
        self.rec.values[self.name] = cast(v, self.rec.dtype.fields[self.name][0])


def cast(v, dt):
    """what numpy stores"""
    if not is_sym(v):
        tmp = np.zeros(1, dt)
        tmp[0] = v
        return tmp[0]
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if isinstance(v, SymReal):
            e = re_(v)
            t = mk_int(e.arg(0) if z3.is_to_real(e) else z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
            t = t if is_sym(t) else SymInt(z3.IntVal(t))
            return t if C().fork(z3.And(t.e >= int(info.min), t.e <= int(info.max))) else fresh_int("wrapped", int(info.min), int(info.max))
        if not C().fork(z3.And(ie(v) >= int(info.min), ie(v) <= int(info.max))):
            raise OverflowError("Python integer out of bounds for %s" % dt)
        return v
    if dt.kind == "f":
        return v if isinstance(v, SymReal) else SymReal(z3.ToReal(ie(v)))
    raise Unsupported("symbolic value in a field of type %s" % dt)


class Record:
    """structured array with one record"""

    def __init__(self, dtype, values=None):
        self.dtype = np.dtype(dtype)
        self.values = dict(values) if values else {n: np.zeros(1, self.dtype.fields[n][0])[0] for n in self.dtype.names}

    shape = (1,)
    ndim = size = 1

    def __len__(self):
        return 1

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.values:
                raise ValueError("no field of name %s" % k)
            return Cell(self, k)
        if k in (0, -1):
            return {n: self.values[n] for n in self.dtype.names}
        raise Unsupported("index %r of a record" % (k,))

    def __setitem__(self, k, v):
        if isinstance(v, Cell):
            v = v[0]
        self.values[k] = cast(v[0] if isinstance(v, (list, tuple)) else v, self.dtype.fields[k][0])

    def copy(self):
        return Record(self.dtype, self.values)

    def tofile(self, f):
        f.vc_put(self, self.dtype.itemsize)

    def same_layout(self, dt):
        dt = np.dtype(dt)
        return dt.itemsize == self.dtype.itemsize and dt.names is not None and [
            (dt.fields[n][0], dt.fields[n][1]) for n in dt.names] == [
            (self.dtype.fields[n][0], self.dtype.fields[n][1]) for n in self.dtype.names]


class Frames:
    """array of records in a file: fields are arrays over the records"""

    def __init__(self, disk, name, start, dtype, shape):
        self.disk, self.name, self.start, self.dtype, self.shape = disk, name, start, np.dtype(dtype), tuple(shape)
        self.fields = {}

    def __setitem__(self, k, v):
        sub = self.dtype.fields[k][0]
        want = self.shape + sub.shape
        if isinstance(v, np.ndarray):
            from .arr import from_concrete
            v = from_concrete(v)
        if not isinstance(v, SymArr):
            raise Unsupported("field set to %r" % type(v))
        if v.ndim != len(want) or not all(same(a, b) for a, b in zip(v.shape, want)):
            raise ValueError("could not broadcast input array")
        self.fields[k] = v if v.dtype == sub.base else v.astype(sub.base)

    def __getitem__(self, k):
        frames = self

        class Target:
            def __setitem__(self, key, v):
                frames[k] = v
        return Target()

    def flush(self):
        pass

    def at(self, offset, dt):
        """the field stored at this place of the record, if it has this type"""
        for n in self.dtype.names:
            t, o = self.dtype.fields[n][:2]
            if o == offset and n in self.fields and t.base.newbyteorder("=") == dt.base.newbyteorder("=") and (
                    dt.base.itemsize == 1 or t.base == dt.base):
                return n
        return None


class Disk:
    def __init__(self):
        self.files = {}            # name -> [(start, size, piece)]

    def open(self, name, mode="r", *a, **k):
        return BinFile(self, str(name), mode)

    def memmap(self, name, dtype=np.uint8, mode="r+", offset=0, shape=None, order="C"):
        name = str(name)
        if order != "C" or mode not in ("r+", "w+"):
            raise Unsupported("memmap")
        if mode == "w+":
            self.files[name] = []
        fr = Frames(self, name, offset, np.dtype(dtype), shape if isinstance(shape, (tuple, list)) else (shape,))
        n = fr.dtype.itemsize
        for s in fr.shape:
            n = s * n
        self.files[name].append((offset, n, fr))
        return fr

    def piece(self, name, pos):
        for start, size, obj in self.files[str(name)]:
            if same(start, pos) and not same(size, 0):
                return start, size, obj
        return None


class BinFile:
    def __init__(self, disk, name, mode):
        if "b" not in mode:
            raise Unsupported("text mode")
        self.disk, self.name, self.mode, self.pos, self.closed = disk, name, mode, 0, False
        if "w" in mode:
            disk.files[name] = []
        elif name not in disk.files:
            raise FileNotFoundError(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def tell(self):
        return self.pos

    def seek(self, n, whence=0):
        if whence == 1:
            n = self.pos + n
        elif whence:
            raise Unsupported("seek from the end")
        self.pos = n
        return n

    def vc_put(self, obj, n):
        if "r" in self.mode and "+" not in self.mode or self.closed:
            raise OSError("not writable")
        self.disk.files[self.name].append((self.pos, n, obj))
        self.pos = self.pos + n

    def write(self, b):
        n = vlen(b)
        self.vc_put(b, n)
        return n

    def read(self, n=-1):
        if is_sym(n):
            raise Unsupported("reading an unknown number of bytes")
        out = b""
        while n != 0:
            p = self.disk.piece(self.name, self.pos)
            if p is None:
                break
            start, size, obj = p
            if is_sym(size):
                raise Unsupported("reading a piece of unknown size")
            if isinstance(obj, (bytes, bytearray)):
                b = bytes(obj)
            elif isinstance(obj, SymArr) and obj.ndim == 1 and getattr(obj, "constant", None) is not None or (
                    isinstance(obj, SymArr) and all(entails(obj.expr(z3.IntVal(i)) == 0) for i in range(min(3, int(size))))
                    and entails(obj.expr(z3.Int("any!")) == 0)):
                b = bytes(int(size))
            else:
                raise Unsupported("reading bytes of %s" % type(obj).__name__)
            if 0 <= n < len(b):
                raise Unsupported("reading a part of a piece")
            out += b
            n = n - len(b) if n > 0 else n
            self.pos = self.pos + len(b)
        return out

    def vc_get(self, dtype, count=-1):
        """numpy.fromfile"""
        dt = np.dtype(dtype)
        p = self.disk.piece(self.name, self.pos)
        if p is None:
            raise Unsupported("reading %s at a place where nothing was written" % dt)
        start, size, obj = p
        if isinstance(obj, Record):
            prove(not is_sym(count) and count == 1 and obj.same_layout(dt), "the header is read with the layout it was written in")
            self.pos = self.pos + dt.itemsize
            return obj.copy()
        if isinstance(obj, Frames):
            prove(dt.itemsize == obj.dtype.itemsize, "frames are read with the size they were written in")
            n = 1
            for s in obj.shape:
                n = s * n
            if not (not is_sym(count) and count == -1):
                if C().fork(ie(count) <= ie(n)):
                    n = count
            self.pos = self.pos + n * dt.itemsize
            return ReadFrames(obj, dt, n)
        raise Unsupported("numpy.fromfile of %s" % type(obj).__name__)


class ReadFrames:
    """records read one after another; fields are taken from what was written at the same place of the record"""

    def __init__(self, frames, dt, n):
        self.frames, self.dtype, self.n = frames, dt, n
        self.shape = (n,)

    def __len__(self):
        if is_sym(self.n):
            raise Unsupported("len")
        return self.n

    def __getitem__(self, k):
        t, o = self.dtype.fields[k][:2]
        name = self.frames.at(o, t)
        if name is None or self.frames.dtype.fields[name][0].itemsize != t.itemsize:
            prove(False, "the field %r is where it was written" % k)
        src = self.frames.fields[name]
        nrec, sub = len(self.frames.shape), self.frames.dtype.fields[name][0].shape
        rec = self.frames.shape

        def fn(idx):
            where, lin = [], idx[0]
            for s in reversed(rec[1:]):
                where.insert(0, lin % ie(s))
                lin = lin / ie(s)
            where = ([lin] if rec else []) + where
            lin, inner = z3.IntVal(0), []
            for i, s in enumerate(t.shape):
                lin = lin * s + idx[1 + i]
            for s in reversed(sub[1:]):
                inner.insert(0, lin % s)
                lin = lin / s
            inner = ([lin] if sub else []) + inner
            return src.expr(*(where + inner))
        return SymArr.func(fn, (self.n,) + tuple(t.shape), t.base, "frames")
