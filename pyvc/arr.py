"""Symbolic numpy arrays: shape (concrete or symbolic ints), dtype, and an
element function; views share a mutable store.  And the `np` shim."""

import builtins
import numpy as np
import z3

from .engine import C, Unsupported
from .sym import (Sym, SymBool, SymBytes, SymFile, SymInt, SymList, SymOpaque,
                  SymReal, SymSeq, SymRepeat, be, cast_int, check_write, deep_sym, floordiv_e,
                  fresh_int, fresh_fn, ie, is_sym, mk_bool, mk_int, mk_real,
                  mod_e, norm_index, norm_slice, re_, sub0, vlen, vmax, vmin)


class Store:
    """mutable content: fn(tuple of z3 ints) -> z3 expr of the kind's sort"""

    def __init__(self, fn, kind, name="arr", rng=None, nd=1):
        self.fn = fn
        self.kind = kind
        self.name = name
        self.rng = rng
        self.nd = nd
        self.serial = C().next_serial()

    def get(self, idx):
        v = self.fn(tuple(idx))
        if self.rng is not None:
            C().solver.add(v >= self.rng[0], v <= self.rng[1])
        return v

    def vc_havoc(self):
        f = fresh_fn(self.name, *([z3.IntSort()] * self.nd), sort_of(self.kind))
        self.fn = lambda idx: f(*idx)


def sort_of(kind):
    return {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort(),
            "o": z3.IntSort()}[kind]


def kind_of(dt):
    k = np.dtype(dt).kind
    if k in "iu":
        return "i"
    if k == "f":
        return "r"
    if k == "b":
        return "b"
    if k in "VSUOc":
        return "o"
    raise Unsupported("array of dtype %s" % dt)


def rng_of(dt):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return (int(i.min), int(i.max))
    return None


def wrap(kind, e):
    if kind == "i":
        return mk_int(e)
    if kind == "r":
        return mk_real(e)
    if kind == "b":
        return mk_bool(e)
    return SymOpaque("cell", e)


def unwrap(kind, v):
    if kind == "i":
        return ie(v)
    if kind == "r":
        return re_(v)
    if kind == "b":
        return be(v)
    if isinstance(v, SymOpaque):
        return v.e
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported("store of %r in an opaque array" % type(v))


def eq_tuple(a, b):
    cs = [x == y for x, y in zip(a, b)]
    return z3.And(*cs) if len(cs) != 1 else cs[0]


def prod_dims(dims):
    r = 1
    for d in dims:
        if is_sym(r) or is_sym(d):
            r = mk_int(ie(r) * ie(d))
        else:
            r = r * int(d)
    return r


def ravel_index(idx, shape):
    lin = z3.IntVal(0)
    first = True
    for i, s in zip(idx, shape):
        lin = i if first else lin * ie(s) + i
        first = False
    return lin


def unravel_index(lin, shape, order="C"):
    out = []
    dims = list(shape)
    if order == "F":
        for s in dims[:-1]:
            out.append(mod_e(lin, ie(s)))
            lin = floordiv_e(lin, ie(s))
        out.append(lin)
        return out
    for s in reversed(dims[1:]):
        out.append(mod_e(lin, ie(s)))
        lin = floordiv_e(lin, ie(s))
    out.append(lin)
    return out[::-1]


class Flags(dict):
    def __getattr__(self, k):
        try:
            return self[k.upper()]
        except KeyError:
            raise AttributeError(k)


class SymArr(Sym):
    __array_priority__ = 1000

    def __init__(self, store, shape, dtype, imap=None, linear=None):
        self.store = store
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype) if dtype is not None else None
        self.imap = imap             # idx -> store idx
        self.linear = linear         # lin -> store idx, when C-linear
        self.vbase = None            # (base array, plan) for plain views of a base array
        self.flags = Flags(C_CONTIGUOUS=True, F_CONTIGUOUS=False, WRITEABLE=True)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and not kw and len(inputs) == 2:
            import operator as op
            table = {"add": op.add, "subtract": op.sub, "multiply": op.mul,
                     "floor_divide": op.floordiv, "remainder": op.mod,
                     "equal": op.eq, "not_equal": op.ne, "less": op.lt,
                     "less_equal": op.le, "greater": op.gt, "greater_equal": op.ge,
                     "bitwise_and": op.and_, "bitwise_or": op.or_,
                     "divide": op.truediv}
            f = table.get(ufunc.__name__)
            if f:
                a, b = inputs
                if isinstance(a, np.ndarray):
                    a = from_concrete(a)
                if isinstance(a, np.generic):
                    a = a.item()
                return f(a, b)
        raise Unsupported("numpy ufunc %s on a symbolic array" % ufunc.__name__)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a real one")

    def __array_function__(self, func, types, args, kwargs):
        raise Unsupported("numpy.%s on a symbolic array" % func.__name__)

    # -- construction -----------------------------------------------------
    @classmethod
    def fresh(cls, name, shape, dtype, inp=False):
        kind = kind_of(dtype)
        n = len(shape)
        f = fresh_fn(name, *([z3.IntSort()] * n), sort_of(kind))
        st = Store(lambda idx: f(*idx[:n]), kind, name, rng_of(dtype), n)
        a = cls(st, shape, dtype)
        a.uf = f
        if inp:
            C().inputs[name] = a
        return a

    @classmethod
    def fresh_linear(cls, name, shape, dtype):
        """content given by a function of the C-order linear index"""
        kind = kind_of(dtype)
        f = fresh_fn(name, z3.IntSort(), sort_of(kind))
        st = Store(lambda idx: f(*idx), kind, name, rng_of(dtype), 1)
        a = cls(st, shape, dtype, None, lambda lin: (lin,))
        a.uf = f
        return a

    @classmethod
    def const(cls, value, shape, dtype, name="const"):
        kind = kind_of(dtype)
        v = unwrap(kind, value)
        return cls(Store(lambda idx: v, kind, name, None, max(len(shape), 1)), shape, dtype)

    @classmethod
    def func(cls, fn, shape, dtype, name="expr"):
        kind = kind_of(dtype)
        return cls(Store(fn, kind, name, None, max(len(shape), 1)), shape, dtype)

    def vc_model(self, m):
        try:
            dims = [m.eval(ie(s), model_completion=True).as_long() for s in self.shape]
            tot = 1
            for d in dims:
                tot *= d
            if tot > 400:
                return "<%s elements>" % tot
            out = []
            for ix in np.ndindex(*dims):
                out.append(str(m.eval(self.store.fn(tuple(z3.IntVal(i) for i in ix)),
                                      model_completion=True)))
            return {"shape": dims, "values": out}
        except Exception as exc:  # noqa: BLE001
            return "<%s>" % exc

    # -- element access ---------------------------------------------------
    @property
    def kind(self):
        return self.store.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return prod_dims(self.shape)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def serial(self):
        return self.store.serial

    def vc_havoc(self):
        self.store.vc_havoc()

    def sidx(self, idx):
        idx = tuple(idx)
        if self.linear is not None:
            return tuple(self.linear(ravel_index(idx, self.shape) if idx else z3.IntVal(0)))
        if self.imap is not None:
            return tuple(self.imap(idx))
        return idx if idx else (z3.IntVal(0),) * (1 if self.store.nd == 1 and not idx else 0)

    def expr(self, *idx):
        return self.store.get(self.sidx([ie(i) for i in idx]))

    def at(self, *idx):
        return wrap(self.kind, self.expr(*idx))

    def lin_expr(self, lin):
        """element at C-order linear index"""
        if self.linear is not None:
            return self.store.get(tuple(self.linear(lin)))
        return self.expr(*unravel_index(lin, self.shape)) if self.ndim != 1 else self.expr(lin)

    def item(self, *a):
        if self.ndim == 0:
            return wrap(self.kind, self.store.get(self.sidx(())))
        raise Unsupported("item() of a non-scalar symbolic array")

    def __float__(self):
        raise Unsupported("float() of symbolic array")

    def vc_len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def vc_item(self, k):
        if self.ndim == 1:
            return self.at(k)
        return self.view_at(k)

    def view_at(self, k):
        ke = ie(k)
        r = self.sub(self.shape[1:], lambda idx: (ke,) + tuple(idx))
        if self.imap is None and self.linear is None:
            r.vbase = (self, [("int", ke)] + [("slice", z3.IntVal(0), n, 1) for n in self.shape[1:]])
        return r

    def sub(self, shape, f, dtype=None):
        """view: f maps view idx -> self idx"""
        return SymArr(self.store, shape, dtype or self.dtype,
                      lambda idx: self.sidx(f(tuple(idx))))

    def __iter__(self):
        if is_sym(self.shape[0]):
            raise Unsupported("iteration over an array of symbolic length outside a cut loop")
        for k in range(self.shape[0]):
            yield self.vc_item(k)

    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = next(j for j, k in enumerate(key) if k is Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - n_real) + key[i + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        out = []
        ax = 0
        for k in key:
            if k is None:
                out.append(("new",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            n = self.shape[ax]
            if isinstance(k, slice):
                out.append(self._slice(k, n, ax))
            elif isinstance(k, (int, np.integer, SymInt)) and not isinstance(k, bool):
                out.append(("int", ie(norm_index(k, n))))
            elif isinstance(k, SymArr) and k.kind == "i" and k.ndim == 0:
                out.append(("int", ie(norm_index(k.item(), n))))
            else:
                out.append(("adv", k))
            ax += 1
        return out

    def _slice(self, k, n, ax):
        step = 1 if k.step is None else k.step
        if is_sym(step):
            raise Unsupported("symbolic slice step")
        if step == 1:
            a, b = norm_slice(k, n)
            return ("slice", ie(a), sub0(b, a), 1)
        if step == -1 and k.start is None and k.stop is None:
            return ("slice", ie(n) - 1, n, -1)
        if step > 1:
            a, b = norm_slice(slice(k.start, k.stop), n)
            ln = sub0(b, a)
            return ("slice", ie(a), mk_int((ie(ln) + step - 1) / step), step)
        if step < 0:
            # general negative step on a dimension; start/stop after clamping
            ne = ie(n)
            def lim(v, default):
                if v is None:
                    return default
                v = ie(v)
                v = z3.If(v < 0, v + ne, v)
                return z3.If(v < -1, z3.IntVal(-1), z3.If(v >= ne, ne - 1, v))
            a = lim(k.start, ne - 1)
            b = lim(k.stop, z3.IntVal(-1))
            d = a - b
            return ("slice", a, mk_int(z3.If(d > 0, (d + (-step) - 1) / (-step), z3.IntVal(0))), step)
        raise Unsupported("slice step")

    def _view(self, parsed):
        shape = []
        plan = []
        for p in parsed:
            if p[0] == "new":
                plan.append(("skip",))
                shape.append(1)
            elif p[0] == "int":
                plan.append(("fix", p[1]))
            else:
                plan.append(("aff", p[1], p[3]))
                shape.append(p[2])

        def f(idx):
            out = []
            j = 0
            for q in plan:
                if q[0] == "skip":
                    j += 1
                elif q[0] == "fix":
                    out.append(q[1])
                else:
                    out.append(q[1] + idx[j] * q[2] if q[2] != 1 else q[1] + idx[j])
                    j += 1
            return tuple(out)
        return shape, f

    def __getitem__(self, key):
        if self.kind == "b" or True:
            if isinstance(key, str):
                return self.field(key)
        if isinstance(key, SymBool):
            raise Unsupported("boolean scalar index")
        if self.ndim == 0 and key == ():
            return self.item()
        parsed = self._parse(key)
        adv = [i for i, p in enumerate(parsed) if p[0] == "adv"]
        if adv:
            return self._fancy(parsed, adv)
        shape, f = self._view(parsed)
        if not shape:
            return wrap(self.kind, self.store.get(self.sidx(f(()))))
        r = self.sub(shape, f)
        if not any(q[0] == "new" for q in parsed):
            r.vbase = self._compose(parsed)
        return r

    def _compose(self, parsed):
        """plan on the base array of a store through this view, or None"""
        if self.imap is None and self.linear is None:
            return (self, parsed)
        if self.vbase is None:
            return None
        base, plan = self.vbase
        out = []
        q = iter(parsed)
        for b in plan:
            if b[0] == "int":
                out.append(b)
                continue
            if b[3] != 1:
                return None
            i = next(q)
            if i[0] == "int":
                out.append(("int", b[1] + i[1]))
            else:
                out.append(("slice", b[1] + i[1], i[2], i[3]))
        return (base, out)

    def _fancy(self, parsed, adv):
        if len(adv) > 1:
            raise Unsupported("fancy indexing on several axes")
        i = adv[0]
        k = parsed[i][1]
        if isinstance(k, (list, np.ndarray)):
            k = from_concrete(np.asarray(k))
        if not isinstance(k, SymArr):
            raise Unsupported("index of type %r" % type(k))
        if k.kind != "i":
            raise Unsupported("boolean mask read")
        n = self.shape[sum(1 for p in parsed[:i] if p[0] != "new")]
        # every index in range is an obligation discharged at a skolem position
        sk = [fresh_int("fancy", 0, d) for d in k.shape]
        v = k.expr(*sk)
        C().prove(z3.And(v >= -ie(n), v < ie(n)), "fancy index in range")
        rest = [p for j, p in enumerate(parsed) if j != i]
        nk = k.ndim
        # position of the fancy axes in the result
        pre = sum(1 for p in parsed[:i] if p[0] in ("slice", "new"))
        shape, f = self._view(rest)
        ne = ie(n)

        def fn(idx):
            kidx = idx[pre:pre + nk]
            base = list(f(tuple(idx[:pre]) + tuple(idx[pre + nk:])))
            kv = k.expr(*kidx)
            kv = z3.If(kv < 0, kv + ne, kv)
            pos = sum(1 for p in parsed[:i] if p[0] in ("slice", "int"))
            base.insert(pos, kv)
            return self.store.get(self.sidx(tuple(base)))
        shape = list(shape)
        shape[pre:pre] = list(k.shape)
        snapshot = self.store.fn
        st = self.store

        def frozen(idx):
            cur = st.fn
            st.fn = snapshot
            try:
                return fn(idx)
            finally:
                st.fn = cur
        r = SymArr.func(frozen, shape, self.dtype, "take")
        r.store.kind = self.kind
        return r

    def field(self, name):
        raise Unsupported("field %s of a symbolic record array" % name)

    def __setitem__(self, key, value):
        check_write(self)
        if isinstance(key, SymArr) and key.kind == "b":
            return self._setmask(key, value)
        if isinstance(key, list) and not key:
            return None
        parsed = self._parse(key)
        if any(p[0] == "adv" for p in parsed):
            raise Unsupported("fancy store")
        shape, f = self._view(parsed)
        kind = self.kind
        if not self.flags["WRITEABLE"]:
            raise ValueError("assignment destination is read-only")
        if not shape:
            tgt = self.sidx(f(()))
            v = value.item() if isinstance(value, SymArr) and value.ndim == 0 else value
            ve = self._coerce(v)
            self._put(lambda idx: eq_tuple(idx, tgt), lambda idx: ve)
            return
        plan = parsed
        if self.imap is not None or self.linear is not None:
            comp = self._compose(parsed) if not any(q[0] == "new" for q in parsed) else None
            if comp is None:
                raise Unsupported("slice store through a view")
            plan = comp[1]
        # region store on a base array
        if isinstance(value, (list, tuple)):
            value = from_list(value, self.dtype)
        if isinstance(value, np.ndarray):
            value = from_concrete(value)

        def inside(idx):
            cs = []
            for a, p in zip(idx, [q for q in plan if q[0] != "new"]):
                if p[0] == "int":
                    cs.append(a == p[1])
                else:
                    start, ln, step = p[1], ie(p[2]), p[3]
                    if step == 1:
                        cs += [a >= start, a < start + ln]
                    elif step > 0:
                        cs += [a >= start, (a - start) % step == 0, (a - start) / step < ln]
                    else:
                        cs += [a <= start, (start - a) % (-step) == 0, (start - a) / (-step) < ln]
            return z3.And(*cs)

        def rel(idx):
            out = []
            for a, p in zip(idx, [q for q in plan if q[0] != "new"]):
                if p[0] != "int":
                    start, step = p[1], p[3]
                    out.append(a - start if step == 1 else
                               ((a - start) / step if step > 0 else (start - a) / (-step)))
            return tuple(out)
        if isinstance(value, SymArr):
            # broadcasting: align trailing axes
            vs = list(value.shape)
            if len(vs) > len(shape):
                raise ValueError("could not broadcast input array")
            tail = shape[len(shape) - len(vs):]
            ones = []
            for a, b in zip(vs, tail):
                if not is_sym(a) and a == 1 and not (not is_sym(b) and b == 1):
                    ones.append(True)
                else:
                    ones.append(False)
                    if is_sym(a) or is_sym(b):
                        if not C().fork(ie(a) == ie(b)):
                            raise ValueError("could not broadcast input array")
                    elif a != b:
                        raise ValueError("could not broadcast input array")
            vst = value.store
            snap = vst.fn
            off = len(shape) - len(vs)
            coerce_kind = kind

            def val(idx):
                r = rel(idx)[off:]
                r = [z3.IntVal(0) if o else x for o, x in zip(ones, r)]
                cur = vst.fn
                vst.fn = snap
                try:
                    e = value.expr(*r)
                finally:
                    vst.fn = cur
                return conv(value.kind, coerce_kind, e)
            self._put(inside, val)
        else:
            ve = self._coerce(value)
            self._put(inside, lambda idx: ve)

    def _coerce(self, v):
        kind = self.kind
        if kind == "i" and isinstance(v, (SymReal, float)):
            v = v.__trunc__() if isinstance(v, SymReal) else int(v)
        if kind == "i" and self.dtype is not None and self.dtype.kind in "iu":
            v = cast_int(v, self.dtype) if is_sym(v) else v
        return unwrap(kind, v)

    def _setmask(self, mask, value):
        if isinstance(value, SymArr):
            raise Unsupported("masked store of an array")
        ve = self._coerce(value)
        m = mask.store.fn
        if self.imap is not None or self.linear is not None:
            raise Unsupported("masked store through a view")
        nm = mask.ndim
        mst = mask

        def inside(idx):
            cur = mst.store.fn
            mst.store.fn = m
            try:
                return mst.expr(*idx[:nm])
            finally:
                mst.store.fn = cur
        self._put(inside, lambda idx: ve)

    def _put(self, cond, val):
        st = self.store
        old = st.fn
        st.fn = lambda idx: z3.If(cond(idx), val(idx), old(idx))

    # -- shape operations -------------------------------------------------
    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        elif len(shape) == 1 and isinstance(shape[0], SymArr) and shape[0].ndim == 1 and not is_sym(shape[0].shape[0]):
            shape = tuple(shape[0].at(i) for i in range(shape[0].shape[0]))
        elif len(shape) == 1 and isinstance(shape[0], np.ndarray):
            shape = tuple(int(x) for x in shape[0])
        shape = list(shape)
        tot = self.size
        unknown = [i for i, s in enumerate(shape) if not is_sym(s) and s == -1]
        if unknown:
            rest = prod_dims([s for i, s in enumerate(shape) if i != unknown[0]])
            if not is_sym(tot) and not is_sym(rest):
                shape[unknown[0]] = tot // rest
            elif not is_sym(rest) and rest == 1:
                shape[unknown[0]] = tot
            else:
                # numpy raises ValueError unless rest divides tot
                q = fresh_int("dim", 0)
                if not C().fork(z3.And(ie(rest) > 0, mod_e(ie(tot), ie(rest)) == 0)):
                    raise ValueError("cannot reshape")
                C().assume(q.e * ie(rest) == ie(tot))
                shape[unknown[0]] = q
        else:
            new = prod_dims(shape)
            if is_sym(new) or is_sym(tot):
                if not C().fork(ie(new) == ie(tot)):
                    raise ValueError("cannot reshape array of size %s into shape" % tot)
            elif new != tot:
                raise ValueError("cannot reshape array of size %s into shape %s" % (tot, shape))
        if order == "F":
            sh = tuple(shape)

            def flin(idx):
                lin = idx[-1]
                for i, s in zip(reversed(idx[:-1]), reversed(sh[:-1])):
                    lin = lin * ie(s) + i
                return lin
            if self.ndim == 1:
                return SymArr(self.store, sh, self.dtype, lambda idx: self.sidx((flin(idx),)))
            return SymArr(self.store, sh, self.dtype,
                          lambda idx: self.sidx(unravel_index(flin(idx), self.shape, "F")))
        if order not in ("C", None):
            raise Unsupported("reshape order %r" % (order,))
        if len(shape) == self.ndim and builtins.all(same_dim(a, b) for a, b in zip(shape, self.shape)):
            return SymArr(self.store, self.shape, self.dtype, self.imap, self.linear)
        if self.linear is not None:
            r = SymArr(self.store, shape, self.dtype, None, self.linear)
        elif self.ndim == 1:
            r = SymArr(self.store, shape, self.dtype, None, lambda lin: self.sidx((lin,)))
        else:
            r = SymArr(self.store, shape, self.dtype, None,
                       lambda lin: self.sidx(unravel_index(lin, self.shape)))
        before = getattr(self, "reshaped_from", None)
        r.reshaped_from = self if before is None else before     # same elements in C order
        return r

    def tobytes(self, order="C"):
        if order == "C" and "tobytes" in C().ghost:
            return C().ghost["tobytes"](self)
        raise Unsupported("tobytes of a symbolic array")

    def tofile(self, fid, *a):
        if a:
            raise Unsupported("tofile with separator")
        if hasattr(fid, "vc_put"):
            fid.vc_put(self.copy(), self.nbytes)
            return
        C().ghost.setdefault("tofile", {})[str(fid)] = self

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self
        if order == "F":
            return self.T.ravel()
        if order not in ("C", None):
            raise Unsupported("ravel order %r depends on the layout in memory" % (order,))
        return self.reshape(-1) if self.ndim != 1 else self

    flatten = ravel

    @property
    def flat(self):
        return self.ravel()

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(range(self.ndim))[::-1]
        inv = [0] * len(axes)
        for i, a in enumerate(axes):
            inv[a] = i
        return self.sub([self.shape[a] for a in axes], lambda idx: tuple(idx[j] for j in inv))

    def squeeze(self, axis=None):
        keep = []
        for i, s in enumerate(self.shape):
            one = (C().fork(ie(s) == 1) if is_sym(s) else s == 1)
            if axis is not None:
                axs = axis if isinstance(axis, tuple) else (axis,)
                axs = [a % self.ndim for a in axs]
                if i in axs and not one:
                    raise ValueError("cannot squeeze axis")
                one = one and i in axs
            keep.append(not one)

        def f(idx):
            out = []
            j = 0
            for k in keep:
                if k:
                    out.append(idx[j])
                    j += 1
                else:
                    out.append(z3.IntVal(0))
            return tuple(out)
        return self.sub([s for s, k in zip(self.shape, keep) if k], f)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def copy(self, order="C"):
        st = self.store
        snap = st.fn
        me = self

        def fn(idx):
            cur = st.fn
            st.fn = snap
            try:
                return st.get(me.sidx(idx))
            finally:
                st.fn = cur
        r = SymArr.func(fn, self.shape, self.dtype, "copy")
        r.store.kind = self.kind
        return r

    def astype(self, dtype, **k):
        dt = np.dtype(dtype)
        kind = kind_of(dt)
        src = self.copy()
        if kind == self.kind == "i":
            f = lambda idx: ie(cast_int(SymInt(src.expr(*idx)), dt))  # noqa: E731
        else:
            f = lambda idx: conv(src.kind, kind, src.expr(*idx))  # noqa: E731
        return SymArr.func(f, self.shape, dt, "astype")

    def view(self, *a, **k):
        raise Unsupported("view of a symbolic array")

    def newbyteorder(self, *a):
        raise Unsupported("newbyteorder")

    # -- arithmetic -------------------------------------------------------
    def _bin(self, o, f, outkind=None, rev=False):
        if isinstance(o, np.ndarray):
            o = from_concrete(o)
        if isinstance(o, SymArr):
            shape, ia, ib = broadcast(self, o)
            a, b = self.copy(), o.copy()

            def fn(idx):
                x = wrap(a.kind, a.expr(*ia(idx)))
                y = wrap(b.kind, b.expr(*ib(idx)))
                return f(y, x) if rev else f(x, y)
        else:
            a = self.copy()
            shape = self.shape

            def fn(idx):
                x = wrap(a.kind, a.expr(*idx))
                return f(o, x) if rev else f(x, o)
        # decide the kind from a probe
        sk = tuple(z3.IntVal(0) for _ in shape)
        probe = fn(sk)
        kind = outkind or ("b" if isinstance(probe, (bool, SymBool)) else
                           "r" if isinstance(probe, (float, SymReal)) else "i")
        dt = {"b": bool, "r": float, "i": np.int64}[kind]
        if kind == "i" and self.dtype is not None and self.dtype.kind in "iu":
            dt = self.dtype
        return SymArr.func(lambda idx: unwrap(kind, fn(idx)), shape, dt, "op")

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, rev=True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._bin(o, lambda x, y: x // y)

    def __mod__(self, o):
        return self._bin(o, lambda x, y: x % y)

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y)

    def __and__(self, o):
        return self._bin(o, lambda x, y: x & y)

    def __or__(self, o):
        return self._bin(o, lambda x, y: x | y)

    def __neg__(self):
        return self._bin(0, lambda x, y: -x)

    def __invert__(self):
        return self._bin(0, lambda x, y: ~x)

    def __eq__(self, o):
        return self._bin(o, lambda x, y: x == y, "b")

    def __ne__(self, o):
        return self._bin(o, lambda x, y: x != y, "b")

    def __lt__(self, o):
        return self._bin(o, lambda x, y: x < y, "b")

    def __le__(self, o):
        return self._bin(o, lambda x, y: x <= y, "b")

    def __gt__(self, o):
        return self._bin(o, lambda x, y: x > y, "b")

    def __ge__(self, o):
        return self._bin(o, lambda x, y: x >= y, "b")

    def __iadd__(self, o):
        r = self + o
        check_write(self)
        self[(slice(None),) * self.ndim] = r
        return self

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.item())
        if all(not is_sym(n) and n == 1 for n in self.shape):
            v = self[(0,) * self.ndim]
            return bool(v)
        raise Unsupported("truth value of a symbolic array")

    def __contains__(self, v):
        # exists: decided by fork on an uninterpreted witness
        sk = [fresh_int("in", 0, d) for d in self.shape]
        c = C()
        b = z3.Bool(c.fresh_name("contains"))
        x = self.expr(*sk)
        tgt = unwrap(self.kind, v)
        if c.fork(b):
            c.assume(x == tgt)       # a witness position
            return True
        # no element equals v: kept as a fact usable at queried positions
        qs = [z3.Int("q!%d" % i) for i in range(self.ndim)]
        rng = [z3.And(q >= 0, q < ie(d)) for q, d in zip(qs, self.shape)]
        c.assume(z3.ForAll(qs, z3.Implies(z3.And(*rng), self.expr(*qs) != tgt)))
        return False

    def any(self, *a, **k):
        raise Unsupported("any() of a symbolic array")

    def fill(self, v):
        self[(slice(None),) * self.ndim] = v

    def tolist(self):
        if builtins.all(not is_sym(s) for s in self.shape) and self.ndim == 1:
            return [self.at(i) for i in range(self.shape[0])]
        raise Unsupported("tolist of symbolic shape")

    def sum(self, *a, **k):
        if "count" in C().ghost and not a and not k:
            return C().ghost["count"](self)
        raise Unsupported("sum of a symbolic array")

    def mean(self, axis=None, **k):
        """some value for each of the other dimensions"""
        axes = range(self.ndim) if axis is None else [a % self.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
        r = SymArr.fresh("mean", tuple(n for i, n in enumerate(self.shape) if i not in axes), np.float64)
        C().ghost.setdefault("means", []).append((self, tuple(axes), r))
        return r

    def min(self, *a, **k):
        if "extreme" in C().ghost and not a and not k:
            return C().ghost["extreme"](self, 0)
        raise Unsupported("min of a symbolic array")

    def max(self, *a, **k):
        if "extreme" in C().ghost and not a and not k:
            return C().ghost["extreme"](self, 1)
        raise Unsupported("max of a symbolic array")

    def __repr__(self):
        return "SymArr(%s, shape=%s, dtype=%s)" % (self.store.name, self.shape, self.dtype)


def same_dim(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return not C().feasible(ie(a) != ie(b))


def conv(k0, k1, e):
    if k0 == k1:
        return e
    if k0 == "i" and k1 == "r":
        return z3.ToReal(e)
    if k0 == "r" and k1 == "i":
        return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    if k0 == "b" and k1 == "i":
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if k0 == "i" and k1 == "b":
        return e != 0
    raise Unsupported("conversion %s -> %s" % (k0, k1))


def broadcast(a, b):
    n = builtins.max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + a.shape
    sb = (1,) * (n - b.ndim) + b.shape
    shape, fa, fb = [], [], []
    for x, y in zip(sa, sb):
        if not is_sym(x) and x == 1 and not (not is_sym(y) and y == 1):
            shape.append(y); fa.append(False); fb.append(True)
        elif not is_sym(y) and y == 1 and not (not is_sym(x) and x == 1):
            shape.append(x); fa.append(True); fb.append(False)
        else:
            if is_sym(x) or is_sym(y):
                if not C().fork(ie(x) == ie(y)):
                    raise ValueError("operands could not be broadcast together")
            elif x != y:
                raise ValueError("operands could not be broadcast together")
            shape.append(x); fa.append(True); fb.append(True)

    def ia(idx):
        r = [i if f else z3.IntVal(0) for i, f in zip(idx, fa)]
        return r[n - a.ndim:]

    def ib(idx):
        r = [i if f else z3.IntVal(0) for i, f in zip(idx, fb)]
        return r[n - b.ndim:]
    return tuple(shape), ia, ib


def from_concrete(a):
    a = np.asarray(a)
    kind = kind_of(a.dtype)

    def fn(idx):
        vals = [z3.simplify(i) for i in idx]
        if builtins.all(z3.is_int_value(v) for v in vals):
            ix = tuple(v.as_long() for v in vals)[:a.ndim]
            if builtins.all(0 <= i < s for i, s in zip(ix, a.shape)):
                return unwrap(kind, a[ix].item() if a.ndim else a.item())
            return unwrap(kind, 0)
        if a.size > 64:
            raise Unsupported("symbolic index into a large concrete array")
        r = unwrap(kind, 0)
        for ix in np.ndindex(*a.shape):
            r = z3.If(eq_tuple(idx[:a.ndim], [z3.IntVal(i) for i in ix]),
                      unwrap(kind, a[ix].item()), r)
        return r
    s = SymArr.func(fn, a.shape, a.dtype, "literal")
    return s


def from_list(lst, dtype=None):
    """nested Python list/tuple with symbolic leaves -> SymArr"""
    def shape_of(x):
        if isinstance(x, (list, tuple)):
            return (len(x),) + (shape_of(x[0]) if x else ())
        if isinstance(x, (SymList, SymSeq)):
            raise Unsupported("nested symbolic list")
        return ()
    shape = shape_of(lst)

    def leaf(x, ix):
        for i in ix:
            x = x[i]
        return x
    items = {ix: leaf(lst, ix) for ix in np.ndindex(*shape)}
    kinds = set("r" if isinstance(v, (float, SymReal, np.floating)) else
                "b" if isinstance(v, (bool, SymBool)) else "i" for v in items.values())
    kind = kind_of(dtype) if dtype is not None else (
        "r" if "r" in kinds else "i" if "i" in kinds else "b" if kinds else "r")
    dt = np.dtype(dtype) if dtype is not None else np.dtype(
        {"r": float, "i": np.int64, "b": bool}[kind])

    def fn(idx):
        r = None
        for ix, v in items.items():
            e = conv("r" if isinstance(v, (float, SymReal, np.floating)) else
                     "b" if isinstance(v, (bool, SymBool)) else "i", kind,
                     unwrap("r" if isinstance(v, (float, SymReal, np.floating)) else
                            "b" if isinstance(v, (bool, SymBool)) else "i", v))
            r = e if r is None else z3.If(eq_tuple(idx[:len(shape)] or (z3.IntVal(0),),
                                                   [z3.IntVal(i) for i in ix] or [z3.IntVal(0)]), e, r)
        return r
    return SymArr.func(fn, shape, dt, "list")


# --------------------------------------------------------------------------
# bytes <-> arrays, struct
# --------------------------------------------------------------------------

F_DECODE = {}


def float_decode(width):
    if width not in F_DECODE:
        F_DECODE[width] = z3.Function("ieee%d" % (8 * width), z3.IntSort(), z3.RealSort())
    return F_DECODE[width]


def decode_expr(byte_at, dt):
    """value of dtype dt from bytes byte_at(0..itemsize-1) (z3 ints)"""
    dt = np.dtype(dt)
    n = dt.itemsize
    big = dt.str[0] == ">"
    bs = [byte_at(j) for j in range(n)]
    if big:
        bs = bs[::-1]
    u = bs[0]
    for j in range(1, n):
        u = u + bs[j] * (256 ** j)
    if dt.kind == "u":
        return "i", u
    if dt.kind == "i":
        return "i", z3.If(u >= 2 ** (8 * n - 1), u - 2 ** (8 * n), u)
    if dt.kind == "b":
        return "b", u != 0
    if dt.kind == "f":
        return "r", float_decode(n)(u)
    raise Unsupported("decode of dtype %s" % dt)


def array_from_bytes(b, dt, count=-1, offset=0):
    dt = np.dtype(dt)
    sub = ()
    base = dt
    if dt.subdtype is not None:
        base, sub = dt.subdtype
    if base.kind in "VSUOc":
        raise Unsupported("symbolic bytes as dtype %s" % dt)
    n = dt.itemsize
    avail = mk_int(ie(b.vc_len()) - ie(offset))
    if not is_sym(count) and count == -1:
        if is_sym(avail):
            if not C().fork(avail.e % n == 0):
                raise ValueError("buffer size must be a multiple of element size")
            cnt = mk_int(avail.e / n)
        else:
            if avail % n:
                raise ValueError("buffer size must be a multiple of element size")
            cnt = avail // n
    else:
        if not bool(mk_bool(ie(count) * n <= ie(avail))):
            raise ValueError("buffer is smaller than requested size")
        cnt = count
    oe = ie(offset)
    bn = base.itemsize

    def fn(idx):
        lin = ravel_index(list(idx[:1 + len(sub)]), (cnt,) + tuple(sub))
        start = oe + lin * bn
        return decode_expr(lambda j: b.byte(mk_int(start + j)), base)[1]
    return SymArr.func(fn, (cnt,) + tuple(sub), base, "frombytes")


class SymStruct:
    """struct.Struct over symbolic bytes"""

    def __init__(self, fmt):
        import struct as _s
        self.real = _s.Struct(fmt)
        self.format = fmt
        self.size = self.real.size
        self.codes = parse_fmt(fmt)

    def unpack(self, data):
        if not is_sym(data):
            return self.real.unpack(data)
        import struct as _s
        ln = data.vc_len()
        if not bool(mk_bool(ie(ln) == self.size)):
            raise _s.error("unpack requires a buffer of %d bytes" % self.size)
        out = []
        pos = 0
        for dt, code in self.codes:
            if code in "sc":
                out.append(data[pos:pos + dt])
                pos += dt
                continue
            if code == "x":
                pos += dt
                continue
            p = pos
            kind, e = decode_expr(lambda j: data.byte(p + j), dt)
            out.append(wrap(kind, e))
            pos += dt.itemsize
        return tuple(out)

    def unpack_from(self, data, offset=0):
        if not is_sym(data) and not is_sym(offset):
            return self.real.unpack_from(data, offset)
        from .sym import to_symbytes
        data = to_symbytes(data)
        if not bool(mk_bool(ie(offset) + self.size <= ie(data.vc_len()))):
            import struct as _s
            raise _s.error("unpack_from requires a buffer of at least ...")
        return self.unpack(data[offset:mk_int(ie(offset) + self.size)])

    def pack(self, *vals):
        if not deep_sym(vals):
            return self.real.pack(*vals)
        import struct as _s
        from .sym import to_symbytes
        parts = None
        it = iter(vals)
        for dt, code in self.codes:
            if code == "s":
                v = to_symbytes(next(it))
                ln = v.vc_len()
                piece = SymBytes((lambda v, ln: lambda i: z3.If(i < ie(ln), v.at(i), z3.IntVal(0)))(v, ln), dt)
            elif code == "x":
                piece = to_symbytes(b"\0" * dt)
            elif code == "c":
                piece = to_symbytes(next(it))
            else:
                v = next(it)
                piece = encode_int(v, dt, _s.error)
            parts = piece if parts is None else parts + piece
        return parts

    iter_unpack = None


def encode_int(v, dt, err):
    dt = np.dtype(dt)
    n = dt.itemsize
    if dt.kind == "f":
        enc = z3.Function("ieee%d_bits" % (8 * n), z3.RealSort(), z3.IntSort())
        u = enc(re_(v))
        C().assume(z3.And(u >= 0, u < 2 ** (8 * n)))
        C().assume(float_decode(n)(u) == re_(v))   # exactly representable: stated assumption
    else:
        e = ie(v)
        lo, hi = rng_of(dt)
        if not C().fork(z3.And(e >= lo, e <= hi)):
            raise err("argument out of range")
        u = z3.If(e < 0, e + 2 ** (8 * n), e)
    big = dt.str[0] == ">"

    def at(i):
        r = z3.IntVal(0)
        for k in range(n - 1, -1, -1):
            j = n - 1 - k if big else k
            r = z3.If(i == k, (u / (256 ** j)) % 256, r)
        return r
    return SymBytes(at, n)


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "<"
    std = True
    if fmt and fmt[0] in "<>=!@":
        order = {"!": ">", "=": "<", "@": "<"}.get(fmt[0], fmt[0])
        std = fmt[0] != "@"
        fmt = fmt[1:]
    else:
        std = False
    table = {"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4",
             "l": "i4", "L": "u4", "q": "i8", "Q": "u8", "f": "f4", "d": "f8", "?": "b1"}
    if not std:
        table["l"], table["L"] = "i8", "u8"
        if len(set(fmt.strip("0123456789 "))) > 1:
            raise Unsupported("native struct alignment in %r" % fmt)
    out = []
    num = ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch == " ":
            continue
        n = int(num) if num else 1
        if ch == "s":
            out.append((n, "s"))
        elif ch == "c":
            out += [(1, "c")] * n
        elif ch == "x":
            out.append((n, "x"))
        else:
            t = table[ch]
            dt = np.dtype((order if t[1] != "1" else "|") + t) if t != "b1" else np.dtype("?")
            out += [(dt, ch)] * n
        num = ""
    return out


class StructShim:
    import struct as _real
    error = _real.error

    def __getattr__(self, k):
        return getattr(self._real, k)

    def Struct(self, fmt):
        return SymStruct(fmt)

    def unpack(self, fmt, data):
        if is_sym(fmt):
            raise Unsupported("symbolic struct format")
        return SymStruct(fmt).unpack(data)

    def unpack_from(self, fmt, data, offset=0):
        return SymStruct(fmt).unpack_from(data, offset)

    def pack(self, fmt, *vals):
        return SymStruct(fmt).pack(*vals)

    def calcsize(self, fmt):
        return self._real.calcsize(fmt)


# --------------------------------------------------------------------------
# numpy shim
# --------------------------------------------------------------------------

class NdIter(Sym):
    def __init__(self, a):
        self.a = a

    def vc_len(self):
        return self.a.size

    def vc_item(self, k):
        return wrap(self.a.kind, self.a.lin_expr(ie(k)))

    def __iter__(self):
        n = self.vc_len()
        if is_sym(n):
            raise Unsupported("nditer of symbolic size outside a cut loop")
        for k in range(n):
            yield self.vc_item(k)


class SymNdIndex(Sym):
    """np.ndindex over a symbolic shape; the k-th tuple is a C-order unravelling
    (given by component functions with 0 <= component < dim)."""

    def __init__(self, shape):
        self.shape = tuple(shape)

    def vc_len(self):
        return prod_dims(self.shape)

    def vc_item(self, k):
        return tuple(mk_int(e) for e in unravel_index(ie(k), self.shape))

    def __iter__(self):
        if any(is_sym(s) for s in self.shape):
            raise Unsupported("ndindex of symbolic shape outside a cut loop")
        return iter(np.ndindex(*self.shape))


def _shape(s):
    if isinstance(s, SymInt):
        return (s,)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, SymArr):
        return tuple(s)
    return tuple(s)


class NpShim:
    """numpy for the code under contract: symbolic arguments go to the models
    below, concrete ones to numpy itself; anything else is Unsupported."""

    def __init__(self, **over):
        self._over = over
        self.__dict__.update(over)

    def __getattr__(self, name):
        over = object.__getattribute__(self, "_over")
        if name in over:
            return over[name]
        real = getattr(np, name)
        if callable(real) and not isinstance(real, type):
            def guarded(*a, **k):
                if deep_sym(a) or deep_sym(k):
                    raise Unsupported("numpy.%s on symbolic arguments" % name)
                return real(*a, **k)
            return guarded
        if name in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64",
                    "float32", "float64"):
            return NpScalarType(real)
        return real

    ndarray = np.ndarray

    def issubdtype(self, a, b):
        a, b = (x.t if isinstance(x, NpScalarType) else x for x in (a, b))
        return np.issubdtype(a, b)

    def zeros(self, shape=None, dtype=float, **k):
        shape = _shape(shape)
        if np.dtype(dtype).kind in "biuf" and (deep_sym(shape) or C_active()):
            return SymArr.const(False if np.dtype(dtype).kind == "b" else 0, shape, dtype, "zeros")
        return np.zeros(shape, dtype, **k)

    def ones(self, shape, dtype=float, **k):
        shape = _shape(shape)
        return SymArr.const(True if np.dtype(dtype).kind == "b" else 1, shape, dtype, "ones")

    def empty(self, shape=None, dtype=float, **k):
        shape = _shape(shape)
        if np.dtype(dtype).kind in "biuf":
            return SymArr.fresh("empty", shape, dtype)
        if deep_sym(shape):
            raise Unsupported("np.empty of symbolic shape and dtype %s" % dtype)
        return np.empty(shape, dtype, **k)

    def full(self, shape, v, dtype=None, **k):
        if deep_sym(shape) or is_sym(v):
            return SymArr.const(v, _shape(shape), dtype or (float if isinstance(v, (float, SymReal)) else np.int64))
        return np.full(shape, v, dtype, **k)

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, SymArr):
            return a if dtype is None or np.dtype(dtype) == a.dtype else a.astype(dtype)
        return self.array(a, dtype)

    def asanyarray(self, a, dtype=None, **k):
        return self.asarray(a, dtype)

    def rint(self, x):
        if not is_sym(x):
            return np.rint(x)
        if isinstance(x, SymInt):
            return x
        r = fresh_int("rint")
        C().assume(z3.And(z3.ToReal(r.e) - re_(x) <= z3.RealVal("1/2"), re_(x) - z3.ToReal(r.e) <= z3.RealVal("1/2")))
        return mk_real(z3.ToReal(r.e))

    def pad(self, a, pw, mode="constant", **k):
        if not deep_sym((a, pw)):
            return np.pad(a, pw, mode=mode, **k)
        if mode != "constant" or k or not isinstance(a, SymArr):
            raise Unsupported("np.pad")
        if isinstance(pw, tuple) and len(pw) == 2 and not isinstance(pw[0], (tuple, list)):
            pw = [pw] * a.ndim
        for lo, hi in pw:
            for n in (lo, hi):
                if C().fork(ie(n) < 0):
                    raise ValueError("index can't contain negative values")
        src = a.copy()

        def fn(idx):
            at = [i - ie(lo) for i, (lo, hi) in zip(idx, pw)]
            inside = z3.And(*[z3.And(i >= 0, i < ie(n)) for i, n in zip(at, a.shape)])
            return z3.If(inside, src.expr(*at), unwrap(kind_of(a.dtype), 0))
        return SymArr.func(fn, tuple(lo + n + hi for n, (lo, hi) in zip(a.shape, pw)), a.dtype, "pad")

    def clip(self, x, lo, hi, **k):
        if not deep_sym((x, lo, hi)):
            return np.clip(x, lo, hi, **k)
        if isinstance(x, SymArr):
            raise Unsupported("clip of a symbolic array")
        return lo if bool(x < lo) else hi if bool(x > hi) else x

    def ascontiguousarray(self, a, *r):
        if isinstance(a, SymArr):
            c = a.copy()
            return c
        return np.ascontiguousarray(a, *r)

    def array(self, a, dtype=None, **k):
        if isinstance(a, SymArr):
            return a.copy() if dtype is None else a.astype(dtype)
        if isinstance(a, SymSeq):
            return SymArr.func(lambda idx: ie(a.item_(mk_int(idx[0]))), (a.n,), dtype or np.int64, "seq")
        if isinstance(a, SymList):
            if a.width is None:
                return SymArr.func(lambda idx: a.entry(idx[0]), (a.n,), dtype or (np.float64 if a.kinds[0] == "real" else np.int64), "arr:" + a.name)

            def fn(idx):
                r = a.entry(idx[0], a.width - 1)
                for j in range(a.width - 2, -1, -1):
                    r = z3.If(idx[1] == j, a.entry(idx[0], j), r)
                return r
            s = SymArr.func(fn, (a.n, a.width), dtype or np.int64, "arr:" + a.name)
            return s
        if deep_sym(a):
            return from_list(a, dtype)
        return np.array(a, dtype, **k)

    def arange(self, *a, **k):
        if deep_sym(a):
            dt = np.dtype(k.get("dtype") or np.int64)
            if len(a) == 1:
                return SymArr.func(lambda idx: ie(cast_int(SymInt(idx[0]), dt)), (a[0],), dt, "arange")
            st = a[0]
            step = a[2] if len(a) > 2 else 1
            if step == 1:
                return SymArr.func(lambda idx: ie(cast_int(SymInt(ie(st) + idx[0]), dt)), (sub0(a[1], a[0]),), dt, "arange")
            raise Unsupported("arange with a step")
        return np.arange(*a, **k)

    def prod(self, a, *r, **k):
        if deep_sym(a) and isinstance(a, (tuple, list)):
            return prod_dims(a)
        if deep_sym(a):
            raise Unsupported("np.prod")
        return np.prod(a, *r, **k)

    def sum(self, a, *r, **k):
        if isinstance(a, (tuple, list)) and deep_sym(a):
            t = 0
            for x in a:
                t = t + x
            return t
        if hasattr(a, "vc_sum"):
            return a.vc_sum()
        if deep_sym(a):
            raise Unsupported("np.sum")
        return np.sum(a, *r, **k)

    def nditer(self, a, *r, **k):
        if isinstance(a, SymArr):
            return NdIter(a)
        return np.nditer(a, *r, **k)

    def ndindex(self, *a):
        if deep_sym(a):
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
            return SymNdIndex(s)
        return np.ndindex(*a)

    def squeeze(self, a, axis=None):
        return a.squeeze(axis) if isinstance(a, SymArr) else (a if is_sym(a) else np.squeeze(a, axis))

    def reshape(self, a, shape, order="C"):
        if isinstance(a, SymArr) or deep_sym(shape):
            return a.reshape(shape, order=order)
        return np.reshape(a, shape, order=order)

    def ravel(self, a, order="C"):
        return a.ravel(order) if isinstance(a, SymArr) else np.ravel(a, order)

    def flip(self, a, axis=None):
        if isinstance(a, SymArr):
            axs = range(a.ndim) if axis is None else [axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in axis]
            key = tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim))
            return a[key]
        return np.flip(a, axis)

    def swapaxes(self, a, i, j):
        return a.swapaxes(i, j) if isinstance(a, SymArr) else np.swapaxes(a, i, j)

    def transpose(self, a, axes=None):
        return (a.transpose(*axes) if axes else a.T) if isinstance(a, SymArr) else np.transpose(a, axes)

    def moveaxis(self, a, s, d):
        if isinstance(a, SymArr):
            order = [i for i in range(a.ndim) if i != s % a.ndim]
            order.insert(d % a.ndim, s % a.ndim)
            return a.transpose(*order)
        return np.moveaxis(a, s, d)

    def rollaxis(self, a, axis, start=0):
        if isinstance(a, SymArr):
            axis = axis % a.ndim
            start = start + a.ndim if start < 0 else start
            if not 0 <= start <= a.ndim:
                raise np.exceptions.AxisError("start out of bounds")
            order = [i for i in range(a.ndim) if i != axis]
            order.insert(start - 1 if axis < start else start, axis)
            return a.transpose(*order)
        return np.rollaxis(a, axis, start)

    def frombuffer(self, b, dtype=float, count=-1, offset=0):
        if is_sym(b) or is_sym(count) or is_sym(offset):
            from .sym import to_symbytes
            return array_from_bytes(to_symbytes(b), dtype, count, offset)
        return np.frombuffer(b, dtype, count, offset)

    def fromfile(self, f, dtype=float, count=-1, **k):
        if isinstance(f, SymFile):
            dt = np.dtype(dtype)
            if not is_sym(count) and count == -1:
                avail = sub0(f.length, f.pos)
                cnt = mk_int(ie(avail) / dt.itemsize)
            else:
                avail = sub0(f.length, f.pos)
                if C().fork(ie(count) * dt.itemsize <= ie(avail)):
                    cnt = count
                else:
                    cnt = mk_int(ie(avail) / dt.itemsize)
            b = f.read(mk_int(ie(cnt) * dt.itemsize))
            return array_from_bytes(b, dt, cnt)
        if hasattr(f, "vc_get"):
            return f.vc_get(dtype, count)
        if deep_sym((f, count)):
            raise Unsupported("np.fromfile")
        return np.fromfile(f, dtype, count, **k)

    def abs(self, x):
        return abs(x) if is_sym(x) else np.abs(x)

    def floor(self, x):
        return mk_real(z3.ToReal(z3.ToInt(re_(x)))) if is_sym(x) else np.floor(x)

    def ceil(self, x):
        return mk_real(-z3.ToReal(z3.ToInt(-re_(x)))) if is_sym(x) else np.ceil(x)

    def round(self, x, *a):
        return mk_real(z3.ToReal(ie(round(x)))) if is_sym(x) else np.round(x, *a)

    def isnan(self, x):
        return False if isinstance(x, (SymReal, SymInt)) else np.isnan(x)

    def where(self, c, *ab):
        if not deep_sym((c,) + ab):
            return np.where(c, *ab)
        if len(ab) == 2 and isinstance(c, SymArr):
            a, b = ab
            cc = c.copy()

            def val(x, idx):
                return x.expr(*idx) if isinstance(x, SymArr) else None
            kind = "r" if any(isinstance(x, (float, SymReal)) or (isinstance(x, SymArr) and x.kind == "r") for x in ab) else "i"

            def one(x, idx):
                if isinstance(x, SymArr):
                    return conv(x.kind, kind, x.expr(*idx))
                return unwrap(kind, x)
            a = a.copy() if isinstance(a, SymArr) else a
            b = b.copy() if isinstance(b, SymArr) else b
            return SymArr.func(lambda idx: z3.If(cc.expr(*idx), one(a, idx), one(b, idx)),
                               c.shape, float if kind == "r" else np.int64, "where")
        raise Unsupported("np.where")

    def append(self, a, b, axis=None):
        if not deep_sym((a, b)):
            return np.append(a, b, axis)
        if axis is not None:
            raise Unsupported("np.append with an axis")
        parts = [from_concrete(np.asarray(x)) if not deep_sym(x) else from_list(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
        parts = [x for x in parts if not (x.ndim == 1 and not is_sym(x.shape[0]) and x.shape[0] == 0)]
        if builtins.any(x.ndim != 1 for x in parts):
            raise Unsupported("np.append")
        return parts[0] if len(parts) == 1 else self.concatenate(parts)

    def hstack(self, t):
        return self.concatenate(t, axis=1 if t[0].ndim > 1 else 0)

    def concatenate(self, arrs, axis=0):
        if not deep_sym(arrs):
            return np.concatenate(arrs, axis)
        arrs = [from_concrete(a) if isinstance(a, np.ndarray) else a.copy() for a in arrs]
        offs = []
        tot = 0
        for a in arrs:
            offs.append(tot)
            tot = tot + a.shape[axis]
        kind = arrs[0].kind

        def fn(idx):
            r = None
            for a, o in reversed(list(zip(arrs, offs))):
                j = list(idx)
                j[axis] = idx[axis] - ie(o)
                e = a.expr(*j)
                r = e if r is None else z3.If(idx[axis] < ie(o) + ie(a.shape[axis]), e, r)
            return r
        shape = list(arrs[0].shape)
        shape[axis] = tot
        s = SymArr.func(fn, shape, arrs[0].dtype, "concat")
        s.store.kind = kind
        return s


class NpScalarType:
    """np.uint16(...) etc. on symbolic values; otherwise the numpy type"""

    def __init__(self, t):
        self.t = t

    def __call__(self, x=0, *a):
        if isinstance(x, (SymInt, SymBool)):
            return cast_int(x, np.dtype(self.t))
        if isinstance(x, SymReal):
            return x.astype(np.dtype(self.t))
        if isinstance(x, SymArr):
            return x.astype(np.dtype(self.t))
        return self.t(x, *a)

    @property
    def dtype(self):
        return np.dtype(self.t)

    def __eq__(self, o):
        return o is self.t or (isinstance(o, NpScalarType) and o.t is self.t) or self.t == o

    def __hash__(self):
        return hash(self.t)

    def __getattr__(self, k):
        return getattr(self.t, k)


def C_active():
    from .engine import Run
    return Run.current is not None
