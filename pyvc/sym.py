"""Symbolic values: mathematical integers, reals (for floats), booleans,
byte strings over an uninterpreted content function, strings, files."""

import math
import numbers

import numpy as np
import z3

from .engine import C, PathEnd, Run, Unsupported

_NUM = (int, float, np.integer, np.floating, bool, np.bool_)


class Sym:
    """Base of all symbolic proxies."""

    __slots__ = ()
    __hash__ = None

    def __index__(self):
        raise Unsupported("symbolic value used where CPython needs a concrete index")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(i, depth - 1) for i in x.values())
    if depth and isinstance(x, slice):
        return any(isinstance(i, Sym) for i in (x.start, x.stop, x.step))
    return False


def ie(x):
    """z3 Int expression of an int-like value."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef):
        if x.is_int():
            return x
        raise Unsupported("real where an int is needed")
    if isinstance(x, float) and x.is_integer():
        return z3.IntVal(int(x))
    if type(x).__name__ == "SymArr" and x.ndim == 0:
        return ie(x.item())
    raise Unsupported("not an integer: %r" % (type(x).__name__,))


def re_(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (float, np.floating)):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan or inf in real arithmetic")
        import fractions
        f = fractions.Fraction(float(x))
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, z3.ArithRef) and x.is_real():
        return x
    if type(x).__name__ == "SymArr" and x.ndim == 0:
        return re_(x.item())
    return z3.ToReal(ie(x))


def be(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    raise Unsupported("not a boolean: %r" % (type(x).__name__,))


def mk_int(e):
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(e)


def mk_bool(e):
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(e)


def mk_real(e):
    return SymReal(e)


def fresh_int(base="i", lo=None, hi=None, inp=False):
    c = C()
    n = c.fresh_name(base)
    v = SymInt(z3.Int(n))
    if lo is not None:
        c.assume(v.e >= ie(lo))
    if hi is not None:
        c.assume(v.e < ie(hi))
    if inp:
        c.inputs[n] = v.e
    return v


def fresh_real(base="r", inp=False):
    c = C()
    n = c.fresh_name(base)
    v = SymReal(z3.Real(n))
    if inp:
        c.inputs[n] = v.e
    return v


def fresh_bool(base="b", inp=False):
    c = C()
    n = c.fresh_name(base)
    v = SymBool(z3.Bool(n))
    if inp:
        c.inputs[n] = v.e
    return v


def fresh_fn(base, *sorts):
    c = C()
    return z3.Function(c.fresh_name(base), *sorts)


def _isreal(x):
    return isinstance(x, (float, np.floating, SymReal))


def _arr(x):
    return type(x).__name__ == "SymArr" or isinstance(x, np.ndarray)


class SymBool(Sym):
    def __deepcopy__(self, memo):
        return self

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C().fork(self.e)

    def vc_bool(self):
        return self.e

    def __and__(self, o):
        if isinstance(o, (SymInt, int)) and not isinstance(o, bool):
            return mk_int(ie(self)) & o
        return mk_bool(z3.And(self.e, be(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, be(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mk_bool(self.e == be(o))
        if isinstance(o, (int, SymInt)):
            return mk_bool(ie(self) == ie(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _i(self):
        return SymInt(ie(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __repr__(self):
        return "SymBool(%s)" % self.e


def floordiv_e(a, b):
    """Python floor division on z3 ints (z3 div is Euclidean)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        if b.as_long() < 0:
            return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def mod_e(a, b):
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a % b
    return a - b * floordiv_e(a, b)


def mask_runs(m):
    runs = []
    lo = 0
    while m >> lo:
        if (m >> lo) & 1:
            hi = lo
            while (m >> hi) & 1:
                hi += 1
            runs.append((lo, hi))
            lo = hi
        else:
            lo += 1
    return runs


def and_const(e, m):
    if m == 0:
        return z3.IntVal(0)
    if m < 0:
        # x & m = x - (x & ~m)
        return e - and_const(e, ~m)
    parts = []
    for lo, hi in mask_runs(m):
        q = e / (2 ** lo) if lo else e
        parts.append((q % (2 ** (hi - lo))) * (2 ** lo) if lo else q % (2 ** hi))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


class SymInt(Sym):
    def __deepcopy__(self, memo):
        return self          # numbers do not change

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __format__(self, spec):
        if Run.current is not None and "formatted" in C().ghost:
            C().ghost["formatted"].append(self)
        return "<sym>"

    def __bool__(self):
        return C().fork(self.e != 0)

    def vc_bool(self):
        return self.e != 0

    def vc_model(self, m):
        return m.eval(self.e, model_completion=True).as_long()

    # numpy scalar look
    dtype = np.dtype("int64")
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def squeeze(self, *a):
        return self

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        if dt.kind == "f":
            return SymReal(z3.ToReal(self.e))
        return cast_int(self, dt)

    def _bin(self, o, f, rf=False):
        if _arr(o):
            return NotImplemented
        if _isreal(o):
            return NotImplemented
        if isinstance(o, (SymInt, SymBool) + _NUM):
            a, b = (ie(o), self.e) if rf else (self.e, ie(o))
            return mk_int(f(a, b))
        return NotImplemented

    def _real(self):
        return SymReal(z3.ToReal(self.e))

    def __add__(self, o):
        if _isreal(o):
            return self._real() + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _isreal(o):
            return o + self._real()
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if _isreal(o):
            return self._real() - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _isreal(o):
            return o - self._real()
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _isreal(o):
            return self._real() * o
        if isinstance(o, (tuple, list, bytes, str)):
            return sym_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if _isreal(o):
            return o * self._real()
        if isinstance(o, (tuple, list, bytes, str)):
            return sym_repeat(o, self)
        return self._bin(o, lambda a, b: a * b, True)

    def __floordiv__(self, o):
        if _isreal(o):
            return self._real() // o
        if _arr(o):
            return NotImplemented
        _nonzero(o)
        return self._bin(o, floordiv_e)

    def __rfloordiv__(self, o):
        _nonzero(self)
        return self._bin(o, floordiv_e, True)

    def __mod__(self, o):
        if _isreal(o):
            return self._real() % o
        if _arr(o):
            return NotImplemented
        _nonzero(o)
        return self._bin(o, mod_e)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return o.__class__()
        _nonzero(self)
        return self._bin(o, mod_e, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self._real() / o

    def __rtruediv__(self, o):
        return SymReal(re_(o)) / self

    def __neg__(self):
        return mk_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mk_int(r)
        raise Unsupported("power with a symbolic or large exponent")

    def __rpow__(self, o):
        if o == 2:
            return mk_int(pow2(self.e))
        raise Unsupported("constant ** symbolic")

    def __and__(self, o):
        if _arr(o):
            return NotImplemented
        if isinstance(o, (int, np.integer)):
            return mk_int(and_const(self.e, int(o)))
        if isinstance(o, SymInt):
            return bitop_sym("and", self, o)
        if isinstance(o, SymBool):
            return self & o._i()
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (int, np.integer)):
            return mk_int(self.e + int(o) - and_const(self.e, int(o)))
        if isinstance(o, SymInt):
            return bitop_sym("or", self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (int, np.integer)):
            return mk_int(self.e + int(o) - 2 * and_const(self.e, int(o)))
        if isinstance(o, SymInt):
            return bitop_sym("xor", self, o)
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mk_int(-self.e - 1)

    def __lshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return mk_int(self.e * (2 ** int(o)))
        return mk_int(self.e * pow2(ie(o)))

    def __rlshift__(self, o):
        return mk_int(ie(o) * pow2(self.e))

    def __rshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return mk_int(self.e / (2 ** int(o)))
        return mk_int(self.e / pow2(ie(o)))

    def __rrshift__(self, o):
        return mk_int(ie(o) / pow2(self.e))

    def _cmp(self, o, f):
        if _arr(o):
            return NotImplemented
        if _isreal(o):
            return mk_bool(f(z3.ToReal(self.e), re_(o)))
        if isinstance(o, (SymInt, SymBool) + _NUM):
            return mk_bool(f(self.e, ie(o)))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented and not _arr(o):
            if is_sym(o) and not isinstance(o, (SymStr, SymBytes)):
                raise Unsupported("comparison of %s and %s" % (type(self), type(o)))
            return False
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        if r is NotImplemented and not _arr(o):
            return True
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def is_integer(self):
        return True

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic int")


def _nonzero(o):
    if is_sym(o):
        if not C().fork(ie(o) != 0):
            raise ZeroDivisionError("integer division or modulo by zero")
    elif o == 0:
        raise ZeroDivisionError("integer division or modulo by zero")


_POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(e):
    """2**e for 0 <= e < 64 by case table (a complete definition on that range);
    outside the range Unsupported."""
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return z3.IntVal(2 ** s.as_long())
    c = C()
    if c.feasible(z3.Or(e < 0, e >= 64)):
        raise Unsupported("2**n with n not provably in 0..63")
    r = z3.IntVal(2 ** 63)
    for k in range(62, -1, -1):
        r = z3.If(e == k, z3.IntVal(2 ** k), r)
    return r


def bitop_sym(op, a, b):
    c = C()
    # disjoint bits: a = k*2^n, 0 <= b < 2^n (or the other way round)
    for x, y in ((a, b), (b, a)):
        for n in range(0, 65):
            p = 2 ** n
            if not c.feasible(z3.Not(z3.And(y.e >= 0, y.e < p))):
                if not c.feasible(z3.Not(x.e % p == 0)):
                    return mk_int(x.e + y.e) if op != "and" else 0
                break
    # both non-negative below 2^w: bit-vector semantics
    for w in (1, 8, 16, 32, 64):
        p = 2 ** w
        if not c.feasible(z3.Not(z3.And(a.e >= 0, a.e < p, b.e >= 0, b.e < p))):
            x, y = z3.Int2BV(a.e, w), z3.Int2BV(b.e, w)
            r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
            return mk_int(z3.BV2Int(r))
    raise Unsupported("bit operation on unbounded symbolic integers")


def cast_int(v, dt):
    """numpy C cast of an integer to dtype dt (wraps)."""
    dt = np.dtype(dt)
    if dt.kind == "b":
        return mk_bool(ie(v) != 0)
    if dt.kind in "iu":
        info = np.iinfo(dt)
        e = ie(v)
        c = C()
        if not c.feasible(z3.Not(z3.And(e >= int(info.min), e <= int(info.max)))):
            return mk_int(e)
        p = 2 ** (dt.itemsize * 8)
        m = e % p
        if dt.kind == "i":
            m = z3.If(m >= p // 2, m - p, m)
        return mk_int(m)
    if dt.kind == "f":
        return SymReal(z3.ToReal(ie(v)))
    if dt.kind == "O":
        return v
    raise Unsupported("cast of an int to %s" % dt)


def quotient(n, d):
    """n / d; with ghost["quotients"] as a number of its own, with n = q * d"""
    known = C().ghost.get("quotients") if not z3.is_rational_value(d) else None
    if known is None:
        return mk_real(n / d)
    for a, b, q in known:
        if a.eq(n) and b.eq(d):
            return SymReal(q)
    q = fresh_real("quotient")
    C().assume(q.e * d == n)
    known.append((n, d, q.e))
    return q


class SymReal(Sym):
    def __deepcopy__(self, memo):
        return self

    """A float treated as a mathematical real (stated assumption)."""

    __slots__ = ("e",)
    dtype = np.dtype("float64")
    shape = ()
    ndim = 0

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SymReal(%s)" % self.e

    def __format__(self, spec):
        return "<sym>"

    def vc_model(self, m):
        return str(m.eval(self.e, model_completion=True))

    def vc_bool(self):
        return self.e != 0

    def __bool__(self):
        return C().fork(self.e != 0)

    def item(self):
        return self

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        if dt.kind == "f":
            return self
        if dt.kind in "iu":
            return cast_int(self.__trunc__(), dt)
        raise Unsupported("cast of a real to %s" % dt)

    def _ok(self, o):
        return isinstance(o, (SymReal, SymInt, SymBool) + _NUM) and not _arr(o)

    def __add__(self, o):
        return mk_real(self.e + re_(o)) if self._ok(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mk_real(self.e - re_(o)) if self._ok(o) else NotImplemented

    def __rsub__(self, o):
        return mk_real(re_(o) - self.e) if self._ok(o) else NotImplemented

    def __mul__(self, o):
        return mk_real(self.e * re_(o)) if self._ok(o) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        _rnonzero(o)
        return quotient(self.e, re_(o))

    def __rtruediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        _rnonzero(self)
        return quotient(re_(o), self.e)

    def __floordiv__(self, o):
        _rnonzero(o)
        return mk_real(z3.ToReal(z3.ToInt(self.e / re_(o))))

    def __mod__(self, o):
        _rnonzero(o)
        d = re_(o)
        return mk_real(self.e - d * z3.ToReal(z3.ToInt(self.e / d)))

    def __neg__(self):
        return mk_real(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_real(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.RealVal(1)
            for _ in range(o):
                r = r * self.e
            return mk_real(r)
        k = round(1 / o) if isinstance(o, float) and 0 < o <= 1 else 0
        if 1 <= k <= 6 and abs(o - 1 / k) < 1e-12:
            # k-th root of a non-negative real (floats as reals)
            C().prove(self.e >= 0, "root of a non-negative value")
            y = fresh_real("root")
            r = z3.RealVal(1)
            for _ in range(k):
                r = r * y.e
            C().assume(z3.And(y.e >= 0, r == self.e))
            if "root" in C().ghost:
                C().ghost["root"](self, k, y)
            return y
        raise Unsupported("real power")

    def __trunc__(self):
        return mk_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if nd is not None:
            if not isinstance(nd, int):
                raise Unsupported("round to digits of a symbolic real")
            # the decimal number next to it
            r = fresh_real("rounded")
            half = z3.Q(5, 1) * (z3.RatVal(1, 10 ** (nd + 1)) if nd >= 0 else z3.RealVal(10 ** (-nd - 1)))
            C().assume(z3.And(r.e - self.e <= half, self.e - r.e <= half, z3.Implies(self.e == 0, r.e == 0)))
            return r
        # round half to even
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.Q(1, 2)
        return mk_int(z3.If(d < half, f, z3.If(d > half, f + 1,
                                               z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def _cmp(self, o, f):
        if not self._ok(o):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported("comparison with inf or nan")
        return mk_bool(f(self.e, re_(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not _arr(o) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not _arr(o) else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def _rnonzero(o):
    if is_sym(o):
        if not C().fork(re_(o) != 0):
            raise ZeroDivisionError("float division by zero")
    elif o == 0:
        raise ZeroDivisionError("float division by zero")


class SymOpaque(Sym):
    """A value known only by an uninterpreted identity (compared by identity)."""

    __slots__ = ("e", "tag")

    def __init__(self, tag, e):
        self.tag = tag
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SymOpaque):
            return mk_bool(self.e == o.e)
        if o is None:
            return False
        raise Unsupported("opaque value compared with %r" % type(o))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        raise Unsupported("truth of an opaque value")

    def __repr__(self):
        return "Opaque(%s,%s)" % (self.tag, self.e)

    def __str__(self):
        raise Unsupported("str of an opaque value")


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------

class SymStr(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def vc_model(self, m):
        return str(m.eval(self.e, model_completion=True))

    def __repr__(self):
        return "SymStr(%s)" % self.e

    def __format__(self, spec):
        return "<sym>"

    def __bool__(self):
        return C().fork(z3.Length(self.e) > 0)

    def __eq__(self, o):
        if isinstance(o, str):
            return mk_bool(self.e == z3.StringVal(o))
        if isinstance(o, SymStr):
            return mk_bool(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        return SymStr(z3.Concat(self.e, se(o)))

    def __radd__(self, o):
        return SymStr(z3.Concat(se(o), self.e))

    def __contains__(self, o):
        return bool(mk_bool(z3.Contains(self.e, se(o))))

    def startswith(self, o):
        if isinstance(o, tuple):
            return mk_bool(z3.Or([z3.PrefixOf(se(i), self.e) for i in o]))
        return mk_bool(z3.PrefixOf(se(o), self.e))

    def endswith(self, o):
        return mk_bool(z3.SuffixOf(se(o), self.e))

    def vc_len(self):
        return mk_int(z3.Length(self.e))

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("vc_"):
            raise AttributeError(name)
        raise Unsupported("str.%s on a symbolic string" % name)


def se(x):
    if isinstance(x, SymStr):
        return x.e
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported("not a string: %r" % type(x))


def fresh_str(base="s", inp=True):
    c = C()
    n = c.fresh_name(base)
    v = SymStr(z3.String(n))
    if inp:
        c.inputs[n] = v.e
    return v


# --------------------------------------------------------------------------
# bytes and files
# --------------------------------------------------------------------------

def _byte_range(e):
    C().solver.add(e >= 0, e < 256)
    return e


class SymBytes(Sym):
    """byte string: `at(i)` gives the z3 Int (0..255) at offset i."""

    __slots__ = ("at", "length", "origin")

    def __init__(self, at, length, origin=None):
        self.at = at
        self.length = length
        self.origin = origin      # (file content function, start) when a file slice

    def vc_len(self):
        return self.length

    def byte(self, i):
        return _byte_range(self.at(ie(i)))

    def __repr__(self):
        return "SymBytes(len=%s)" % (self.length,)

    def __bool__(self):
        return bool(self.length) if not is_sym(self.length) else bool(self.length != 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("strided slice of bytes")
            a, b = norm_slice(k, self.length)
            ln = sub0(b, a)
            at, ae = self.at, ie(a)
            org = None
            if self.origin is not None:
                org = (self.origin[0], mk_int(ie(self.origin[1]) + ae))
            return SymBytes(lambda i: at(i + ae), ln, org)
        i = norm_index(k, self.length)
        return mk_int(self.byte(i))

    def __add__(self, o):
        o = to_symbytes(o)
        la, a, b = ie(self.length), self.at, o.at
        return SymBytes(lambda i: z3.If(i < la, a(i), b(i - la)),
                        mk_int(la + ie(o.length)))

    def __radd__(self, o):
        return to_symbytes(o) + self

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            n = len(o)
            conds = [ie(self.length) == n]
            conds += [self.byte(i) == o[i] for i in range(n)]
            return mk_bool(z3.And(*conds))
        if isinstance(o, SymBytes):
            if not is_sym(self.length) and not is_sym(o.length):
                if self.length != o.length:
                    return False
                if self.length <= 256:
                    return mk_bool(z3.And([self.byte(i) == o.byte(i)
                                           for i in range(self.length)] + [z3.BoolVal(True)]))
            raise Unsupported("equality of unbounded symbolic bytes")
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __iter__(self):
        if is_sym(self.length):
            raise Unsupported("iteration over bytes of symbolic length")
        for i in range(self.length):
            yield mk_int(self.byte(i))

    def decode(self, *a, **k):
        if getattr(C().run, "decode_may_fail", False):
            # a strict UTF-8 decode may fail for any content (over-approximated)
            codec = str(a[0] if a else k.get("encoding", "utf-8")).lower().replace("-", "").replace("_", "")
            errors = a[1] if len(a) > 1 else k.get("errors", "strict")
            if codec == "utf8" and errors == "strict":
                if bool(fresh_bool("not_utf8")):
                    C().run.utf8_failed = True
                    raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
            elif codec == "ascii" and errors == "strict":
                if bool(fresh_bool("not_ascii")):
                    raise UnicodeDecodeError("ascii", b"?", 0, 1, "symbolic")
        return SymDecoded(self, a, k)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("vc_"):
            raise AttributeError(name)
        if not is_sym(self.length) and self.length <= 4096:
            # bytes that are all known
            b = [z3.simplify(ie(self.at(z3.IntVal(i)))) for i in range(self.length)]
            if all(z3.is_int_value(x) for x in b):
                return getattr(bytes(x.as_long() for x in b), name)
        raise Unsupported("bytes.%s on symbolic bytes" % name)


class SymDecoded(Sym):
    """text decoded from symbolic bytes: opaque apart from its origin."""
    __slots__ = ("src", "args", "ops")

    def __init__(self, src, a, k, ops=()):
        self.src, self.args, self.ops = src, (a, tuple(sorted(k.items()))), ops

    def __repr__(self):
        return "SymDecoded(%r)" % (self.src,)

    def __eq__(self, o):
        if isinstance(o, str) and not self.ops:
            try:
                return self.src == o.encode("ascii")
            except UnicodeEncodeError:
                pass
        raise Unsupported("comparison of decoded text")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("vc_"):
            raise AttributeError(name)
        if name in ("strip", "rstrip", "lstrip"):
            def f(*a):
                return SymDecoded(self.src, self.args[0], dict(self.args[1]),
                                  self.ops + ((name, a),))
            return f
        raise Unsupported("str.%s on decoded symbolic text" % name)


def to_symbytes(o):
    if isinstance(o, SymBytes):
        return o
    if isinstance(o, (bytes, bytearray)):
        data = bytes(o)

        def at(i):
            s = z3.simplify(i)
            if z3.is_int_value(s):
                k = s.as_long()
                return z3.IntVal(data[k] if 0 <= k < len(data) else 0)
            r = z3.IntVal(0)
            for k in range(len(data)):
                r = z3.If(i == k, z3.IntVal(data[k]), r)
            return r
        return SymBytes(at, len(data))
    raise Unsupported("not bytes: %r" % type(o))


def norm_index(k, n):
    """obligation: -n <= k < n; result normalised to 0..n-1"""
    c = C()
    if not is_sym(k) and not is_sym(n):
        k = int(k)
        if not -n <= k < n:
            raise IndexError("index out of range")
        return k + n if k < 0 else k
    ke, ne = ie(k), ie(n)
    if not c.fork(z3.And(ke >= -ne, ke < ne)):
        raise IndexError("index out of range")
    if c.fork(ke >= 0):
        return k
    return mk_int(ke + ne)


def clamp(e, lo, hi):
    return z3.If(e < lo, lo, z3.If(e > hi, hi, e))


def norm_slice(s, n):
    """start, stop of a step-1 slice over length n (Python clamping)"""
    def one(v, default):
        if v is None:
            return default
        if not is_sym(v) and not is_sym(n):
            v = int(v)
            if v < 0:
                v += n
            return max(0, min(v, n))
        ve, ne = ie(v), ie(n)
        c = C()
        # keep the expression simple when the range is already known
        if not c.feasible(z3.Not(z3.And(ve >= 0, ve <= ne))):
            return v
        ve = z3.If(ve < 0, ve + ne, ve)
        return mk_int(clamp(ve, z3.IntVal(0), ne))
    return one(s.start, 0), one(s.stop, n)


def sub0(b, a):
    """max(b - a, 0)"""
    if not is_sym(a) and not is_sym(b):
        return max(b - a, 0)
    d = ie(b) - ie(a)
    if not C().feasible(d < 0):
        return mk_int(d)
    return mk_int(z3.If(d > 0, d, z3.IntVal(0)))


class SymFile(Sym):
    """Binary file: content function, length, position; reads past the end are
    short, as in CPython.  `written` records appended writes (ghost)."""

    def __init__(self, name="file", length=None, pos=0, closed=False):
        c = C()
        self.name = c.fresh_name(name)
        self.fn = z3.Function(self.name + ".byte", z3.IntSort(), z3.IntSort())
        self.length = length if length is not None else fresh_int(self.name + ".len", 0, inp=True)
        self.pos = pos
        self.closed = closed
        self.serial = c.next_serial()
        self.out = []            # (position, SymBytes/bytes) of writes
        self.endpos = None

    def vc_havoc(self):
        self.pos = fresh_int(self.name + ".pos", 0)

    def at(self, i):
        return self.fn(ie(i))

    def read(self, n=-1):
        check_write(self)
        if n is None or (not is_sym(n) and n < 0):
            n = sub0(self.length, self.pos)
        elif is_sym(n):
            c = C()
            if not c.fork(ie(n) >= 0):
                n = sub0(self.length, self.pos)
        p = self.pos
        avail = sub0(self.length, p)
        c = C()
        if not is_sym(n) and not is_sym(avail):
            ln = min(n, avail)
        elif c.fork(ie(n) <= ie(avail)):
            ln = n
        else:
            ln = avail
        pe = ie(p)
        fn = self.fn
        self.pos = mk_int(pe + ie(ln))
        return SymBytes(lambda i: fn(pe + i), ln, (fn, p))

    def seek(self, off, whence=0):
        check_write(self)
        if whence == 0:
            new = off
        elif whence == 1:
            new = mk_int(ie(self.pos) + ie(off))
        elif whence == 2:
            new = mk_int(ie(self.length) + ie(off))
        else:
            raise Unsupported("seek whence")
        if not C().fork(ie(new) >= 0):
            raise OSError("negative seek position")
        self.pos = new
        return new

    def tell(self):
        return self.pos

    def write(self, data):
        check_write(self)
        b = data if isinstance(data, bytes) else data
        n = len(b) if isinstance(b, (bytes, bytearray)) else b.vc_len()
        self.out.append((self.pos, b))
        self.pos = mk_int(ie(self.pos) + ie(n))
        return n

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def check_write(obj):
    """frame condition: inside a cut loop only declared or newer objects change"""
    for lp in C().loops:
        if not lp.may_write(obj):
            raise Unsupported("frame: loop %s writes %s, not in its modifies clause"
                              % (lp.key, type(obj).__name__))


# --------------------------------------------------------------------------
# repetition, ranges
# --------------------------------------------------------------------------

class SymRepeat(Sym):
    """seq * n for symbolic n"""

    def __init__(self, seq, n):
        self.seq, self.n = seq, n

    def vc_len(self):
        return mk_int(ie(self.n) * len(self.seq))

    def __iter__(self):
        raise Unsupported("iterate a symbolic repetition")


def sym_repeat(seq, n):
    if isinstance(seq, (bytes, bytearray)):
        if len(seq) == 1:
            v = z3.IntVal(seq[0])
            ne = ie(n)
            return SymBytes(lambda i: v, mk_int(z3.If(ne > 0, ne, z3.IntVal(0))))
    return SymRepeat(seq, n)


class SymRange(Sym):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if is_sym(step) or step == 0:
            if not is_sym(step):
                raise ValueError("range() arg 3 must not be zero")
            if not C().fork(ie(step) > 0):
                raise Unsupported("range with a symbolic step not provably positive")

    def vc_len(self):
        st = ie(self.step)
        if not is_sym(self.step) and self.step < 0:
            d = ie(self.start) - ie(self.stop)
            st = z3.IntVal(-self.step)
        else:
            d = ie(self.stop) - ie(self.start)
        if not is_sym(self.step) and abs(self.step) == 1:
            return mk_int(z3.If(d > 0, d, z3.IntVal(0)))
        return mk_int(z3.If(d > 0, (d + st - 1) / st, z3.IntVal(0)))

    def vc_item(self, k):
        return mk_int(ie(self.start) + ie(k) * ie(self.step))

    def __getitem__(self, k):
        return self.vc_item(norm_index(k, self.vc_len()))

    def __contains__(self, x):
        if self.step == 1:
            return bool(mk_bool(z3.And(ie(x) >= ie(self.start), ie(x) < ie(self.stop))))
        raise Unsupported("in range with a step")

    def __iter__(self):
        n = self.vc_len()
        if is_sym(n):
            raise Unsupported("iteration over a range of symbolic length outside a cut loop")
        for k in range(n):
            yield self.vc_item(k)


class SymEnumerate(Sym):
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start

    def vc_len(self):
        return vlen(self.seq)

    def vc_item(self, k):
        return (mk_int(ie(k) + ie(self.start)), vitem(self.seq, k))

    def __iter__(self):
        n = self.vc_len()
        if is_sym(n):
            raise Unsupported("iteration over symbolic enumerate outside a cut loop")
        for k in range(n):
            yield self.vc_item(k)


class SymZip(Sym):
    def __init__(self, seqs):
        self.seqs = seqs

    def vc_len(self):
        n = vlen(self.seqs[0])
        for s in self.seqs[1:]:
            m = vlen(s)
            n = vmin(n, m)
        return n

    def vc_item(self, k):
        return tuple(vitem(s, k) for s in self.seqs)

    def __iter__(self):
        n = self.vc_len()
        if is_sym(n):
            raise Unsupported("iteration over symbolic zip outside a cut loop")
        for k in range(n):
            yield self.vc_item(k)


class SymSeq(Sym):
    """immutable sequence given by a length and an item function"""

    def __init__(self, n, item):
        self.n, self.item_ = n, item

    def vc_len(self):
        return self.n

    def vc_item(self, k):
        return self.item_(k)

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b = norm_slice(k, self.n)
            it = self.item_
            return SymSeq(sub0(b, a), lambda i: it(mk_int(ie(i) + ie(a))))
        return self.item_(norm_index(k, self.n))

    def __iter__(self):
        if is_sym(self.n):
            raise Unsupported("iteration over a sequence of symbolic length outside a cut loop")
        for k in range(self.n):
            yield self.item_(k)

    def __bool__(self):
        return bool(mk_bool(ie(self.n) > 0))


def vlen(x):
    if isinstance(x, Sym):
        if hasattr(x, "vc_len"):
            return x.vc_len()
        raise TypeError("object of type %s has no len()" % type(x).__name__)
    if hasattr(type(x), "vc_len"):
        return x.vc_len()
    return len(x)


def vitem(x, k):
    if hasattr(x, "vc_item"):
        return x.vc_item(k)
    if isinstance(x, range):
        if is_sym(k):
            return mk_int(x.start + ie(k) * x.step)
        return x[k]
    if isinstance(x, (list, tuple, str, bytes)):
        if is_sym(k):
            return pick(list(x), k)
        return x[k]
    raise Unsupported("item of %r" % type(x))


def pick(seq, k):
    """x[k] for a concrete sequence and a symbolic index in range: case split
    as an expression when the items are integers, else a fork."""
    if not seq:
        raise IndexError("list index out of range")
    if all(isinstance(v, (int, np.integer, SymInt)) and not isinstance(v, bool) for v in seq):
        r = ie(seq[-1])
        for i in range(len(seq) - 2, -1, -1):
            r = z3.If(ie(k) == i, ie(seq[i]), r)
        return mk_int(r)
    for i in range(len(seq)):
        if i == len(seq) - 1 or C().fork(ie(k) == i):
            return seq[i]
    raise AssertionError


def vmin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if _isreal(a) or _isreal(b):
        return mk_real(z3.If(re_(a) <= re_(b), re_(a), re_(b)))
    return mk_int(z3.If(ie(a) <= ie(b), ie(a), ie(b)))


def vmax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if _isreal(a) or _isreal(b):
        return mk_real(z3.If(re_(a) >= re_(b), re_(a), re_(b)))
    return mk_int(z3.If(ie(a) >= ie(b), ie(a), ie(b)))


class SymList(Sym):
    """Append-only list with a prophecy of its final content: entry k of list
    `name` is F_j(k); an append at length n fixes F_j(n).  Sound because every
    entry is written once on a path (append only, checked)."""

    def __init__(self, name, width=None, length=0, kinds=None):
        c = C()
        self.name = c.fresh_name(name)
        self.width = width            # None: scalars; n: n-tuples
        w = 1 if width is None else width
        self.kinds = tuple(kinds or ("int",) * w)
        self.fns = [z3.Function("%s.%d" % (self.name, j), z3.IntSort(), z3.RealSort() if self.kinds[j] == "real" else z3.IntSort())
                    for j in range(w)]
        self.n = length
        self.hook = None
        self.serial = c.next_serial()

    @classmethod
    def of(cls, old, name, width=None, hook=None, kinds=None):
        if isinstance(old, SymList):
            return old
        lst = cls(name, width, kinds=kinds)
        lst.hook = hook
        for v in old:
            lst.append(v)
        return lst

    def vc_havoc(self):
        self.n = fresh_int(self.name + ".len", 0)

    def vc_len(self):
        return self.n

    def append(self, v):
        check_write(self)
        vs = (v,) if self.width is None else tuple(v)
        if len(vs) != len(self.fns):
            raise Unsupported("append of a tuple of another width")
        k = ie(self.n)
        for f, x, kd in zip(self.fns, vs, self.kinds):
            C().assume(f(k) == (re_(x) if kd == "real" else ie(x)))
        self.n = mk_int(k + 1)
        if self.hook:
            self.hook(k)

    def extend(self, vs):
        if isinstance(vs, Sym):
            raise Unsupported("extending a list by a symbolic sequence")
        for v in vs:
            self.append(v)

    def entry(self, k, j=0):
        return self.fns[j](ie(k))

    def _one(self, k, j):
        return (mk_real if self.kinds[j] == "real" else mk_int)(self.entry(k, j))

    def vc_item(self, k):
        if self.width is None:
            return self._one(k, 0)
        return tuple(self._one(k, j) for j in range(self.width))

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b = norm_slice(k, self.n)
            return SymSeq(sub0(b, a), lambda i: self.vc_item(mk_int(ie(i) + ie(a))))
        return self.vc_item(norm_index(k, self.n))

    def __bool__(self):
        return bool(mk_bool(ie(self.n) > 0))

    def __iter__(self):
        if is_sym(self.n):
            raise Unsupported("iteration over a symbolic list outside a cut loop")
        for k in range(self.n):
            yield self.vc_item(k)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("vc_"):
            raise AttributeError(name)
        raise Unsupported("list.%s on an append-only symbolic list" % name)


class VDict(dict):
    """dict whose lookups accept symbolic keys (fork over the known keys)."""

    def _find(self, k):
        for q in list(dict.keys(self)):
            r = (k == q)
            if r if isinstance(r, bool) else bool(r):
                return q
        raise KeyError(k)

    def __getitem__(self, k):
        if is_sym(k):
            return dict.__getitem__(self, self._find(k))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if is_sym(k):
            try:
                return dict.__getitem__(self, self._find(k))
            except KeyError:
                return d
        return dict.get(self, k, d)

    def __contains__(self, k):
        if is_sym(k):
            try:
                self._find(k)
                return True
            except KeyError:
                return False
        return dict.__contains__(self, k)
