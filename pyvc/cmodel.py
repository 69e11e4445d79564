"""C types of code that is extracted from Cython (see pyx.py)."""
import z3

from .engine import C, Unsupported, prove
from .sym import ie, is_sym, mk_int

BITS = {"uint8_t": (8, 0), "uint16_t": (16, 0), "uint32_t": (32, 0), "uint64_t": (64, 0), "unsigned char": (8, 0), "unsigned int": (32, 0),
        "unsigned short int": (16, 0), "unsigned long int": (64, 0), "size_t": (64, 0), "int8_t": (8, 1), "int16_t": (16, 1), "int32_t": (32, 1), "int64_t": (64, 1),
        "int": (32, 1), "long int": (64, 1), "short int": (16, 1), "Py_ssize_t": (64, 1), "long long int": (64, 1), "unsigned long long int": (64, 0)}
STRUCTS, FUSED = {}, {}


class Ptr:
    """place in memory that may be read from lo up to hi"""

    def __init__(self, byte, pos, lo, hi):
        self.byte, self.pos, self.lo, self.hi = byte, pos, lo, hi

    def __getitem__(self, k):
        p = mk_int(ie(self.pos) + ie(k))
        prove(z3.And(ie(p) >= ie(self.lo), ie(p) < ie(self.hi)), "memory that may be read")
        return self.byte(p)


class StructPtr:
    def __init__(self, ptr, fields):
        self._ptr, self._at = ptr, {}
        at = 0
        for name, t in fields:
            if t not in BITS or BITS[t] != (8, 0):
                raise Unsupported("structure with a field of type %s" % t)
            self._at[name] = at
            at += 1

    def __getattr__(self, name):
        if name.startswith("_") or name not in self._at:
            raise AttributeError(name)
        return self._ptr[self._at[name]]


def vc_addr(p, k):
    if not isinstance(p, Ptr):
        raise Unsupported("address of an element of %s" % type(p).__name__)
    return Ptr(p.byte, mk_int(ie(p.pos) + ie(k)), p.lo, p.hi)


def vc_c(t, v):
    if t.endswith(" *"):
        if t[:-2] in STRUCTS:
            return v if isinstance(v, StructPtr) else StructPtr(v, STRUCTS[t[:-2]])
        if isinstance(v, bytes):
            return Ptr(None, 0, 0, 0)
        return v if isinstance(v, Ptr) else v.pointer()
    if t in FUSED:
        return v                      # the caller states that the values fit
    if t not in BITS:
        raise Unsupported("C type %s" % t)
    bits, signed = BITS[t]
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
    if not is_sym(v):
        v = int(v)
        if lo <= v <= hi:
            return v
        if signed:
            prove(False, "the value fits the type %s" % t)
        return v % 2 ** bits
    e = ie(v)
    if signed:
        prove(z3.And(e >= lo, e <= hi), "the value fits the type %s" % t)
        return v
    if C().feasible(z3.Not(z3.And(e >= lo, e <= hi))):
        return mk_int(e % 2 ** bits)
    return v


BUILTINS = {"vc_c": vc_c, "vc_addr": vc_addr, "vc_struct": lambda n, f: STRUCTS.__setitem__(n, f), "vc_fused_type": lambda n, t: FUSED.__setitem__(n, t),
            "vc_fused": lambda f, t: f.fused(t) if hasattr(f, "fused") else f}
