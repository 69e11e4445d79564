"""Shared vocabulary of the property modules."""
import importlib
import os
import sys

import numpy as np
import z3

from pyvc.arr import SymArr, SymStruct, array_from_bytes, decode_expr, from_concrete, from_list
from pyvc.driver import Contract, Failure
from pyvc.engine import C, PathEnd, Run, Unsupported, assume, prove
from pyvc.load import REPO, LoopSpec, load_module, source_of
from pyvc.sym import (Sym, SymBool, SymBytes, SymEnumerate, SymFile, SymInt, SymList, SymRange,
                      SymReal, SymSeq, SymStr, SymZip, VDict, be, cast_int, floordiv_e,
                      fresh_bool, fresh_fn, fresh_int, fresh_real, fresh_str, ie, is_sym,
                      mk_bool, mk_int, mk_real, mod_e, re_)

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


def expect(ok, name):
    """a condition evaluated on this path"""
    prove(bool(ok), name)


def eqi(a, b):
    return ie(a) == ie(b)


def And(*a):
    return z3.And(*[x if not isinstance(x, bool) else z3.BoolVal(x) for x in a])


def induction(name, base, step):
    """lemma by induction: base and step are proved as separate obligations"""
    prove(base, name + ": base case")
    prove(step, name + ": inductive step")
