"""Mechanical extraction of the code under contract.

The module's source file is read from the repository on every run, parsed, put
through the transformations below, compiled and executed in a fresh module
namespace.  The function bodies that are explored are those of the file.

Transformations (everything else is kept verbatim):
 T1  every `for`/`while` statement inside a function is routed through a loop
     manager; concrete iterations run unchanged, iterations over symbolic
     sequences are cut at a declared invariant;
 T2  dict displays become VDict (same mapping, symbolic-key lookup);
 T3  the decorator `jit_ifnumba` is dropped (the Python body is verified, the
     JIT compiler is trusted);
 T4  f-strings and %-formatting of symbolic values render as "<sym>" (they only
     reach log and error messages; a symbolic f-string used as data is
     Unsupported because it is a plain concrete string that cannot be compared
     equal to a symbolic one) -- see Sym.__format__;
 T6  `import` of numpy/struct/math/warnings binds the models of arr.py; import of a
     module listed as instrumented binds its extracted version; "..".join(x) calls
     a model; list comprehensions are routed like loops;
 T7  annotations of parameters and results are dropped (they are not evaluated at run time for any effect);
 T8  local variables that were renamed get back the names that the invariants use (alpha conversion, see alpha.py);
 T5  `and`/`or`/`not`/comparison chains keep Python semantics (fork on truth).
"""

import ast
import builtins
import math
import os
import re
import sys
import types

import numpy as np
import z3

from . import alpha
from . import sym as S
from .arr import NpShim, StructShim, SymArr
from .engine import C, PathEnd, Run, SpecMismatch, Unsupported, prove, to_bool_expr
from .sym import (Sym, SymBool, SymBytes, SymEnumerate, SymInt, SymList, SymRange,
                  SymOpaque, SymReal, SymSeq, SymStr, SymZip, VDict, fresh_int, fresh_bool, fresh_real,
                  ie, is_sym, mk_bool, mk_int, re_, vitem, vlen)

REPO = os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
# AST transformation
# --------------------------------------------------------------------------

class _Stores(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def stores(nodes):
    v = _Stores()
    for n in nodes:
        v.visit(n)
    return v.names


def loads(node):
    return [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]


def _ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))


def _read_first(stmts, bound, out):
    """names that statements may read before they bind them; bound: those surely bound so far"""
    def reads(node):
        if node is not None:
            out.update(n for n in loads(node) if n not in bound)
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            reads(s.value)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                reads(t)
                if isinstance(s, ast.Assign) or s.value is not None:
                    bound.update(n.id for n in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else ())
                                 if isinstance(n, ast.Name))
        elif isinstance(s, ast.AugAssign):
            reads(s)
            if isinstance(s.target, ast.Name) and s.target.id not in bound:
                out.add(s.target.id)
        elif isinstance(s, ast.If):
            reads(s.test)
            a, b = set(bound), set(bound)
            _read_first(s.body, a, out)
            _read_first(s.orelse, b, out)
            bound |= b if _ends(s.body) else a if _ends(s.orelse) else a & b
        else:
            reads(s)
            out.update(n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id not in bound)


def temporaries(node, fn_loads):
    """names that the body of a loop binds before it reads them, and that nothing else in the function reads"""
    first, bound = set(), set()
    if isinstance(node, ast.While):
        first.update(loads(node.test))
    else:
        bound.update(n.id for n in ast.walk(node.target) if isinstance(n, ast.Name))
        for part in [node.iter] + node.orelse:
            first.update(loads(part))
    _read_first(node.body, bound, first)
    here = {}
    for n in loads(node):
        here[n] = here.get(n, 0) + 1
    kept = {n.target.id for n in ast.walk(node) if isinstance(n, ast.NamedExpr)}
    kept |= {x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    return [n for n in stores(node.body) if n not in first and n not in kept and fn_loads.get(n, 0) == here.get(n, 0)]


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.reads = []
        self.counter = {}

    def _name(self, base):
        return ast.Name(id=base, ctx=ast.Load())

    def visit_FunctionDef(self, node):
        node.decorator_list = [d for d in node.decorator_list
                               if "jit_ifnumba" not in ast.dump(d)]
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [node.args.vararg, node.args.kwarg]:
            if a is not None:
                a.annotation = None
        self.fn.append((".".join([f[0] for f in self.fn[-1:]] + [node.name]) if False else node.name,
                        self._locals(node)))
        count = {}
        for n in loads(node):
            count[n] = count.get(n, 0) + 1
        for n in ast.walk(node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                count[n.target.id] = count.get(n.target.id, 0) + 10 ** 6      # read and bound
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                count.update((x, 10 ** 6) for x in n.names)
        self.reads.append(count)
        self.generic_visit(node)
        self.reads.pop()
        self.fn.pop()
        return node

    def _locals(self, node):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        glob = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
        for s in stores(node.body):
            if s not in names:
                names.append(s)
        return [n for n in names if n not in glob]

    def visit_ListComp(self, node):
        if not self.fn or len(node.generators) != 1 or node.generators[0].is_async or \
                any(isinstance(w, (ast.NamedExpr, ast.Await, ast.Yield)) for w in ast.walk(node)):
            return self.generic_visit(node)
        g = node.generators[0]
        fname = self.fn[-1][0]
        self.generic_visit(node)
        tgt = ast.Name(id="_vc_x", ctx=ast.Store())
        # [elt for target in iter if cond]  ->  __vc_comp__(iter, keep, elt)
        # with keep/elt generator expressions over one item, so that any target works
        def over(e):
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vc_item")], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]),
                body=ast.Subscript(
                    value=ast.ListComp(elt=e, generators=[ast.comprehension(
                        target=g.target, iter=ast.Tuple(elts=[self._name("_vc_item")], ctx=ast.Load()),
                        ifs=[], is_async=0)]),
                    slice=ast.Constant(0), ctx=ast.Load()))
        cond = ast.Constant(None)
        if g.ifs:
            import copy
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
            cond = over(test)
        return ast.Call(func=self._name("__vc_comp__"),
                        args=[g.iter, over(node.elt), cond, ast.Constant(fname), ast.Constant(node.lineno)],
                        keywords=[])

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name.split(".")[0] in ("rsciio", "numpy", "struct", "math", "warnings", "zlib", "pickle", "dask", "h5py") and \
                    (al.asname or "." not in al.name):
                out.append(ast.Assign(
                    targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())],
                    value=ast.Call(func=self._name("__vc_import__"),
                                   args=[ast.Constant(al.name), ast.Constant(None), self._name("__name__")],
                                   keywords=[])))
            else:
                out.append(ast.Import(names=[al]))
        return out

    def visit_ImportFrom(self, node):
        if node.level and all(a.name != "*" for a in node.names):
            return [ast.Assign(
                targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())],
                value=ast.Call(func=self._name("__vc_import__"),
                               args=[ast.Constant("." * node.level + (node.module or "")), ast.Constant(al.name),
                                     self._name("__package__")],
                               keywords=[])) for al in node.names]
        if node.level == 0 and node.module.split(".")[0] in ("rsciio", "struct", "math", "pickle", "dask", "h5py") and \
                all(a.name != "*" for a in node.names):
            return [ast.Assign(
                targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())],
                value=ast.Call(func=self._name("__vc_import__"),
                               args=[ast.Constant(node.module), ast.Constant(al.name), self._name("__name__")],
                               keywords=[])) for al in node.names]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) \
                and len(node.args) == 1 and not node.keywords:
            return ast.Call(func=self._name("__vc_join__"), args=[f.value, node.args[0]], keywords=[])
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str) and not node.keywords and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            return ast.Call(func=self._name("__vc_format__"), args=[f.value] + node.args, keywords=[])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.Call(func=self._name("__vc_percent__"), args=[node.left, node.right], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not any(isinstance(v, ast.FormattedValue) for v in node.values):
            return node
        out = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                out.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant("")],
                                     ctx=ast.Load()))
            else:
                out.append(v)
        return ast.Call(func=self._name("__vc_fstring__"), args=out, keywords=[])

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.Call(func=self._name("__vc_dict__"), args=[node], keywords=[])

    def _prologue(self, node, kind, iter_expr, modified, temps):
        fname, locs = self.fn[-1]
        k = self.counter.get(fname, 0)
        self.counter[fname] = k + 1
        var = "_vcL_%s_%d" % (fname.strip("_"), k)
        call = ast.Call(
            func=self._name("__vc_loop__"),
            args=[ast.Constant(kind), ast.Constant(fname), ast.Constant(k),
                  iter_expr if iter_expr is not None else ast.Constant(None),
                  ast.Constant(tuple(modified)), ast.Constant(node.lineno), ast.Constant(tuple(temps))],
            keywords=[])
        stmts = [ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=call)]
        body = []
        for n in locs:
            body.append(ast.If(
                test=ast.Call(func=ast.Attribute(value=self._name(var), attr="has", ctx=ast.Load()),
                              args=[ast.Constant(n)], keywords=[]),
                body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                                 value=ast.Call(func=ast.Attribute(value=self._name(var), attr="get", ctx=ast.Load()),
                                                args=[ast.Constant(n)], keywords=[]))],
                orelse=[]))
        if body:
            stmts.append(ast.If(test=ast.Attribute(value=self._name(var), attr="active", ctx=ast.Load()),
                                body=body, orelse=[]))
        it = ast.Call(func=ast.Attribute(value=self._name(var), attr="iterate", ctx=ast.Load()),
                      args=[], keywords=[])
        return stmts, it

    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        modified = stores([node.target] + node.body)
        temps = temporaries(node, self.reads[0])
        self.generic_visit(node)
        stmts, it = self._prologue(node, "for", node.iter, modified, temps)
        node.iter = it
        return stmts + [node]

    def visit_While(self, node):
        if not self.fn or node.orelse:
            return self.generic_visit(node)
        modified = stores(node.body)
        temps = temporaries(node, self.reads[0])
        for w in ast.walk(node.test):
            if isinstance(w, ast.NamedExpr):
                modified.append(w.target.id)
        self.generic_visit(node)
        stmts, it = self._prologue(node, "while", None, modified, temps)
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test),
                      body=[ast.Break()], orelse=[])
        loop = ast.For(target=ast.Name(id="_vc_unused", ctx=ast.Store()), iter=it,
                       body=[test] + node.body, orelse=[])
        return stmts + [loop]


# --------------------------------------------------------------------------
# loop manager
# --------------------------------------------------------------------------

class NS:
    """read access to the locals at a loop head"""

    def __init__(self, d):
        self.__dict__["_d"] = dict(d)

    def __getattr__(self, k):
        try:
            return self._d[k]
        except KeyError:
            raise SpecMismatch("invariant mentions %r, which is not a local here" % k)

    def __contains__(self, k):
        return k in self._d

    def get(self, k, d=None):
        return self._d.get(k, d)


class LoopSpec:
    """invariant(v, k) over the locals v and the iteration count k; `needs` are
    the locals that identify the loop; `types` maps a local to a factory
    old -> fresh value; `mutates(v)` lists the objects the loop may change."""

    def __init__(self, name, invariant, needs=(), kind="any", types=None, mutates=None,
                 variant=None, setup=None, on_item=None, where=None, after=None, drop=(), unbound=None):
        self.unbound = unbound or {}
        self.name = name
        self.invariant = invariant
        self.needs = tuple(needs)
        self.kind = kind
        self.types = types or {}
        self.mutates = mutates
        self.variant = variant
        self.setup = setup
        self.on_item = on_item
        self.where = where
        self.after = after
        self.drop = drop


def kind_tag(v):
    if isinstance(v, (bool, np.bool_, SymBool)):
        return "bool"
    if isinstance(v, (int, np.integer, SymInt)):
        return "int"
    if isinstance(v, (float, np.floating, SymReal)):
        return "real"
    return type(v).__name__


class Loop:
    def __init__(self, kind, fname, ordinal, it, modified, lineno, frame_locals, temps=()):
        self.temps = temps
        self.kind = kind
        self.key = "%s#%d" % (fname, ordinal)
        self.it = it
        self.modified = modified
        self.active = False
        self.havoced = {}
        self.owned = {}
        if Run.current is None:
            return
        spec = None
        symbolic = kind == "for" and self._needs_cut(it)
        for cand in getattr(C().run, "loop_specs", []):
            if cand.kind not in ("any", kind):
                continue
            if cand.where is not None and not cand.where(fname, frame_locals, it):
                continue
            if all(n in frame_locals for n in cand.needs):
                spec = cand
                break
        if kind == "for" and not symbolic:
            return
        if spec is None:
            if kind == "for":
                raise Unsupported("loop %s (line %d) runs over a symbolic sequence and no "
                                  "invariant matches" % (self.key, lineno))
            return
        self.spec = spec
        self.active = True
        self.start_serial = C().next_serial()
        v0 = NS(frame_locals)
        self.v0 = v0
        if spec.setup:
            spec.setup(v0)
        self.segments = it.vc_segments() if kind == "for" and hasattr(it, "vc_segments") else None
        self.n = vlen(it) if kind == "for" and self.segments is None else None
        if self.segments is not None:
            # concrete items and stretches of unknown length: the declared objects change in place
            for name, f in spec.types.items():
                if name in v0:
                    self.havoced[name] = f(frame_locals[name])
            return
        # conversion of concrete containers, and typed havoc factories
        conv = {}
        for name, f in spec.types.items():
            if name in v0:
                conv[name] = f
        pre = dict(frame_locals)
        objs = {}
        for name, f in conv.items():
            o = f(pre[name])
            if isinstance(o, Sym) and hasattr(o, "vc_havoc"):
                pre[name] = o
                objs[name] = o
        self.check(spec.invariant(NS(pre), 0), "established")
        # havoc
        self.mutset = set()
        self.owned = {}
        self.start_serial = C().next_serial()
        for name, o in objs.items():
            o.vc_havoc()
            self.havoced[name] = o
            self._allow(o)
        if spec.mutates:
            for o in spec.mutates(NS(pre)):
                o.vc_havoc()
                self._allow(o)
        for name in modified:
            if name in self.havoced or name not in frame_locals or name in spec.drop:
                continue
            old = frame_locals[name]
            if name in conv:
                self.havoced[name] = conv[name](old)
                continue
            tag = kind_tag(old)
            if tag == "bool":
                self.havoced[name] = fresh_bool(name)
            elif tag == "int":
                self.havoced[name] = fresh_int(name)
            elif tag == "real":
                self.havoced[name] = fresh_real(name)
            elif name not in temps:
                raise SpecMismatch("loop %s changes %r of type %s: the spec gives no type"
                                   % (self.key, name, tag))
        # a declared name that the loop does not store but the spec retypes
        for name, f in conv.items():
            if name not in self.havoced and name in modified:
                self.havoced[name] = f(frame_locals[name])
        # variables unbound at the head of the loop but declared by the spec
        for name, f in spec.unbound.items():
            if name not in frame_locals:
                self.havoced[name] = f(None)
        self.snap = self._snapshot(frame_locals)

    def _needs_cut(self, it):
        if hasattr(it, "vc_segments"):
            return it.vc_stretches()
        if isinstance(it, Sym) or hasattr(type(it), "vc_len"):
            if hasattr(it, "vc_len"):
                return is_sym(it.vc_len())
        return False

    def _allow(self, o):
        self.mutset.add(id(o))
        for obj, names in getattr(o, "vc_owns", ()):
            self.owned[id(obj)] = set(names)
        st = getattr(o, "__dict__", {}).get("store")
        if st is not None:
            self.mutset.add(id(st))

    def may_write(self, o):
        st = getattr(o, "__dict__", {}).get("store")
        if id(o) in self.mutset or (st is not None and id(st) in self.mutset):
            return True
        s = getattr(o, "serial", None)
        return s is not None and s > self.start_serial

    def check(self, inv, what):
        if isinstance(inv, dict):
            for k, e in inv.items():
                prove(e, "loop %s: invariant %s %s" % (self.spec.name, k, what))
        else:
            prove(inv, "loop %s: invariant %s" % (self.spec.name, what))

    def assume(self, inv):
        for e in (inv.values() if isinstance(inv, dict) else [inv]):
            C().assume(e)

    def has(self, name):
        return name in self.havoced

    def get(self, name):
        return self.havoced[name]

    def _snapshot(self, loc):
        out = []
        seen = set()

        def add(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, (list, set, bytearray)):
                out.append((o, list(o) if not isinstance(o, bytearray) else bytes(o)))
            elif isinstance(o, dict):
                out.append((o, dict(o)))
            elif isinstance(o, np.ndarray) and o.size < 100000:
                out.append((o, o.copy()))
        for v in loc.values():
            add(v)
            d = getattr(v, "__dict__", None)
            if isinstance(d, dict) and not isinstance(v, (types.ModuleType, type, Sym)) and \
                    not callable(v):
                if id(v) in self.owned:           # attributes that the spec retypes; the others must stay
                    out.append((v, {k: w for k, w in d.items() if k not in self.owned[id(v)]}))
                else:
                    out.append((d, dict(d)))
                for k, w in d.items():
                    if k not in self.owned.get(id(v), ()):
                        add(w)
        return out

    def _unchanged(self):
        for o, c in self.snap:
            if isinstance(o, np.ndarray):
                ok = o.shape == c.shape and bool(np.array_equal(o, c))
            elif isinstance(o, dict):
                ok = list(o.keys()) == list(c.keys()) and all(o[k] is c[k] for k in c)
            elif isinstance(o, bytearray):
                ok = bytes(o) == c
            elif id(o) in self.owned:
                cur = {k: w for k, w in o.__dict__.items() if k not in self.owned[id(o)]}
                ok = list(cur) == list(c) and all(cur[k] is c[k] for k in c)
            else:
                cur = list(o)
                ok = len(cur) == len(c) and all(a is b for a, b in zip(cur, c))
            if not ok:
                raise Unsupported("loop %s changes a concrete %s; the spec must retype it"
                                  % (self.key, type(o).__name__))

    def iterate(self):
        if not self.active:
            if self.kind == "for":
                yield from iter(self.it)
            else:
                while True:
                    yield None
            return
        c = C()
        spec = self.spec
        fr = sys._getframe(1)
        if self.segments is not None:
            for seg in self.segments:
                if not hasattr(seg, "vc_rows"):
                    yield seg
                    continue
                self._stretch(fr, seg)
                if self.stretch_item is not None:
                    yield self.stretch_item
                    self._end(fr, self.stretch_k, {}, None)
            return
        v = NS(fr.f_locals)
        head = {n: kind_tag(o) for n, o in self.havoced.items() if not getattr(o, "vc_unset", False)}
        if self.kind == "for":
            k = fresh_int("k", 0)
            c.assume(k.e <= ie(self.n))
        else:
            k = fresh_int("k", 0)
        self.assume(spec.invariant(v, k))
        var0 = spec.variant(v, k) if spec.variant else None
        c.loops.append(self)
        try:
            if self.kind == "for":
                if c.fork(k.e < ie(self.n)):
                    item = vitem(self.it, k)
                    if spec.on_item:
                        spec.on_item(v, k, item)
                    yield item
                    self._end(fr, k, head, var0)
                else:
                    c.assume(k.e == ie(self.n))
                    if spec.after:
                        spec.after(v, k)
                    return
            else:
                if spec.on_item:
                    spec.on_item(v, k, None)
                yield None
                self._end(fr, k, head, var0)
        finally:
            if self in c.loops:
                c.loops.remove(self)

    def _stretch(self, fr, seg):
        c, spec = C(), self.spec
        v = NS(fr.f_locals)
        self.check(spec.invariant(v, 0), "established")
        self.mutset = set()
        self.start_serial = c.next_serial()
        for o in [self.havoced[n] for n in self.havoced] + list(spec.mutates(v) if spec.mutates else []):
            o.vc_havoc()
            self._allow(o)
        self.snap = self._snapshot({n: x for n, x in fr.f_locals.items() if not n.startswith("_vc")})
        # what one iteration may hand to the next; other locals are taken to be temporaries of the body
        self.kept = {n: x for n, x in fr.f_locals.items() if n in self.modified and n not in spec.drop and n not in self.havoced and n not in self.temps
                     and (x is None or isinstance(x, (bool, int, float, dict, SymInt, SymReal, SymBool)))}
        k = fresh_int("k", 0)
        c.assume(k.e <= ie(seg.n))
        self.assume(spec.invariant(v, k))
        self.stretch_item = None
        if c.fork(k.e < ie(seg.n)):
            self.stretch_item, self.stretch_k = seg.vc_rows(k), k
            if spec.on_item:
                spec.on_item(v, k, self.stretch_item)
        else:
            c.assume(k.e == ie(seg.n))

    def _end(self, fr, k, head, var0):
        if self.segments is not None:
            for n, x in self.kept.items():
                if fr.f_locals.get(n) is not x and not (isinstance(x, (bool, int, str)) and type(x) in (bool, int, str)
                                                        and fr.f_locals.get(n) == x):
                    raise Unsupported("loop %s changes %s in a stretch of unknown length" % (self.key, n))
        self._unchanged()
        loc = fr.f_locals
        for n, tag in head.items():
            if n in loc:
                t = kind_tag(loc[n])
                if t != tag and not (tag == "real" and t == "int"):
                    raise SpecMismatch("loop %s: %s was %s at the head and is %s at the end of "
                                       "the body" % (self.key, n, tag, t))
        v = NS(loc)
        self.check(self.spec.invariant(v, mk_int(k.e + 1)), "preserved")
        if var0 is not None:
            var1 = self.spec.variant(v, mk_int(k.e + 1))
            prove(z3.And(ie(var1) < ie(var0), ie(var0) >= 0),
                  "loop %s: variant decreases" % self.spec.name)
        raise PathEnd("loop body proved")


class CompSpec:
    """A list comprehension over a symbolic sequence: position-like state is
    described by invariant(v, k) as for a loop; value(v, k, val) states what is
    recorded for item k; result(v, n) builds the list that the code receives."""

    def __init__(self, name, invariant, result, needs=(), mutates=None, on_item=None, value=None,
                 where=None):
        self.name, self.invariant, self.result = name, invariant, result
        self.needs, self.mutates, self.on_item, self.value = tuple(needs), mutates, on_item, value
        self.where = where


_IMMUTABLE = (int, float, str, bytes, tuple, type(None), SymInt, SymReal, SymBool, SymStr, SymBytes,
              SymSeq, types.FunctionType, types.ModuleType, type, np.dtype)


class _CompFrame:
    def __init__(self, name, mutset, serial):
        self.key, self.mutset, self.start_serial = name, mutset, serial

    may_write = Loop.may_write


def vc_comp(it, elt, cond, fname, lineno):
    sym = Run.current is not None and isinstance(it, Sym) and hasattr(it, "vc_len") and is_sym(it.vc_len())
    if not sym:
        return [elt(x) for x in it if cond is None or cond(x)]
    c = C()
    fl = sys._getframe(1).f_locals
    loc = {k: x for k, x in fl.items() if not k.startswith("_vc")}
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic sequence (line %d)" % lineno)
    spec = None
    for cand in getattr(c.run, "comp_specs", []):
        if cand.where is not None and not cand.where(fname, loc, it):
            continue
        if all(n in loc for n in cand.needs):
            spec = cand
            break
    if spec is None:
        # pure element expression over immutable values: a lazy sequence is the same list
        for cell in elt.__closure__ or ():
            if not isinstance(cell.cell_contents, _IMMUTABLE):
                raise Unsupported("comprehension at line %d over a symbolic sequence uses a mutable %s "
                                  "and no specification matches" % (lineno, type(cell.cell_contents).__name__))
        fr = _CompFrame("comprehension at line %d" % lineno, set(), c.next_serial())

        def item(k):
            C().loops.append(fr)
            try:
                return elt(vitem(it, k))
            finally:
                C().loops.remove(fr)
        return SymSeq(vlen(it), item)
    v = NS(loc)

    def check(inv, what):
        for nm, e in (inv.items() if isinstance(inv, dict) else [("", inv)]):
            prove(e, "comprehension %s: invariant %s %s" % (spec.name, nm, what))
    check(spec.invariant(v, 0), "established")
    serial = c.next_serial()
    mutset = set()
    for o in (spec.mutates(v) if spec.mutates else []):
        o.vc_havoc()
        mutset.add(id(o))
        st = getattr(o, "__dict__", {}).get("store")
        if st is not None:
            mutset.add(id(st))
    k = fresh_int("k", 0)
    n = vlen(it)
    c.assume(k.e <= ie(n))
    inv = spec.invariant(v, k)
    for e in (inv.values() if isinstance(inv, dict) else [inv]):
        c.assume(e)
    if c.fork(k.e < ie(n)):
        fr = _CompFrame(spec.name, mutset, serial)
        c.loops.append(fr)
        if spec.on_item:
            spec.on_item(v, k, vitem(it, k))
        val = elt(vitem(it, k))
        if spec.value:
            spec.value(v, k, val)
        check(spec.invariant(v, mk_int(k.e + 1)), "preserved")
        raise PathEnd("comprehension body proved")
    c.assume(k.e == ie(n))
    return spec.result(v, n)


def vc_loop(kind, fname, ordinal, it, modified, lineno, temps=()):
    fl = sys._getframe(1).f_locals
    loc = {k: x for k, x in fl.items() if not k.startswith("_vc")}
    return Loop(kind, fname, ordinal, it, modified, lineno, loc, temps)


# --------------------------------------------------------------------------
# builtins of the code under contract
# --------------------------------------------------------------------------

class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SymInt))

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class vc_int(metaclass=_IntMeta):
    dtype = np.dtype(np.int64)
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if hasattr(type(x), "__vc_int__"):
            return x.__vc_int__()
        if isinstance(x, SymBool):
            return mk_int(ie(x))
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, SymArr) and x.ndim == 0:
            return vc_int(x.item())
        if isinstance(x, SymArr) and x.ndim == 1 and x.shape == (1,):
            return vc_int(x.at(0))
        if is_sym(x):
            raise Unsupported("int(%s)" % type(x).__name__)
        return builtins.int(x, *a)

    from_bytes = staticmethod(lambda b, byteorder="big", *, signed=False: _from_bytes(b, byteorder, signed))


def _from_bytes(b, byteorder, signed):
    if not is_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    n = b.vc_len()
    if is_sym(n):
        raise Unsupported("int.from_bytes of symbolic length")
    from .arr import decode_expr
    bs = [b.byte(i) for i in range(n)]
    if byteorder == "big":
        bs = bs[::-1]
    u = z3.Sum([x * 256 ** j for j, x in enumerate(bs)])
    if signed:
        u = z3.If(u >= 2 ** (8 * n - 1), u - 2 ** (8 * n), u)
    return mk_int(u)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SymReal))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class vc_float(metaclass=_FloatMeta):
    dtype = np.dtype(np.float64)
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if hasattr(type(x), "__vc_float__"):
            return x.__vc_float__()
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(z3.ToReal(ie(x)))
        if isinstance(x, SymArr) and x.ndim == 0:
            return vc_float(x.item())
        if is_sym(x):
            raise Unsupported("float(%s)" % type(x).__name__)
        return builtins.float(x)


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bytes, SymBytes))


class vc_bytes(metaclass=_BytesMeta):
    dtype = np.dtype('S')
    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], SymBytes):
            return a[0]
        if len(a) == 1 and isinstance(a[0], (builtins.list, builtins.tuple)) and S.deep_sym(a[0], 1):
            vals = [ie(x) for x in a[0]]
            for v in vals:
                if not C().fork(z3.And(v >= 0, v <= 255)):
                    raise ValueError("bytes must be in range(0, 256)")

            def at(i):
                r = z3.IntVal(0)
                for k, v in builtins.enumerate(vals):
                    r = z3.If(i == k, v, r)
                return z3.simplify(r)
            return SymBytes(at, builtins.len(vals))
        if any(is_sym(x) for x in a):
            raise Unsupported("bytes(symbolic)")
        return builtins.bytes(*a)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.str, SymStr))


class vc_str(metaclass=_StrMeta):
    dtype = np.dtype('U')
    join = builtins.str.join

    def __new__(cls, *a, **k):
        if a and (isinstance(a[0], SymStr) or hasattr(type(a[0]), "__vc_int__")):
            return a[0]
        if a and isinstance(a[0], (SymInt, SymReal)) and "str_of" in C().ghost:
            return C().ghost["str_of"](a[0])
        if a and isinstance(a[0], SymInt):
            return SymStr(z3.IntToStr(a[0].e)) if not C().feasible(a[0].e < 0) else "<sym>"
        if any(is_sym(x) for x in a):
            raise Unsupported("str(%s)" % type(a[0]).__name__)
        return builtins.str(*a, **k)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SymBool))


class vc_bool(metaclass=_BoolMeta):
    dtype = np.dtype(bool)
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymInt, SymReal)):
            return mk_bool(x.vc_bool())
        return builtins.bool(x)


_TYPE_BACK = {vc_int: builtins.int, vc_float: builtins.float, vc_bytes: builtins.bytes,
              vc_str: builtins.str, vc_bool: builtins.bool}


_FUN_BACK = {}      # filled below: model functions that stand for a builtin type


def vc_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for x in ts:
        if isinstance(x, tuple):
            flat += list(x)
        else:
            flat.append(x)
    for x in flat:
        x = _FUN_BACK.get(x, x) if isinstance(x, types.FunctionType) else x
        if x in (vc_int, builtins.int) and isinstance(o, (SymInt, SymBool)):
            return True
        if x in (vc_float, builtins.float) and isinstance(o, SymReal):
            return True
        if x is np.ndarray and isinstance(o, SymArr):
            return o.ndim > 0 or True
        if x in (builtins.list,) and isinstance(o, SymList):
            return True
        if getattr(x, "__name__", "") == "Array" and "dask" in getattr(x, "__module__", ""):
            if isinstance(o, Sym):
                return False
        try:
            if isinstance(o, x):
                return True
        except TypeError:
            raise
        b = _TYPE_BACK.get(x) if isinstance(x, type) and x in _TYPE_BACK else None
        if b is not None and isinstance(o, b):
            return True
    return False


def vc_len(x):
    return vlen(x)


def vc_range(*a):
    if any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*[x.__index__() for x in a])


def vc_enumerate(x, start=0):
    if isinstance(x, Sym) or is_sym(start):
        return SymEnumerate(x, start)
    return builtins.enumerate(x, start)


def vc_zip(*a, **k):
    if any(isinstance(x, Sym) and is_sym(vlen(x)) for x in a):
        return SymZip(a)
    return builtins.zip(*a, **k)


def vc_min(*a, **k):
    if len(a) == 1:
        if hasattr(a[0], "vc_min"):
            return a[0].vc_min()
        a = tuple(a[0])
    if S.deep_sym(a, 1):
        r = a[0]
        for x in a[1:]:
            r = S.vmin(r, x)
        return r
    return builtins.min(a, **k)


def vc_max(*a, **k):
    if len(a) == 1:
        if hasattr(a[0], "vc_max"):
            return a[0].vc_max()
        a = tuple(a[0])
    if S.deep_sym(a, 1):
        r = a[0]
        for x in a[1:]:
            r = S.vmax(r, x)
        return r
    return builtins.max(a, **k)


def vc_sum(x, start=0):
    if hasattr(x, "vc_sum"):
        return x.vc_sum()
    t = start
    for i in x:
        t = t + i
    return t


def vc_round(x, nd=None):
    if isinstance(x, SymInt) and nd is None:
        return x
    if isinstance(x, SymReal):
        return x.__round__(nd)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def vc_abs(x):
    return abs(x)


def vc_all(x):
    for i in x:
        if not i:
            return False
    return True


def vc_any(x):
    for i in x:
        if i:
            return True
    return False


def vc_list(*a):
    if a and isinstance(a[0], Sym) and hasattr(a[0], "vc_len") and is_sym(a[0].vc_len()):
        return a[0]
    return builtins.list(*a)


def vc_tuple(*a):
    if a and isinstance(a[0], Sym) and hasattr(a[0], "vc_len") and is_sym(a[0].vc_len()):
        return a[0]
    return builtins.tuple(*a)


def vc_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return (a // b, a % b)
    return builtins.divmod(a, b)


def vc_join(sep, parts):
    if isinstance(parts, Sym) and is_sym(parts.vc_len()):
        return SymOpaque("joined", parts)
    parts = builtins.list(parts)
    if not S.deep_sym(parts, 1) and not any(hasattr(type(p), "__vc_int__") for p in parts):
        return sep.join(parts)
    r = None
    if any(isinstance(p, SymOpaque) for p in parts):
        return SymOpaque("joined", None)
    for p in parts:
        if r is not None and builtins.len(sep):
            r = r + sep
        r = p if r is None else r + p
    return r


def _unknown(x):
    return isinstance(x, (SymInt, SymReal)) or hasattr(type(x), "__vc_int__")


def _formatted(x, conv, spec):
    """text of x in a format: exact for s, r (and d of integers), otherwise the text of some other number"""
    from .text import number, padded
    if not isinstance(x, (SymInt, SymReal)):
        if conv == "r":
            raise Unsupported("repr of unknown text")
        if conv not in ("s", ""):
            raise TypeError("%s format: a number is required, not str")
        return padded(x, spec)
    if spec == "" and (conv in ("s", "r", "") or conv in "di" and isinstance(x, SymInt)):
        return number(x)
    if conv in "di" and conv and spec == "":
        return number(vc_int(x))
    if conv in "di" and conv and spec in ("03", "04", "05", "06") and isinstance(x, SymInt):
        from .text import digits
        return digits(x, int(spec))
    if conv in ("s", "r", "d", "i") and spec.lstrip("-").isdigit():
        return padded(number(x), spec)
    r = fresh_real("rounded")
    m = re.fullmatch(r"\.(\d+)", spec)
    if m and conv in "eE" and conv:
        # the number of so many digits next to it
        e, half = re_(x), z3.RatVal(5, 10 ** (int(m.group(1)) + 1))
        C().assume(z3.And(r.e - e <= half * z3.If(e < 0, -e, e), e - r.e <= half * z3.If(e < 0, -e, e)))
    return number(r)


def vc_percent(fmt, args):
    vals = args if isinstance(args, builtins.tuple) else (args,)
    if Run.current is None or "str_of" not in C().ghost or not any(_unknown(v) for v in vals):
        return fmt % args
    out, pos, k = "", 0, 0
    for m in re.finditer(r"%(?:%|([-+ #0]*)(\d*)(\.\d+)?([a-zA-Z]))", fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        if m.group() == "%%":
            out = out + "%"
            continue
        if k >= len(vals):
            raise TypeError("not enough arguments for format string")
        if _unknown(vals[k]):
            out = out + _formatted(vals[k], m.group(4), (m.group(1) or "") + (m.group(2) or "") + (m.group(3) or ""))
        else:
            out = out + m.group() % (vals[k],)
        k += 1
    if k < len(vals):
        raise TypeError("not all arguments converted during string formatting")
    if "%" in fmt[pos:]:
        raise Unsupported("format %r" % fmt)
    return out + fmt[pos:]


def vc_fstring(*parts):
    if Run.current is None or "str_of" not in C().ghost or not any(isinstance(p, builtins.tuple) and _unknown(p[0])
                                                                   for p in parts):
        return "".join(p if isinstance(p, builtins.str) else builtins.format(
            {-1: lambda x: x, 115: builtins.str, 114: builtins.repr, 97: builtins.ascii}[p[1]](p[0]), p[2]) for p in parts)
    out = ""
    for p in parts:
        if isinstance(p, builtins.str):
            out = out + p
        elif _unknown(p[0]):
            m = re.fullmatch(r"([-+<>^ #0]*\d*(?:\.\d+)?)([a-zA-Z]?)", p[2])
            if not m:
                raise Unsupported("format %r" % p[2])
            spec = m.group(1)
            if spec[:1] in "<>^" and spec:
                raise Unsupported("format %r" % p[2])
            out = out + _formatted(p[0], {115: "s", 114: "r"}.get(p[1], m.group(2)), spec)
        else:
            out = out + vc_fstring(p)
    return out


def vc_format(fmt, *args):
    """fmt.format(*args)"""
    if Run.current is None or "str_of" not in C().ghost or not any(_unknown(v) or isinstance(v, builtins.str) and type(v) is not builtins.str
                                                                   for v in args):
        return fmt.format(*args)
    import string
    out, k = [], 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if name is None:
            continue
        if name == "":
            name, k = k, k + 1
        elif not name.isdigit():
            raise Unsupported("format %r" % fmt)
        out.append((args[int(name)], -1 if conv is None else ord(conv), spec))
    return vc_fstring(*out)


def vc_chr(x):
    if is_sym(x):
        return SymStr(z3.StrFromCode(ie(x)))
    return builtins.chr(x)


def vc_sorted(x, **k):
    if S.deep_sym(x, 2):
        raise Unsupported("sorted on symbolic values")
    return builtins.sorted(x, **k)


def vc_print(*a, **k):
    pass


class MathShim:
    def __getattr__(self, k):
        return getattr(math, k)

    def ceil(self, x):
        return x.__ceil__() if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.ceil(x))

    def floor(self, x):
        return x.__floor__() if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.floor(x))

    def prod(self, x):
        t = 1
        for i in x:
            t = t * i
        return t


BUILTINS = dict(builtins.__dict__)
BUILTINS.update({
    "int": vc_int, "float": vc_float, "len": vc_len, "range": vc_range,
    "isinstance": vc_isinstance, "enumerate": vc_enumerate, "zip": vc_zip,
    "min": vc_min, "max": vc_max, "sum": vc_sum, "round": vc_round, "all": vc_all,
    "any": vc_any, "list": vc_list, "tuple": vc_tuple, "divmod": vc_divmod,
    "chr": vc_chr, "sorted": vc_sorted, "print": vc_print, "bytes": vc_bytes,
    "bool": vc_bool, "str": vc_str,
    "__vc_join__": vc_join, "__vc_comp__": vc_comp, "__vc_loop__": vc_loop, "__vc_dict__": VDict,
    "__vc_percent__": vc_percent, "__vc_fstring__": vc_fstring, "__vc_format__": vc_format,
})

_FUN_BACK.update({v: getattr(builtins, k) for k, v in BUILTINS.items()
                  if isinstance(v, types.FunctionType) and isinstance(getattr(builtins, k, None), type)})


class NullLogger:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class NullWarnings:
    def __getattr__(self, k):
        if k == "catch_warnings":
            import contextlib
            return lambda *a, **kw: contextlib.nullcontext()
        return lambda *a, **kw: None


_PYX = {}


def source_of(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        text = f.read()
    if rel.endswith(".pyx"):
        if text not in _PYX:             # written out as Python, mechanically, on every run
            import subprocess
            r = subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyx.py"), os.path.join(REPO, rel)],
                               capture_output=True, text=True)
            if r.returncode:
                raise SpecMismatch("extraction of %s: %s" % (rel, r.stderr.strip().split("\n")[-1]))
            _PYX[text] = r.stdout
        return _PYX[text]
    return text


_CACHE = {}


def compiled(rel):
    """the instrumented code of a file, as it is now"""
    src = source_of(rel)
    key = (rel, hash(src))
    if key not in _CACHE:
        tree = alpha.convert(ast.parse(src, rel), rel)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        _CACHE[key] = compile(tree, os.path.join(REPO, rel), "exec")
    return _CACHE[key]


def warm(rels):
    """prepare in this process what every contract would prepare in its own:
    the code of the files, and the packages they import"""
    import importlib
    for rel in rels:
        try:
            compiled(rel)
            importlib.import_module(rel[:-3].replace("/", "."))
        except Exception:
            pass             # the contract that needs it says what is wrong


class _Linker:
    """state of one load: which modules are instrumented, and the callee
    contracts that replace functions in them ("pkg.mod:name" -> stub)"""

    def __init__(self, instrument, patch, np_over):
        self.instrument = set(instrument)
        self.patch = dict(patch)
        self.np_over = np_over
        self.mods = {}
        self.shims = {}

    def shim(self, name):
        if name not in self.shims:
            self.shims[name] = {"numpy": lambda: NpShim(**self.np_over), "struct": StructShim,
                                "math": MathShim, "warnings": NullWarnings}[name]()
        return self.shims[name]

    def __call__(self, name, attr=None, importer=None):
        import importlib
        if name.startswith("."):
            import importlib.util
            name = importlib.util.resolve_name(name, importer)
        if name in ("numpy", "struct", "math", "warnings"):
            m = self.shim(name)
            return m if attr is None else getattr(m, attr)
        if attr is not None and name + ":" + attr in self.patch:
            return self.patch[name + ":" + attr]
        if attr is not None and name + "." + attr in self.instrument:
            return self.module(name + "." + attr)
        if name in self.instrument:
            m = self.module(name)
        else:
            real = importlib.import_module(name)
            m = real
            pat = {k.split(":")[1]: v for k, v in self.patch.items() if k.split(":")[0] == name}
            if pat and attr is None:
                m = types.ModuleType(name)
                m.__dict__.update(real.__dict__)
                m.__dict__.update(pat)
        if attr is None:
            return m
        try:
            return getattr(m, attr)
        except AttributeError:
            return importlib.import_module(name + "." + attr)

    def module(self, dotted):
        if dotted not in self.mods:
            rel = dotted.replace(".", "/") + ".py"
            if not os.path.exists(os.path.join(REPO, rel)):
                rel = dotted.replace(".", "/") + "/__init__.py"
            self.mods[dotted] = None
            self.mods[dotted] = self.load(rel, {})
        return self.mods[dotted]

    def load(self, rel, overrides):
        code = compiled(rel)
        modname = os.path.splitext(rel)[0].replace("/", ".")
        if modname.endswith(".__init__"):
            modname = modname[:-9]
        m = types.ModuleType(modname)
        m.__file__ = os.path.join(REPO, rel)
        m.__package__ = modname.rsplit(".", 1)[0] if not rel.endswith("__init__.py") else modname
        bi = dict(BUILTINS)
        bi["__vc_import__"] = self
        if rel.endswith(".pyx"):
            from . import cmodel
            bi.update(cmodel.BUILTINS)
        m.__dict__["__builtins__"] = bi
        cur = Run.current
        Run.current = None       # module level code runs concretely
        try:
            exec(code, m.__dict__)
        finally:
            Run.current = cur
        if "_logger" in m.__dict__:
            m.__dict__["_logger"] = NullLogger()
        for k, v in self.patch.items():
            mod, attr = k.split(":")
            if mod == modname:
                m.__dict__[attr] = v
        for k, v in overrides.items():
            m.__dict__[k] = v
        return m


def load_module(rel, overrides=None, np_over=None, instrument=(), patch=None, builtin_over=None):
    """exec the transformed source of REPO/rel in a fresh namespace"""
    m = _Linker(instrument, patch or {}, np_over or {}).load(rel, overrides or {})
    if builtin_over:
        m.__dict__["__builtins__"].update(builtin_over)
    return m
