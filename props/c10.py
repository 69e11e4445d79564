"""C10: reading a file runs no code that the file contains."""
import ast
import io
import json
import logging
import os
import pickle
import shutil
import types
import zipfile

from pyvc.text import Text, unknown

from .common import *

ID = "C10"
U = "rsciio/pantarhei/_restricted_unpickling.py"
P = "rsciio/pantarhei/_api.py"
N = "rsciio/netcdf/_api.py"

# what may be constructed: arrays, numpy data types and scalars, and bytes from text
SAFE = {(m, n) for m in ("numpy._core.multiarray", "numpy.core.multiarray") for n in ("_reconstruct", "scalar")} | {
    ("numpy", "ndarray"), ("numpy", "dtype"), ("_codecs", "encode")}


class Base:
    """pickle.Unpickler: find_class gives the object of that name, whatever it is"""
    found = None

    def __init__(self, f, **k):
        self.f = f

    def find_class(self, module, name):
        Base.found.append((module, name))
        return ("object", module, name)

    def load(self):
        Base.found.append(("load", type(self), self.f))
        return ("loaded", type(self), self.f)


def is_safe(m, n):
    return z3.Or(*[z3.And(m == z3.StringVal(a), n == z3.StringVal(b)) for a, b in sorted(SAFE)])


def find_class():
    Base.found = []
    m = load_module(U, patch={"pickle:Unpickler": Base})
    mod, name = fresh_str("module"), fresh_str("name")
    try:
        r = m.RestrictedUnpickler(io.BytesIO()).find_class(mod, name)
    except m.InvalidPickleError:
        expect(not Base.found, "nothing is looked up when the name is refused")
        prove(z3.Not(is_safe(mod.e, name.e)), "names of arrays and numpy data types are not refused")
        return
    prove(is_safe(mod.e, name.e), "only names of arrays and numpy data types are looked up")
    expect(len(Base.found) == 1 and Base.found[0][0] is mod and Base.found[0][1] is name and r[1] is mod and r[2] is name,
           "the object of that name is returned")


def other_hooks():
    import pickle as real
    m = load_module(U)
    cls = m.RestrictedUnpickler
    expect(issubclass(cls, real.Unpickler) and "find_class" in vars(cls), "the restriction is in force")
    expect(not {"persistent_load", "dispatch", "load", "load_build", "load_reduce"} & set(vars(cls)),
           "the rest of the unpickler is that of the library")


def unpickled(obj):
    def run():
        Base.found = []
        got = []

        def inspect(fp):
            got.append(fp)
            return 128, (1,), "|O" if obj else "<f8"
        m = load_module(U, {"inspect_npy_bytes": inspect}, patch={"pickle:Unpickler": Base, "pickle:load": refuse,
                                                                  "pickle:loads": refuse})
        fp = io.BytesIO(b"")
        try:
            r = m.read_pickled_array(fp)
        except ValueError:
            expect(not obj and not Base.found, "refused before anything is unpickled")
            return
        expect(obj and r == ("loaded", m.RestrictedUnpickler, fp) and got == [fp], "the restricted unpickler reads on after the header")
    return run


def refuse(*a, **k):
    expect(False, "no pickle is loaded without restriction")
    raise PathEnd()


class Npz:
    def __init__(self, names):
        self.names = names
        self.zip = self

    def __contains__(self, k):
        return k in self.names

    def __getitem__(self, k):
        if k == "meta_data_json":
            return np.array('[{"a": 1}]')
        return "array of " + k

    def open(self, name, *a):
        return ("member", name)

    def getinfo(self, name):
        return types.SimpleNamespace(compress_type=8)

    def close(self):
        pass


def pantarhei(has_json, allow):
    def run():
        loads, reads, conv = [], [], []

        def load(f, *a, **k):
            loads.append((f, a, k))
            return Npz({"data", "meta_data"} | ({"meta_data_json"} if has_json else set()))

        def rpa(fp):
            reads.append(fp)
            return [{"b": 2}]

        def import_pr(data, meta, filename=None):
            conv.append((data, meta))
            return "signals"
        m = load_module(P, {"read_pickled_array": rpa, "import_pr": import_pr}, np_over={"load": load})
        kw = {} if allow is None else {"allow_restricted_pickle": allow}
        r = m.file_reader("f.prz", **kw)
        expect(r == "signals", "the signals are returned")
        expect(all(not a[1:] and k.get("allow_pickle", False) is False for _, a, k in loads) and loads, "numpy loads no pickles")
        if has_json:
            expect(not reads and conv[0][1] == {"a": 1}, "the JSON text is preferred")
        elif allow:
            expect(reads == [("member", "meta_data.npy")] and conv[0][1] == {"b": 2}, "the restricted unpickler, on request")
        else:
            expect(not reads and conv[0][1] == {}, "no pickle is read without request")
    return run


class Cube:
    def __init__(self, data, names):
        self._data, self._names = data, names

    def __getitem__(self, k):
        return self._data

    def __getattr__(self, k):
        if k.startswith("_") or not self._names(k):
            raise AttributeError(k)
        return Opaque("dc." + k)


class Opaque(str):
    """text of the file"""


def netcdf(nd, kind, present):
    def run():
        data = SymArr.fresh("data", tuple(fresh_int("n%d" % i, 1) for i in range(nd)), np.dtype("f8"))
        dc = Cube(data, present)
        file = types.SimpleNamespace(variables={"data_cube": dc}, history=Opaque("history"), type=kind, close=lambda: None,
                                     file_format_version="EELSLab 0.1")

        def evaluate(t, *a):
            expect(type(t) is str, "text of the file is never evaluated")
            if t.startswith("dc.") and t[3:].isidentifier():
                return getattr(dc, t[3:])
            raise Unsupported("eval(%r)" % t)
        m = load_module(N, {"netcdf_file_reader": lambda *a, **k: file, "netcdf_reader": "x"}, builtin_over={
            "eval": evaluate, "exec": refuse, "compile": refuse})
        r = m.file_reader("f.nc")[0]
        expect(isinstance(r, dict) and len(r["axes"]) == nd, "the signal is returned")
    return run


# ---- where code could be run at all
SINK_NAMES = {"eval", "exec", "compile", "__import__"}
SINK_ATTRS = {("pickle", "load"), ("pickle", "loads"), ("pickle", "Unpickler"), ("cPickle", "load"), ("dill", "load"), ("dill", "loads"),
              ("marshal", "load"), ("marshal", "loads"), ("joblib", "load"), ("shelve", "open"), ("os", "system"), ("os", "popen"),
              ("yaml", "unsafe_load"), ("yaml", "full_load"), ("subprocess", "*"), ("cloudpickle", "*"), ("jsonpickle", "*"),
              ("builtins", "eval"), ("builtins", "exec")}
UNDER_CONTRACT = {U: {"RestrictedUnpickler"}, N: {"nc_hyperspy_reader_0dot1", "file_reader"}}


def _sink(n):
    if isinstance(n, ast.Name) and n.id in SINK_NAMES and isinstance(n.ctx, ast.Load):
        return n.id
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
        if (n.value.id, n.attr) in SINK_ATTRS or (n.value.id, "*") in SINK_ATTRS:
            return n.value.id + "." + n.attr
    if isinstance(n, ast.Call):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name == "load" and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "yaml":
            names = {x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "" for k in n.keywords
                     for x in ast.walk(k.value)} | {x.attr for a in n.args for x in ast.walk(a) if isinstance(x, ast.Attribute)}
            if not names & {"SafeLoader", "CSafeLoader", "loader", "BaseLoader"}:
                return "yaml.load"
        for k in n.keywords:
            if k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and k.value.value is False):
                return name + "(allow_pickle)"
            if k.arg == "object_codec" and name in ("open", "open_array", "open_group"):
                return name + "(object_codec)"
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        mod = getattr(n, "module", None)
        for a in n.names:
            if mod in ("pickle", "dill", "marshal", "joblib", "shelve", "cloudpickle", "jsonpickle") and a.name in (
                    "load", "loads", "Unpickler", "open"):
                return "from %s import %s" % (mod, a.name)
    return None


def sinks_of(tree):
    """{top-level function or class or '': [sinks]}, and who refers to whom"""
    out, refs = {}, {}
    for node in tree.body:
        name = node.name if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else ""
        if isinstance(node, (ast.Assign, ast.AugAssign)) and "__doc__" in ast.dump(node):
            continue
        for n in ast.walk(node):
            k = _sink(n)
            if k:
                out.setdefault(name, []).append(k)
            if isinstance(n, ast.Name):
                refs.setdefault(name, set()).add(n.id)
            elif isinstance(n, ast.Attribute):
                refs.setdefault(name, set()).add(n.attr)
    return out, refs


def module_free(rel):
    def run():
        tree = ast.parse(source_of(rel))
        sinks, refs = sinks_of(tree)
        top = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))}
        if "file_reader" in top:
            # only what the reader can reach
            reach, todo = set(), {"file_reader", ""}
            while todo:
                x = todo.pop()
                reach.add(x)
                todo |= (refs.get(x, set()) & top) - reach
        else:
            reach = top | {""}
        bad = {f: k for f, k in sinks.items() if f in reach and f not in UNDER_CONTRACT.get(rel, ())}
        expect(not bad, "no function of the reader can run code: %s" % bad if bad else "no function of the reader can run code")
    return run


def modules():
    out = []
    for d, subs, files in os.walk(os.path.join(REPO, "rsciio")):
        subs[:] = [x for x in subs if x not in ("tests", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


CONTRACTS = [Contract("names looked up by the unpickler", find_class, [U + ":RestrictedUnpickler.find_class"]),
             Contract("the unpickler", other_hooks, [U + ":RestrictedUnpickler"]),
             Contract("pickled array", unpickled(True), [U + ":read_pickled_array"]),
             Contract("array that is not pickled", unpickled(False), [U + ":read_pickled_array"])]
for _j in (False, True):
    for _a in (None, False, True):
        CONTRACTS.append(Contract("prz file %s JSON, pickles %s" % ("with" if _j else "without", _a), pantarhei(_j, _a), [P + ":file_reader"]))
for _nd in (1, 2, 3):
    for _k in ("image", "spectrum"):
        for _n, _p in (("all", lambda k: True), ("no", lambda k: False), ("some", lambda k: k < "e")):
            CONTRACTS.append(Contract("netCDF %s, %d dimensions, %s attributes" % (_k, _nd, _n), netcdf(_nd, _k, _p),
                                      [N + ":nc_hyperspy_reader_0dot1", N + ":file_reader"]))
for _m in modules():
    CONTRACTS.append(Contract("module " + _m, module_free(_m), [_m]))

ASSUMPTIONS = [
    "which functions use a primitive that can run code (eval, exec, pickle, numpy.load with pickles, unsafe YAML, subprocesses) "
    "is decided on the syntax of every module, not proved; names bound to such a primitive in a roundabout way are missed",
    "numpy.load with allow_pickle=False, json, ast.literal_eval, the YAML safe loaders, h5py and zarr run no code of the file; "
    "constructing arrays, numpy data types and scalars runs no code",
]

PAYLOAD = []


class Evil:
    def __init__(self, path):
        self.path = path

    def __reduce__(self):
        return (open, (self.path, "w"))


class Evil2(Evil):
    def __reduce__(self):
        return (eval, ("open(%r, 'w')" % self.path,))


class Evil3(Evil):
    def __reduce__(self):
        return (os.mkdir, (self.path,))


class Evil4(Evil):
    def __reduce__(self):
        import importlib
        return (importlib.import_module, ("this_module_marks_%d" % os.getpid(),))


def search(s):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import rsciio.numpy as npy
    import rsciio.pantarhei as pr
    from rsciio.pantarhei._restricted_unpickling import InvalidPickleError, read_pickled_array
    rng = s.rng
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c10_%d" % os.getpid())
    os.makedirs(base, exist_ok=True)
    mark = os.path.join(base, "mark")

    def header(desc, version):
        h = ("{'descr': %r, 'fortran_order': False, 'shape': (1,), }" % desc).encode("latin1")
        n = 10 if version == 1 else 12
        h += b" " * ((64 - (n + len(h) + 1) % 64) % 64) + b"\n"
        return b"\x93NUMPY" + bytes([version, 0]) + len(h).to_bytes(2 if version == 1 else 4, "little") + h

    def value(d=0):
        k = rng.randrange(9 if d < 3 else 6)
        if k == 0:
            return rng.randrange(-10 ** 12, 10 ** 12)
        if k == 1:
            return rng.uniform(-1, 1)
        if k == 2:
            return rng.choice(["", "text", "µ", "a.b", "os", "system"])
        if k == 3:
            return rng.choice([None, True, False])
        if k == 4:
            return rng.choice([np.float64(2.5), np.int32(7), np.bool_(True)])
        if k == 5:
            return np.arange(rng.randrange(5)).astype(rng.choice(["f4", "i8", "u1", "c16"]))
        if k == 6:
            return [value(d + 1) for _ in range(rng.randrange(3))]
        if k == 7:
            return tuple(value(d + 1) for _ in range(rng.randrange(3)))
        return {rng.choice("abcdef"): value(d + 1) for _ in range(rng.randrange(4))}

    def same(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return a == b

    def clean(case):
        bad = os.path.exists(mark)
        if os.path.isdir(mark):
            os.rmdir(mark)
        elif bad:
            os.unlink(mark)
        s.check(not bad, "the file runs no code", case)
    REFUSED = ["builtins.eval", "builtins.exec", "builtins.open", "builtins.getattr", "os.system", "posix.system", "subprocess.Popen",
               "numpy.load", "numpy.loads", "numpy.fromfile", "numpy.testing._private.utils.runstring", "numpy.f2py.os.system",
               "numpy.memmap", "numpy.save", "numpy.frombuffer", "numpy._core.multiarray.fromfile", "numpy.core.multiarray.array",
               "_codecs.lookup", "_codecs.decode", "codecs.encode", "numpy.ndarray.tofile", "numpy.dtype.str", "importlib.import_module",
               "numpy._core.multiarray.scalar.x", "numpy.core.multiarray", "pickle.loads", "functools.partial", "operator.attrgetter",
               "numpy.dtype.newbyteorder", "numpy.ndarray.dump", "numpy.ndarray.__reduce__"]
    BROKEN = {"numpy.core.multiarray missing": b"cnumpy.core.multiarray\nscalar\n0",
              "numpy._core.multiarray missing": b"cnumpy._core.multiarray\n_reconstruct\n0",
              "unknown codec": b"c_codecs\nencode\n(Vx\nVnocodec\ntR0", "wrong call": b"cnumpy\ndtype\n(tR0",
              "wrong dtype": b"cnumpy\ndtype\n(Vnothing\ntR0", "stack": b"0", "opcode": b"\x00", "memo": b"g7\n0",
              "number": b"Ix\n0", "text": b"cnumpy\ndtype\n(\x8c\x01\xfftR0", "persistent": b"Pos\n0"}
    try:
        for it in range(s.n(800, 8000)):
            if not s.left():
                break
            kind = rng.choice(["honest", "evil", "name", "broken"])
            proto = rng.choice([0, 1, 2, 3, 4])
            version = rng.choice([1, 2, 3])
            arr = np.empty(1, dtype=object)
            if kind == "honest":
                meta = {rng.choice("abcdefgh"): value() for _ in range(rng.randrange(5))}
                arr[0] = meta
                proto = rng.choice([3, 4])       # what numpy.save uses
                body = pickle.dumps(arr, protocol=proto)
            elif kind == "evil":
                cls = rng.choice([Evil, Evil2, Evil3, Evil4])
                arr[0] = {"a": cls(mark)} if rng.random() < 0.5 else cls(mark)
                body = pickle.dumps(arr if rng.random() < 0.5 else [arr[0]], protocol=proto)
                meta = cls.__name__
            elif kind == "broken":
                # loading fails before the evil part is reached
                meta = rng.choice(sorted(BROKEN))
                body = BROKEN[meta] + pickle.dumps(Evil(mark), protocol=0)
            else:
                meta = rng.choice(REFUSED)
                cut = rng.choice([i for i, c in enumerate(meta) if c == "."])
                m_, n_ = meta[:cut], meta[cut + 1:]
                if rng.random() < 0.5:
                    body = b"c" + m_.encode() + b"\n" + n_.encode() + b"\n."
                else:
                    body = b"\x80\x04\x8c" + bytes([len(m_)]) + m_.encode() + b"\x8c" + bytes([len(n_)]) + n_.encode() + b"\x93."
            case = dict(kind=kind, protocol=proto, npy_version=version, metadata=repr(meta)[:300])
            s.note(case)
            blob = header("|O", version) + body
            gone = [n for n in ("numpy.core.multiarray", "numpy._core.multiarray") if kind == "broken" and n in str(meta)]
            saved = {n: sys.modules[n] for n in gone if n in sys.modules}
            sys.modules.update(dict.fromkeys(gone))         # an installation that lacks the module
            try:
                r = read_pickled_array(io.BytesIO(blob))
                got = None
            except Failure:
                raise
            except Exception as exc:
                got = exc
            finally:
                for n in gone:
                    sys.modules.pop(n, None)
                sys.modules.update(saved)
            if kind == "honest":
                s.check(got is None and same(r[0], meta), "honest metadata is loaded", dict(case, got=repr(got or r[0])[:300]))
            elif kind == "broken":
                s.check(got is not None, "a damaged pickle is refused", case)
            else:
                s.check(isinstance(got, InvalidPickleError), "a name that is not on the list is refused", dict(case, got=repr(got)))
            clean(case)
            if it % 4:
                continue
            # whole files
            prz = os.path.join(base, "f.prz")
            has_json = rng.random() < 0.4
            buf = io.BytesIO()
            np.save(buf, np.arange(6.0).reshape(2, 3))
            with zipfile.ZipFile(prz, "w") as z:
                if rng.random() < 0.9:
                    z.writestr("data.npy", buf.getvalue())
                    evil_data = False
                else:
                    z.writestr("data.npy", blob)
                    evil_data = True
                z.writestr("meta_data.npy", blob)
                if has_json:
                    jb = io.BytesIO()
                    if rng.random() < 0.7:
                        np.save(jb, np.array(json.dumps([{"type": "1D"}])))
                        z.writestr("meta_data_json.npy", jb.getvalue())
                    else:
                        z.writestr("meta_data_json.npy", blob)
            allow = rng.choice([None, False, True])
            case2 = dict(case, json=has_json, allow_restricted_pickle=allow, data_pickled=evil_data)
            try:
                out = pr.file_reader(prz, **({} if allow is None else dict(allow_restricted_pickle=allow)))
            except Failure:
                raise
            except Exception as exc:
                out = exc
            if not has_json and not evil_data and not allow:
                s.check(isinstance(out, list), "without pickles the data is read", dict(case2, got=repr(out)))
            clean(case2)
            npf = os.path.join(base, "f.npy")
            with open(npf, "wb") as f:
                f.write(blob)
            for lazy in (False, True):
                try:
                    out = npy.file_reader(npf, lazy=lazy)
                    np.asarray(out[0]["data"])
                except Failure:
                    raise
                except Exception as exc:
                    out = exc
                if not lazy:
                    s.check(isinstance(out, Exception), "pickled arrays are refused", dict(case, reader="numpy"))
                clean(dict(case, reader="numpy", lazy=lazy))
        # text that would be code
        from rsciio.utils.xml import XmlToDict
        import xml.etree.ElementTree as ET
        codes = ["open(%r, 'w')" % mark, "__import__('os').mkdir(%r)" % mark, "[open(%r,'w')]" % mark, "(lambda: 0)()",
                 "{'a': open(%r, 'w')}" % mark, "1 if open(%r, 'w') else 0" % mark, "f'{open(%r, \"w\")}'" % mark]
        for code in codes:
            for tag in ("a", "FileVersion"):
                e = ET.Element(tag)
                e.text = code
                c = ET.SubElement(e, "b", {"k": code})
                c.text = code
                case = dict(text=code)
                s.note(case)
                for kw in ({}, dict(dub_attr_pre_str="@", dub_text_str="#", tags_to_flatten=[])):
                    try:
                        XmlToDict(**kw).dictionarize(e)
                    except Failure:
                        raise
                    except Exception:
                        pass
                    clean(case)
            # a netCDF file
            case = dict(netcdf_history=code)
            s.note(case)
            import rsciio.netcdf._api as nc
            cube = types.SimpleNamespace(**{v: code for v in nc.attrib2netcdf.values()})

            class V:
                def __getitem__(self, k):
                    return np.zeros((2, 3))
            v = V()
            for q in nc.attrib2netcdf.values():
                setattr(v, q, code)
            f = types.SimpleNamespace(variables={"data_cube": v}, history=code, type="image", close=lambda: None,
                                      file_format_version="EELSLab 0.1")
            old = getattr(nc, "netcdf_file_reader", None), nc.netcdf_reader
            try:
                nc.netcdf_file_reader, nc.netcdf_reader = (lambda *a, **k: f), "x"
                try:
                    nc.file_reader("f.nc")
                except Failure:
                    raise
                except Exception:
                    pass
            finally:
                nc.netcdf_file_reader, nc.netcdf_reader = old
            clean(case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
