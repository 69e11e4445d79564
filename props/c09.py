"""C09: names for new files never name something that exists, and nothing is overwritten without consent."""
import logging
import os
import shutil

from .common import *

ID = "C09"
U = "rsciio/utils/path.py"


class FakePath:
    """a path of which only parent, stem and suffix are known; what exists is arbitrary, but stays"""
    world = None

    def __new__(cls, *parts):
        if len(parts) == 1 and isinstance(parts[0], FakePath):
            return parts[0]
        o = object.__new__(cls)
        if len(parts) == 1:
            o.key = parts[0]
        else:
            expect(len(parts) == 2 and isinstance(parts[0], Parent) and isinstance(parts[1], Joined),
                   "a name in the directory of the file")
            o.key = (parts[0].of,) + parts[1].t
        return o

    parent = property(lambda self: Parent(self.key))
    stem = property(lambda self: Joined((("stem", self.key),)))
    suffix = property(lambda self: Joined((("suffix", self.key),)))

    def kind(self):
        w = FakePath.world
        if self.key not in w:
            if C().fork(fresh_bool("exists").e):
                w[self.key] = "file" if C().fork(fresh_bool("is_file").e) else "dir"
            else:
                w[self.key] = "nothing"
        return w[self.key]

    def is_file(self):
        return self.kind() == "file"

    def is_dir(self):
        return self.kind() == "dir"

    def exists(self):
        return self.kind() != "nothing"


class Parent:
    def __init__(self, of):
        self.of = of


class Joined:
    """text put together from parts of the name"""

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Joined(self.t + (o.t if isinstance(o, Joined) else (o,)))

    def __radd__(self, o):
        return Joined((o,) + self.t)


def number(start):
    def run():
        FakePath.world = {}
        m = load_module(U, {"Path": FakePath})
        real = m.incremental_filename
        called = []
        goal = FakePath("contract: a free name")

        def rec(filename, i=1):
            called.append((filename, i))
            return goal
        m.incremental_filename = rec
        p = FakePath("F")
        r = real(p) if start is None else real(p, start)
        n = 1 if start is None else start
        if called:
            (f, i), = called
            expect(r is goal and f is p and i == n + 1, "the next number is tried")
            expect(p.exists() and FakePath.world.get(("F", ("stem", "F"), "-%d" % n, ("suffix", "F"))) != "nothing",
                   "a number is passed over only if its name is taken")
            return
        expect(not r.exists(), "the name is free")
        if p.exists():
            expect(r.key == ("F", ("stem", "F"), "-%d" % n, ("suffix", "F")), "numbered name in the same directory")
        else:
            expect(r is p, "a free name is taken as it is")
    return run


def appended():
    FakePath.world = {}
    m = load_module(U, {"Path": FakePath})
    r = m.append2pathname(FakePath("F"), "_x")
    expect(r.key == ("F", ("stem", "F"), "_x", ("suffix", "F")), "the text comes between stem and suffix")


def asks(ext, answers):
    def run():
        FakePath.world = {}
        m = load_module(U, {"Path": FakePath})
        name = "F" + ext
        todo = list(answers)
        n = [0]

        def ask(message):
            n[0] += 1
            if not todo:
                raise EOFError
            return todo.pop(0)
        m.input = ask
        m.print = lambda *a, **k: None
        r = m.overwrite(name)
        kind = FakePath(name).kind()
        there = kind == "file" or kind == "dir" and ext == ".zspy"
        if not there and kind == "nothing":
            expect(r is True and n[0] == 0, "nothing to overwrite")
        if there:
            expect(n[0] >= 1, "the user is asked")
            last = answers[n[0] - 1].lower() if n[0] <= len(answers) else None
            expect(last in ("y", "n", None) and r is (last == "y"), "only consent allows to overwrite")
    return run


CONTRACTS = [Contract("number %s" % n, number(n), [U + ":incremental_filename", U + ":append2pathname"])
             for n in (None, 1, 2, 7, 10)]
CONTRACTS.append(Contract("append", appended, [U + ":append2pathname"]))
for _e in (".hspy", ".zspy", ""):
    for _a in ((), ("y",), ("n",), ("Y",), ("N",), ("yes", "n"), ("q", "Y", "y"), ("", "N"), ("", "no", "y"), ("n", "y"), ("x",)):
        CONTRACTS.append(Contract("overwrite F%s, answers %r" % (_e, _a), asks(_e, _a), [U + ":overwrite"]))

ASSUMPTIONS = ["the names tried by incremental_filename: induction over the number, the recursion is replaced by its contract",
               "answers of the user enumerated; directories of other formats than zspy are not files to overwrite"]


def search(s):
    logging.disable(logging.CRITICAL)
    from pathlib import Path
    from unittest import mock
    import builtins
    import rsciio.utils.path as m
    rng = s.rng
    base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "c09_%d" % os.getpid())
    try:
        for it in range(s.n(600, 6000)):
            if not s.left():
                break
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            stem = rng.choice(["a", "a.b", "a-1", "µ x", ".hidden", "a-1-1", "2020.01"])
            ext = rng.choice([".hspy", ".zspy", "", ".tar.gz"])
            name = os.path.join(base, stem + ext)
            there = []

            def make(p):
                if os.path.exists(p):
                    return
                if rng.random() < 0.4:
                    os.makedirs(p)
                else:
                    open(p, "w").close()
                there.append(os.path.basename(p))
            if rng.random() < 0.8:
                make(name)
            p0 = Path(name)
            top = rng.choice([0, 1, 3, 12])
            for i in range(1, top + 1):
                if rng.random() < 0.85:
                    make(os.path.join(base, p0.stem + "-%d" % i + p0.suffix))
            case = dict(name=os.path.basename(name), existing=sorted(there))
            s.note(case)
            arg = name if rng.random() < 0.5 else Path(name)
            r = m.incremental_filename(arg)
            case["got"] = str(r)
            s.check(not os.path.exists(r), "the new name is free", case)
            s.check(Path(r).parent == Path(base), "in the same directory", case)
            s.check(Path(r).suffix == p0.suffix, "with the same extension", case)
            if not os.path.exists(name):
                s.check(Path(r) == p0, "a free name is kept", case)
            else:
                k = 1
                while os.path.exists(os.path.join(base, p0.stem + "-%d" % k + p0.suffix)):
                    k += 1
                s.check(Path(r).name == p0.stem + "-%d" % k + p0.suffix, "the first free number", case)
            s.check(sorted(os.listdir(base)) == sorted(there), "nothing is created or removed", case)
            # asking
            answers = [rng.choice(["y", "n", "Y", "N", "yes", "", "no", "q"]) for _ in range(rng.randint(0, 4))]
            todo = list(answers)

            asked = []

            def ask(message=""):
                asked.append(todo[0].lower() if todo else None)
                if not todo:
                    raise EOFError
                return todo.pop(0)
            with mock.patch.object(builtins, "input", ask), mock.patch.object(builtins, "print", lambda *a, **k: None):
                got = m.overwrite(arg)
            case = dict(name=os.path.basename(name), exists="file" if os.path.isfile(name) else
                        "directory" if os.path.isdir(name) else "no", answers=answers, got=got)
            if os.path.isfile(name) or os.path.isdir(name) and ext == ".zspy":
                s.check(asked, "the user is asked", case)
                last = asked[-1]
                s.check(last in ("y", "n", None) and got is (last == "y"), "only consent allows to overwrite", case)
            elif not os.path.exists(name):
                s.check(got is True and not asked, "nothing to overwrite", case)
            d = os.path.join(base, "n%d" % it, "m")
            m.ensure_directory(d)
            s.check(os.path.isdir(d), "the directory exists", dict(path=d))
            m.ensure_directory(d)
            if os.path.isfile(name):
                before = sorted(os.listdir(base))
                m.ensure_directory(name)
                s.check(sorted(os.listdir(base)) == before and os.path.isfile(name), "an existing file is left alone", case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
