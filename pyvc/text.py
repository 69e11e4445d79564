"""Text put together from concrete pieces and unknown atoms, and text files made of it.

An atom stands for unknown text: a name, or a number written with str().  What the code does with the text is
decided from the concrete pieces and from what is known of the atom: the strings it does not contain (`free`),
the texts it is not (`other`), whether it may be empty.  Whatever these do not decide is Unsupported.
Assumed of every atom: no line breaks, no blanks or tabs at either end.
"""
import io

from .engine import C, Run, Unsupported
from .sym import SymInt, SymReal, Sym, fresh_bool

BLANK = " \t\n\r\v\f"
NUM = "\t\n\r ;:,\"'()[]{}#/|=<>%$*&!?@^~`_"


class Atom:
    def __init__(self, kind, ref, free=(), other=(), empty=False, alphabet=None, length=None, span=None):
        self.kind, self.ref, self.free, self.other, self.empty = kind, ref, tuple(free), tuple(other), empty
        self.alphabet = alphabet
        self.length = length            # number of characters, when it is known
        self.span = span                # (first, last) character of the whole atom, for a part of one

    def cut(self, i, j):
        a = self.span[0] if self.span else 0
        return Atom(self.kind, self.ref, self.free, (), False, self.alphabet, j - i, (a + i, a + j))

    def whole(self):
        return (self.kind, self.ref, self.span or (0, self.length))

    def lacks(self, sub):
        if self.alphabet is not None:
            return any(c not in self.alphabet for c in sub)
        return any(f in sub for f in self.free)

    def may_have(self, ch):
        return not self.lacks(ch)

    def __repr__(self):
        return "<%s>" % (self.ref,)


class Rows(Atom):
    """n lines (with their line ends): line i is the text `parts` with k = i"""

    def __init__(self, n, k, parts):
        Atom.__init__(self, "rows", "rows", empty=True)
        self.n, self.k, self.parts = n, k, parts

    def lacks(self, sub):
        return False

    def vc_rows(self, i):
        """the line as it is read"""
        import z3
        from .sym import ie, mk_int, mk_real
        out = []
        for p in self.parts:
            if isinstance(p, Atom) and p.kind in ("int", "real"):
                mk_ = mk_int if p.kind == "int" else mk_real
                e = p.ref.e
                p = Atom(p.kind, mk_(z3.substitute(e, (ie(self.k), ie(i)))), p.free, p.other, p.empty, p.alphabet)
            else:
                p = p.replace("\r\n", "\n").replace("\r", "\n")
            out.append(p)
        return mk(out)


def padded(x, spec):
    """%-12s and the like: unknown text is only padded when its length is known"""
    if spec in ("", "-", "0"):
        return x if isinstance(x, Text) else mk([x])
    raise Unsupported("padding unknown text to %s" % spec)


def sized(name, n, free=("\t", "\n", "\r"), other=()):
    """unknown text of n characters"""
    return Text([Atom("text", name, free, other, False, length=n)]) if n else ""


def number(x):
    """text of a number"""
    k = "int" if isinstance(x, SymInt) else "real"
    return Text([Atom(k, x, alphabet=set("0123456789-" if k == "int" else "0123456789+-.einfa"))])


def digits(x, width):
    """a number, zeros in front up to a width"""
    return Text([Atom("digits", (x, width), alphabet=set("0123456789-"))])


def unknown(name, free=("\t", "\n", "\r"), other=(), empty=True):
    return Text([Atom("text", name, free, other, empty)])


def _norm(parts):
    out = []
    for p in parts:
        if isinstance(p, Atom):
            q = out[-1] if out else None
            if p.span and isinstance(q, Atom) and q.span and q.kind == p.kind and q.ref is p.ref and q.span[1] == p.span[0]:
                out[-1] = Atom(p.kind, p.ref, p.free, (), False, p.alphabet, q.length + p.length, (q.span[0], p.span[1]))
            else:
                out.append(p)
        elif p:
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(str(p))
    return tuple(out)


def mk(parts):
    parts = _norm(parts)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return Text(parts)


def parts_of(x):
    if isinstance(x, Text):
        return x.parts
    if isinstance(x, str):
        return (x,) if x else ()
    raise TypeError("can only concatenate str (not %r) to str" % type(x).__name__)


class Text(str):
    def __new__(cls, parts):
        o = str.__new__(cls, "<\x02sym\x02>")
        o.parts = _norm(parts)
        return o

    def __repr__(self):
        return "".join("\x02sym\x02" + repr(p) if isinstance(p, Atom) else p for p in self.parts)

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported("formatting unknown text")

    def __hash__(self):
        raise Unsupported("unknown text as a key")

    def __add__(self, o):
        return mk(self.parts + parts_of(o))

    def __radd__(self, o):
        return mk(parts_of(o) + self.parts)

    def __mod__(self, o):
        raise Unsupported("formatting unknown text")

    # what is surely not there
    def _outside(self, sub):
        """no occurrence of sub touches an atom"""
        if not sub:
            raise Unsupported("empty text looked for in unknown text")
        for i, p in enumerate(self.parts):
            if not isinstance(p, Atom):
                continue
            if not p.lacks(sub):
                raise Unsupported("%r may be in %r" % (sub, p))
            before = self.parts[i - 1] if i else ""
            after = self.parts[i + 1] if i + 1 < len(self.parts) else ""
            for k in range(1, len(sub)):
                head, tail = sub[:k], sub[k:]
                # occurrence starting before the atom and reaching into it (or past it when it is empty)
                if isinstance(before, Atom) or isinstance(after, Atom):
                    if len(sub) > 1:
                        raise Unsupported("%r in a row of atoms" % sub)
                    continue
                if before.endswith(head) and (not p.lacks(tail[:1]) or p.empty):
                    raise Unsupported("%r may begin before %r" % (sub, p))
                if after.startswith(tail) and not p.lacks(head[-1:]):
                    raise Unsupported("%r may end after %r" % (sub, p))

    def __contains__(self, sub):
        if isinstance(sub, Text):
            raise Unsupported("unknown text looked for")
        if any(isinstance(p, str) and sub in p for p in self.parts):
            return True
        self._outside(sub)
        return False

    def replace(self, old, new, count=-1):
        if isinstance(old, Text) or count != -1:
            raise Unsupported("replace")
        self._outside(old)
        out = []
        for p in self.parts:
            if isinstance(p, Atom):
                out.append(p)
            else:
                pieces = p.split(old)
                for k, q in enumerate(pieces):
                    if k:
                        out += list(parts_of(new))
                    out.append(q)
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1 or any(isinstance(p, Atom) and (p.empty or any(p.may_have(c) for c in BLANK)) for p in self.parts):
                raise Unsupported("splitting unknown text at blanks")
            out, cur = [], []
            for p in self.parts:
                if isinstance(p, Atom):
                    cur.append(p)
                    continue
                words = p.split()
                if p[:1].strip() == "" and cur:
                    out.append(mk(cur))
                    cur = []
                for i, w in enumerate(words):
                    if i and cur:
                        out.append(mk(cur))
                        cur = []
                    cur.append(w)
                if p[-1:].strip() == "" and cur:
                    out.append(mk(cur))
                    cur = []
            return out + ([mk(cur)] if cur else [])
        if maxsplit != -1:
            # the first separators must come before the atoms
            out, parts, n = [], list(self.parts), maxsplit
            while n and parts and isinstance(parts[0], str) and sep in parts[0]:
                a, b = parts[0].split(sep, 1)
                out.append(a)
                parts[0] = b
                n -= 1
            if n:
                mk_rest = mk(parts)
                return out + (mk_rest.split(sep) if isinstance(mk_rest, Text) else mk_rest.split(sep, n))
            return out + [mk(parts)]
        self._outside(sep)
        cur, out = [], []
        for p in self.parts:
            if isinstance(p, Atom):
                cur.append(p)
                continue
            pieces = p.split(sep)
            for k, q in enumerate(pieces):
                if k:
                    out.append(mk(cur))
                    cur = []
                cur.append(q)
        out.append(mk(cur))
        return out

    def partition(self, sep):
        if isinstance(self.parts[0], str) and sep in self.parts[0]:
            a, b = self.parts[0].split(sep, 1)
            return a, sep, mk((b,) + self.parts[1:])
        if sep not in self:
            return mk(self.parts), "", ""
        a = self.split(sep)
        return a[0], sep, mk([q for k, x in enumerate(a[1:]) for q in ((sep,) if k else ()) + parts_of(x)])

    def find(self, sub, *a):
        if not a and isinstance(self.parts[0], str) and sub in self.parts[0]:
            return self.parts[0].find(sub)
        if sub in self:
            raise Unsupported("position after unknown text")
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def _strip(self, chars, left, right):
        ch = BLANK if chars is None else chars
        parts = list(self.parts)
        if left and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(ch)
        if right and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(ch)
        parts = _norm(parts)
        for on, end, nxt in ((left, 0, 1), (right, -1, -2)):
            if on and parts and isinstance(parts[end], Atom):
                if chars is not None and any(parts[end].may_have(c) and c not in BLANK for c in ch):
                    raise Unsupported("strip of unknown text")
                if parts[end].empty and len(parts) > 1:
                    q = parts[nxt]
                    if isinstance(q, Atom) or (q[0] if end == 0 else q[-1]) in ch:
                        if C().fork(self._is_empty(parts[end])):
                            rest = [x for i, x in enumerate(parts) if i != (end % len(parts))]
                            t = mk(rest)
                            return t._strip(chars, left, right) if isinstance(t, Text) else (
                                t.strip(ch) if left and right else t.lstrip(ch) if left else t.rstrip(ch))
        return mk(parts)

    def zfill(self, width):
        if len(self.parts) == 1 and self.parts[0].kind == "int":
            return digits(self.parts[0].ref, width)
        raise Unsupported("zfill of unknown text")

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    @staticmethod
    def _is_empty(a):
        k = ("empty", a.kind, str(a.ref))
        if k not in C().ghost:
            C().ghost[k] = fresh_bool("empty_%s" % a.ref)
        return C().ghost[k].e

    def __bool__(self):
        if any(isinstance(p, str) for p in self.parts) or any(not p.empty for p in self.parts):
            return True
        for p in self.parts:
            if not C().fork(self._is_empty(p)):
                return True
        return False

    def vc_len(self):
        n = 0
        for p in self.parts:
            m = len(p) if isinstance(p, str) else p.length
            if m is None:
                raise Unsupported("length of unknown text")
            n += m
        return n

    __len__ = vc_len

    def __iter__(self):
        raise Unsupported("characters of unknown text")

    def __getitem__(self, k):
        first = self.parts[0]
        if isinstance(k, slice) and k.step in (None, 1) and all(not isinstance(p, Atom) or p.length is not None for p in self.parts):
            a, b, _ = k.indices(self.vc_len())
            out, pos = [], 0
            for p in self.parts:
                m = len(p) if isinstance(p, str) else p.length
                i, j = max(a - pos, 0), min(b - pos, m)
                if i < j:
                    out.append(p if (i, j) == (0, m) else p[i:j] if isinstance(p, str) else p.cut(i, j))
                pos += m
            return mk(out)
        if isinstance(first, Atom) and isinstance(k, int) and k == 0 and not first.empty:
            return mk([Atom("text", ("head of", first.ref), first.free, (), False, first.alphabet, 1)])
        if isinstance(first, str):
            if isinstance(k, int) and 0 <= k < len(first):
                return first[k]
            if isinstance(k, slice) and k.step in (None, 1) and (k.start is None or 0 <= k.start <= len(first)):
                if k.stop is None:
                    return mk((first[k.start or 0:],) + self.parts[1:])
                if 0 <= k.stop <= len(first):
                    return first[k]
        last = self.parts[-1]
        if isinstance(last, str) and isinstance(k, slice) and k.step in (None, 1) and k.start in (None, 0) and isinstance(k.stop, int) \
                and -len(last) <= k.stop < 0:
            return mk(self.parts[:-1] + (last[:k.stop],))
        raise Unsupported("part of unknown text")

    def startswith(self, s, *a):
        first = self.parts[0]
        if not a and isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        if not a and isinstance(first, str):
            if len(first) >= len(s) or not s.startswith(first):
                return first.startswith(s)
        if not a and isinstance(first, Atom) and first.lacks(s[:1]) and not first.empty:
            return False
        raise Unsupported("beginning of unknown text")

    def endswith(self, s, *a):
        last = self.parts[-1]
        if not a and isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        if not a and isinstance(last, str) and (len(last) >= len(s) or not s.endswith(last)):
            return last.endswith(s)
        raise Unsupported("end of unknown text")

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if isinstance(o, Text):
            if self.parts == o.parts:
                return True
            if len(self.parts) == len(o.parts) and all(
                    (a is b or (isinstance(a, Atom) and isinstance(b, Atom) and a.kind == b.kind
                                and a.ref is b.ref and (a.span or (0, a.length)) == (b.span or (0, b.length)))) if isinstance(a, Atom) else a == b
                    for a, b in zip(self.parts, o.parts)):
                return True
            raise Unsupported("comparison of unknown texts %r, %r" % (self, o))
        if o == "":
            return not bool(self)
        if any(isinstance(p, str) and p not in o for p in self.parts):
            return False
        if all(not isinstance(p, Atom) or p.length is not None for p in self.parts) and self.vc_len() != len(o):
            return False
        # a concrete text: the concrete pieces must be in it, in order
        first, last = self.parts[0], self.parts[-1]
        if isinstance(first, str) and not o.startswith(first) or isinstance(last, str) and not o.endswith(last):
            return False
        if len(self.parts) == 1:
            a = self.parts[0]
            if o == "":
                return a.empty and C().fork(self._is_empty(a))
            if o in a.other or a.lacks(o):
                return False
        raise Unsupported("comparison of unknown text %r with %r" % (self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def encode(self, encoding="utf-8", errors="strict"):
        if not all(p.isascii() if isinstance(p, str) else p.alphabet and all(c.isascii() for c in p.alphabet) for p in self.parts):
            raise Unsupported("encoding of unknown text")
        return Encoded(self)

    # numbers
    def _num(self):
        a = self.parts[0] if len(self.parts) == 1 else None
        if isinstance(a, Atom) and a.kind in ("int", "real"):
            return a
        raise Unsupported("number from unknown text %r" % self)

    def __vc_int__(self):
        a = self._num()
        if a.kind == "real":
            raise ValueError("invalid literal for int()")
        return a.ref

    def __vc_float__(self):
        a = self._num()
        if a.kind == "int":
            from .load import vc_float
            return vc_float(a.ref)
        return a.ref

    def lower(self):
        if all(isinstance(p, Atom) and p.kind != "text" or isinstance(p, str) for p in self.parts):
            return mk([p if isinstance(p, Atom) else p.lower() for p in self.parts])
        raise Unsupported("lower case of unknown text")

    upper = title = casefold = splitlines = rsplit = rfind = join = format = count = isdigit = isnumeric = \
        lambda self, *a, **k: (_ for _ in ()).throw(Unsupported("operation on unknown text"))


class Encoded:
    """the bytes of text that is ASCII"""

    def __init__(self, text):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        return self.text


class TextFile:
    """text file in the files of the run: {name: Text or str}"""

    def __init__(self, files, name, mode="r", newline=None):
        self.files, self.name, self.mode, self.pos, self.newline = files, name, mode, 0, newline
        if "b" in mode:
            raise Unsupported("binary mode")
        if "w" in mode:
            files[name] = ""
        elif "a" in mode:
            files.setdefault(name, "")
        elif name not in files:
            raise FileNotFoundError(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, x):
        if not isinstance(x, Text) and "\x02sym\x02" in x:
            raise Unsupported("unknown text went through an operation that is not modelled")
        row = C().ghost.get(("row", self.name))
        if row is not None:
            C().ghost["row", self.name] = row + x
        else:
            self.files[self.name] = self.files[self.name] + x

    def vc_havoc(self):
        C().ghost["row", self.name] = ""

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def vc_stretches(self):
        t = self.files[self.name]
        return isinstance(t, Text) and any(isinstance(p, Rows) for p in t.parts)

    def vc_segments(self):
        """lines and stretches of lines, from the position on"""
        t = self.files[self.name]
        if not isinstance(t, Text) or not any(isinstance(p, Rows) for p in t.parts):
            return list(self)
        if self.pos:
            raise Unsupported("position in a file with an unknown number of lines")
        out, cur = [], []
        for p in t.parts + (None,):
            if p is None or isinstance(p, Rows):
                x = mk(cur)
                tmp = {"x": x}
                if p is not None and x != "" and not (isinstance(x.parts[-1] if isinstance(x, Text) else x, str)
                                                      and (x.parts[-1] if isinstance(x, Text) else x).endswith("\n")):
                    raise Unsupported("rows do not begin on a line of their own")
                out += TextFile(tmp, "x").lines() if x != "" else []
                cur = []
                if p is not None:
                    out.append(p)
            else:
                cur.append(p)
        self.pos = -1
        return out

    def lines(self):
        t = self.files[self.name]
        if isinstance(t, Text) and any(isinstance(p, Rows) for p in t.parts):
            raise Unsupported("the lines of a file with an unknown number of lines")
        if self.newline is None:
            t = mk([p if isinstance(p, Atom) else p.replace("\r\n", "\n").replace("\r", "\n") for p in parts_of(t)])
        if isinstance(t, Text):
            ls = t.split("\n")
        else:
            ls = t.split("\n")
        return [l + "\n" for l in ls[:-1]] + ([ls[-1]] if not (isinstance(ls[-1], str) and not isinstance(ls[-1], Text)
                                                              and ls[-1] == "") else [])

    def seek(self, n, *a):
        if n != 0:
            raise Unsupported("seek in a text file")
        self.pos = 0

    def readline(self):
        ls = self.lines()
        if self.pos >= len(ls):
            return ""
        self.pos += 1
        return ls[self.pos - 1]

    def readlines(self):
        ls = self.lines()[self.pos:]
        self.pos += len(ls)
        return ls

    def __iter__(self):
        while True:
            l = self.readline()
            if not isinstance(l, Text) and l == "":
                return
            yield l

    def read(self, *a):
        if a:
            raise Unsupported("read of some characters")
        ls = self.readlines()
        return mk([p for l in ls for p in parts_of(l)])


def opener(files):
    def open_(name, mode="r", *a, **k):
        return TextFile(files, str(name), mode, k.get("newline", a[3] if len(a) > 3 else None))
    return open_


def rows_written(file_of, needs=(), kind="for"):
    """loop that writes one line of a text file in each iteration, all alike"""
    from .load import LoopSpec

    def written(v, k):
        f = file_of(v)
        row = C().ghost.get(("row", f.name))
        if row is None or row == "":
            C().ghost["rows at", f.name] = tuple(C().trace)
            return True
        if not (row.parts[-1] if isinstance(row, Text) else row).endswith("\n"):
            raise Unsupported("an iteration does not end its line")
        C().run.rows = getattr(C().run, "rows", {})
        C().run.rows.setdefault(C().ghost["rows at", f.name], []).append((C().ghost["row k", f.name], parts_of(row)))
        C().ghost["row", f.name] = ""
        return True

    def item(v, k, x):
        C().ghost["row k", file_of(v).name] = k

    def after(v, k):
        f = file_of(v)
        del C().ghost["row", f.name]
        found = getattr(C().run, "rows", {}).get(C().ghost["rows at", f.name], [])
        if len(found) != 1:
            raise Unsupported("the iterations write %d kinds of lines" % len(found))
        f.files[f.name] = f.files[f.name] + mk([Rows(k, found[0][0], found[0][1])])
    return LoopSpec("lines of the file", written, needs=needs, mutates=lambda v: [file_of(v)], on_item=item, after=after, kind=kind)
