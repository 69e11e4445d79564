"""Renaming of local variables: loop invariants name the locals of the code.

names.json has, for each function, the locals in the order in which they are first bound, as they were when the
invariants were written.  Where a function now uses another name in the same place, the extraction converts it back
(alpha conversion: the new name is a local of the function everywhere in it, and the old name does not occur in it, so
that the meaning of the function stays the same whatever the two lists are)."""
import ast
import difflib
import functools
import json
import os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + "." + m.name, m


def local_names(fn):
    """names that are bound by assignments, loops and comprehensions only, in their order"""
    stores, other = {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            at = (n.lineno, n.col_offset)
            stores[n.id] = min(stores.get(n.id, at), at)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            other |= set(n.names)
        elif isinstance(n, ast.arg):
            other.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            other.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            other |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            other.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            other.add(n.name)
        elif isinstance(n, ast.Name) and n.id in ("locals", "vars", "eval", "exec", "globals"):
            return []
        if isinstance(n, ast.ClassDef):
            return []
    return sorted((n for n in stores if n not in other), key=stores.get)


def all_names(fn):
    out = set()
    for n in ast.walk(fn):
        for f in ("id", "arg", "name", "asname", "rest"):
            v = getattr(n, f, None)
            if isinstance(v, str):
                out.add(v)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
    return out


@functools.cache
def recorded():
    try:
        with open(FILE, encoding="utf-8") as f:
            return json.load(f)
    except OSError:
        return {}


def aligned(old, new):
    """new name -> old name"""
    out = {}
    both = set(old) & set(new)
    for tag, a, b, c, d in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        x, y = [n for n in old[a:b] if n not in both], [n for n in new[c:d] if n not in both]
        if len(x) == len(y):
            out.update(zip(y, x))
    return out


def convert(tree, rel):
    was = recorded().get(rel, {})
    for name, fn in functions(tree):
        old = was.get(name)
        if not old:
            continue
        new = local_names(fn)
        if new == old:
            continue
        ren = aligned(old, new)
        there = all_names(fn)
        ren = {k: v for k, v in ren.items() if v not in there}
        if ren:
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = ren[n.id]
    return tree
