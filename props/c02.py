"""C02: chunk shapes chosen for storage are valid and hold whole signals."""
import itertools

from .common import *
from pyvc.load import load_module

ID = "C02"
H = "rsciio/_hierarchical.py"


def prod(xs):
    e = z3.IntVal(1)
    for x in xs:
        e = e * ie(x)
    return e


def chunks(nav, sig, order):
    """nav navigation axes, sig signal axes; order: positions of the signal axes"""
    n = nav + sig

    def run():
        shape = tuple(fresh_int("n%d" % d, 1, inp=True) for d in range(n))
        ts = fresh_int("itemsize", 1, inp=True)
        target = fresh_int("target", 1, inp=True)

        class Dt:
            itemsize = ts
        m = load_module(H, np_over={"dtype": lambda d: Dt, "floor_divide": lambda a, b: a // b})
        g = C().ghost

        def root(X, k, y):
            # obligations that the later ones build on
            prove(X.e >= 1, "room for at least one signal per chunk")
            prove(y.e >= 1, "at least one signal along each axis that is split")
        g["root"] = root
        r = m.get_signal_chunks(shape, "DT", signal_axes=order, target_size=target)
        expect(len(r) == n, "one chunk size per axis")
        for d in range(n):
            prove(z3.And(ie(r[d]) >= 1, ie(r[d]) <= ie(shape[d])), "chunk size between one and the size of the axis")
            if d in order:
                prove(eqi(r[d], shape[d]), "signals are not split")
        one = z3.And(*[eqi(r[d], 1) for d in range(n) if d not in order]) if nav else z3.BoolVal(True)
        prove(z3.Or(prod(r) * ts.e <= target.e, one), "chunk within the target size, unless it is a single signal")
    return run


CONTRACTS = []
for _nav in range(0, 4):
    for _sig in (0, 1, 2):
        if _nav + _sig == 0:
            continue
        _n = _nav + _sig
        _orders = {tuple(range(_nav, _n)), tuple(range(_sig))}
        for _o in sorted(_orders):
            CONTRACTS.append(Contract("chunks, %d navigation and signal axes %s" % (_nav, list(_o)), chunks(_nav, _sig, _o),
                                      [H + ":get_signal_chunks"]))


def auto(shape, order):
    def run():
        m = load_module(H, np_over={"dtype": lambda d: np.dtype("u2")})
        expect(m.get_signal_chunks(shape, "u2", signal_axes=order) is True, "the storage library chooses")
    return run


CONTRACTS += [Contract("no signal axes given", auto((3, 4), None), [H + ":get_signal_chunks"]),
              Contract("empty data", auto((0,), (0,)), [H + ":get_signal_chunks"])]

ASSUMPTIONS = [
    "the floating point root and quotient are treated as exact real numbers in the proof (the search runs the "
    "real arithmetic)",
    "the number of elements fits in a 64 bit integer",
    "every axis has at least one element; the number of navigation axes is enumerated (0 to 3), sizes, item size and "
    "target size are unbounded",
]


def search(s):
    from rsciio._hierarchical import get_signal_chunks
    rng = s.rng
    for it in range(s.n(20000, 400000)):
        if not s.left():
            break
        n = rng.randint(1, 6)
        big = rng.choice([3, 20, 300, 5000])
        shape = tuple(rng.randint(1, big) for _ in range(n))
        while int(np.prod(shape, dtype=object)) >= 2 ** 59:
            shape = tuple(max(1, x // 2) for x in shape)
        k = rng.randint(0, min(n, 3))
        sig = sorted(rng.sample(range(n), k)) if rng.random() < 0.5 else list(range(n - k, n))
        sig = tuple(sig) if rng.random() < 0.5 else sig
        dt = np.dtype(rng.choice(["u1", "u2", "f4", "f8", "c16", "S7"]))
        target = rng.choice([1e6, 1e6, 1e6, 1, 100, 12345, 1e8, 4096])
        case = dict(shape=shape, dtype=str(dt), signal_axes=list(sig), target_size=target)
        s.note(case)
        c = get_signal_chunks(shape, dt, sig, target)
        case["got"] = c
        s.check(isinstance(c, tuple) and len(c) == n and all(1 <= a <= b for a, b in zip(c, shape)),
                "chunk sizes between one and the size of the axis", case)
        s.check(all(int(a) == a and isinstance(a, (int, np.integer)) for a in c), "chunk sizes are whole numbers", case)
        s.check(all(c[i] == shape[i] for i in sig), "signals are not split", case)
        size = int(np.prod([int(x) for x in c], dtype=object)) * dt.itemsize
        single = all(c[i] == 1 for i in range(n) if i not in sig)
        s.check(single or size <= target, "chunk within the target size unless it is a single signal", case)
        if it % 50 == 0:
            s.check(get_signal_chunks(shape, dt, None, target) is True and get_signal_chunks((0,), dt, sig, target) is True,
                    "default chunks without signal axes", case)
