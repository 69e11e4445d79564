import os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
import z3
from pyvc.engine import *
from pyvc.sym import *
from pyvc.arr import *
from pyvc.load import load_module, LoopSpec

TOY = os.path.join(HERE, "selftest", "toy.py")


def toy(name):
    return getattr(load_module(TOY), name)


def t_sum(kind):
    m = load_module(TOY)
    n = fresh_int("n", 1, inp=True)
    a = SymArr.fresh("a", (n,), np.int64, inp=True)
    S = z3.Function("S", z3.IntSort(), z3.IntSort())
    C().assume(S(0) == 0)
    def step(v, k, item):
        C().assume(S(k.e + 1) == S(k.e) + a.uf(k.e))
    C().run.loop_specs = [LoopSpec("sum", lambda v, k: ie(v.s) == S(ie(k)), needs=["s"], on_item=step)]
    r = getattr(m, kind + "_sum")(a)
    prove(ie(r) == S(n.e), "sum")


def t_header(kind):
    f = SymFile("f")
    assume(ie(f.length) >= 4)
    r = toy(kind + "_header")(f)
    u = f.at(0) + 256 * f.at(1) + 65536 * f.at(2) + 2**24 * f.at(3)
    prove(ie(r) == u, "value")
    prove(ie(f.pos) == 4 + u, "position")


def t_hist(kind):
    n = fresh_int("n", 0, inp=True)
    w = fresh_int("w", 1, inp=True)
    assume(n.e < 2**40)
    a = SymArr.fresh("a", (n,), np.uint16, inp=True)
    q = fresh_int("q", 0, w)
    cnt = z3.Function("cnt", z3.IntSort(), z3.IntSort())
    assume(cnt(0) == 0)
    def step(v, k, item):
        assume(cnt(k.e + 1) == cnt(k.e) + z3.If(a.uf(k.e) == q.e, 1, 0))
    C().run.loop_specs = [LoopSpec("hist", lambda v, k: z3.And(v.out.expr(q) == cnt(ie(k)), cnt(ie(k)) >= 0, cnt(ie(k)) <= ie(k)), needs=["out"],
                                   mutates=lambda v: [v.out], on_item=step)]
    out = toy(kind + "_hist")(a, w)
    prove(out.expr(q) == cnt(n.e), "count")


def t_slice(kind):
    n = fresh_int("n", 1, inp=True); m = fresh_int("m", 2, inp=True)
    a = SymArr.fresh("a", (n, m), np.int32)
    lo = fresh_int("lo", 0, inp=True); hi = fresh_int("hi", 0, inp=True)
    assume(lo.e <= hi.e); assume(hi.e <= n.e); assume(m.e == 10)
    r = toy(kind + "_slice")(a, lo, hi)
    i = fresh_int("i", 0, mk_int(hi.e - lo.e)); j = fresh_int("j", 0, 5)
    prove(ie(r.shape[0]) == (hi.e - lo.e) * 5, "len")
    prove(r.expr(mk_int(i.e * 5 + j.e)) == a.uf(lo.e + i.e, 2 * j.e), "elt")


def t_while(kind):
    n = fresh_int("n", 0, inp=True)
    C().run.loop_specs = [LoopSpec("w", lambda v, k: z3.And(ie(v.i) >= 0, z3.Or(ie(v.i) == 0, (ie(v.i) - 1) * (ie(v.i) - 1) <= v.n.e)), needs=["i"])]
    r = toy(kind + "_while")(n)
    prove(z3.And(ie(r) * ie(r) <= n.e, n.e < (ie(r) + 1) * (ie(r) + 1)), "isqrt")


def t_fill(kind):
    n = fresh_int("n", 0, 60000, inp=True)
    q = fresh_int("q", 0, n); c = fresh_int("c", 0, 3)
    C().run.loop_specs = [LoopSpec("f", lambda v, k: v.out.expr(q, c) == z3.If(z3.And(c.e == 1, q.e < ie(k)), q.e + 1, 0),
                                   needs=["out"], mutates=lambda v: [v.out])]
    out = toy(kind + "_fill")(n)
    prove(out.expr(q, c) == z3.If(c.e == 1, q.e + 1, 0), "elt")


def t_list(kind):
    n = fresh_int("n", 0, inp=True)
    q = fresh_int("q", 0)
    C().run.loop_specs = [LoopSpec("l", lambda v, k: z3.And(ie(v.out.n) * 3 >= ie(k), ie(v.out.n) * 3 < ie(k) + 3,
                          z3.Implies(q.e < ie(v.out.n), z3.And(v.out.entry(q, 0) == 3 * q.e, v.out.entry(q, 1) == 6 * q.e))),
                                   needs=["out"], types={"out": lambda o: SymList.of(o, "out", 2)})]
    out = toy(kind + "_list")(n)
    prove(z3.Implies(q.e < ie(out.n), out.entry(q, 1) == 6 * q.e), "elt")
    prove(ie(out.n) * 3 >= n.e, "count")


def t_key(kind):
    k = fresh_int("k", inp=True)
    r = toy(kind + "_key")(k)
    prove(z3.And(z3.Implies(k.e == 1, z3.BoolVal(r == "a")), z3.Implies(k.e == 2, z3.BoolVal(r == "b")),
                 z3.Implies(z3.Not(z3.Or(k.e == 1, k.e == 2)), z3.BoolVal(r == "c"))), "lookup")


def t_exc(kind):
    n = fresh_int("n", inp=True)
    try:
        toy(kind + "_exc")(n)
        ok = True
    except ValueError:
        ok = False
    prove((n.e <= 5) if ok else (n.e > 5), "raises exactly when n > 5")


def t_vacuous(kind):
    n = fresh_int("n")
    if kind == "bad":
        assume(z3.And(n.e > 0, n.e < 0))
    prove(n.e == n.e, "trivial")


def main():
    bad = 0
    t0 = time.time()
    for t in [v for k, v in sorted(globals().items()) if k.startswith("t_")]:
        for kind in ("good", "bad"):
            run = Run(t.__name__, None)
            run.loop_specs = []
            obs = run.explore(lambda: t(kind))
            fails = [o for o in obs if o.status != "discharged"]
            refuted = [o for o in fails if o.status == "refuted"]
            ok = (not fails) if kind == "good" else bool(refuted)
            if not ok:
                bad += 1
            if not ok or "-v" in sys.argv:
                print(t.__name__, kind, "OK" if ok else "WRONG", len(obs), "obligations", run.paths, "paths", "%.2fs" % run.wall)
                for o in fails:
                    print("   ", o.status, o.name, o.detail[:1500], o.model)
    print("engine self test: %s (%.1f s)" % ("ok" if not bad else "%d wrong" % bad, time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
