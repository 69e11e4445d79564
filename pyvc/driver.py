"""Runs the contracts and the concrete replay search of one property.

exit 0  every obligation discharged and no failing input found
exit 1  VIOLATION line (with "no-failing-input-found" when only a proof failed)
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

TRUSTED_ENGINE = [
    "pyvc verification-condition generator (pyvc/*.py): Python semantics, the models of "
    "numpy/struct/file operations listed in DESIGN.md, and the extraction T1-T5",
    "z3 4.x (python3-vt) and cvc5 1.1.2 as back ends",
    "CPython 3.12, numpy: executed, not verified",
]


class Contract:
    """One specification on named functions of the repository.

    run():       the harness: builds symbolic inputs, assumes the precondition,
                 calls the real (extracted) function, proves the postcondition
    functions:   'file:function' under this contract
    loops:       loop specs (list or callable returning one)
    level:       'proved', or 'bounded' with the stated bound
    """

    def __init__(self, name, run, functions, loops=(), level="proved", bound="",
                 assumed=(), tier="quick", budget_s=400, max_paths=4000, prove_ms=None, feas_ms=1500):
        self.name = name
        self.run = run
        self.functions = list(functions)
        self.loops = loops
        self.level = level
        self.bound = bound
        self.assumed = list(assumed)
        self.tier = tier
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.prove_ms = prove_ms
        self.feas_ms = feas_ms


class Failure(Exception):
    """A concrete run of the real code that breaks the property."""

    def __init__(self, what, case):
        Exception.__init__(self, what)
        self.what = what
        self.case = case


class Search:
    """Concrete executions of the real code against the same contract."""

    def __init__(self, pid, seed, tier, budget_s):
        self.pid = pid
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.tier = tier
        self.deadline = time.time() + budget_s
        self.cases = 0
        self.known = []
        self.known_hit = []
        self.counts = {}

    def left(self):
        return time.time() < self.deadline

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def check(self, ok, what, case, tag=None):
        """one evaluated contract on one concrete input"""
        self.cases += 1
        self.counts[what] = self.counts.get(what, 0) + 1
        if ok is True or (ok is not False and bool(ok)):
            return True
        for k in self.known:
            if k["match"] == tag and tag is not None:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return False
        raise Failure(what, case)

    def note(self, case):
        """remember the case about to run, in case the process dies in it"""
        self.last = case
        with open(self.lastfile, "w") as f:
            f.write(repr(case)[:20000])

    def fail(self, what, case, tag=None):
        return self.check(False, what, case, tag)


def load_known(pid):
    path = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid:
                out.append(d)
    return out


def _prove_one(args):
    modname, idx, tier, seed = args
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module(modname)
        con = mod.CONTRACTS[idx]
        from pyvc.engine import Run
        run = Run(con.name, None, tier=tier, seed=seed, max_paths=con.max_paths,
                  budget_s=con.budget_s if tier == "quick" else con.budget_s * 3,
                  prove_ms=con.prove_ms, feas_ms=con.feas_ms)

        def body():
            run.loop_specs = list(con.loops() if callable(con.loops) else con.loops)
            con.run()
        run.loop_specs = []
        run.explore(body)
        obs = [(o.name, o.status, o.backend, round(o.secs, 4), o.detail, o.model) for o in run.obs]
        return dict(idx=idx, obs=obs, paths=run.paths, ended=run.ended, wall=run.wall,
                    cross=run.cross_n)
    except BaseException as exc:  # noqa: BLE001
        return dict(idx=idx, obs=[("contract runs", "unsupported", "engine", 0.0,
                                   "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()[-3000:]), None)],
                    paths=0, ended=0, wall=0.0, cross={})


def _search_one(args):
    modname, tier, seed, budget, part, lastfile = args
    import tempfile
    import shutil
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(modname)
    s = Search(mod.ID, seed + 7919 * part, tier, budget)
    s.part = part
    s.lastfile = lastfile
    s.known = load_known(mod.ID)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % mod.ID)
    cwd = os.getcwd()
    s.tmp = tmp
    fail = None
    try:
        os.chdir(tmp)
        mod.search(s)
    except Failure as f:
        fail = dict(what=f.what, case=jsonable(f.case))
    except Exception as exc:  # noqa: BLE001
        # an exception that escapes a search is a crash of the code under test
        # on an input the property covers (the searches run clean on the tree
        # they were written for)
        tb = traceback.extract_tb(exc.__traceback__)
        mine = bool(tb) and tb[-1].filename.startswith(HERE) and isinstance(
            exc, (AttributeError, ImportError, TypeError))
        fail = dict(what="unexpected %s: %s" % (type(exc).__name__, str(exc)[:200]),
                    # the harness could not call the code as it is now: no
                    # statement about any input
                    no_input=mine,
                    case=dict(error=str(exc)[:500], traceback=traceback.format_exc()[-3000:],
                              last=jsonable(getattr(s, "last", None))))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return dict(cases=s.cases, counts=s.counts, fail=fail,
                known=[k["match"] for k in s.known_hit])


def _search_child(conn, args):
    try:
        r = _search_one(args)
    except BaseException as exc:  # noqa: BLE001
        r = dict(cases=0, counts={}, known=[], fail=dict(
            what="search failed: %s" % exc, case=dict(traceback=traceback.format_exc()[-3000:])))
    conn.send(r)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


class SearchProc:
    """a search in its own process: a crash of the interpreter is a failure too"""

    def __init__(self, ctx, args):
        self.lastfile = args[5]
        self.rd, wr = ctx.Pipe(False)
        self.p = ctx.Process(target=_search_child, args=(wr, args))
        self.p.start()
        wr.close()

    def result(self, timeout):
        r = None
        try:
            if self.rd.poll(timeout):
                r = self.rd.recv()
            else:
                self.p.kill()
                self.p.join()
                return dict(cases=0, counts={}, known=[], fail=dict(
                    what="no answer within %d s (hang)" % timeout, case=dict(last=self._last())))
        except EOFError:
            r = None
        self.p.join(10)
        if r is None:
            return dict(cases=0, counts={}, known=[], fail=dict(
                what="the process running the code under test died (exit code %s)" % self.p.exitcode,
                case=dict(last=self._last())))
        return r

    def _last(self):
        try:
            with open(self.lastfile) as f:
                return f.read()
        except OSError:
            return None


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:2000]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--only", default=None, help="substring of the contract names to run")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    pid = a.property
    modname = "props." + pid.lower()
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    mod = importlib.import_module(modname)
    cons = mod.CONTRACTS
    jobs = [(modname, i, tier, seed) for i, c in enumerate(cons)
            if (tier == "thorough" or c.tier == "quick") and (a.only is None or a.only in c.name)]
    if a.no_proof:
        jobs = []
    budget = getattr(mod, "SEARCH_S", 60) if tier == "quick" else getattr(mod, "SEARCH_THOROUGH_S", 600)
    parts = getattr(mod, "SEARCH_PARTS", 2) if tier == "quick" else 6
    ctx = mp.get_context("fork")
    results = []
    searches = []
    if not hasattr(mod, "search"):
        a.no_search = True
    import tempfile
    sdir = tempfile.mkdtemp(prefix="verif-last-")
    sjobs = [] if a.no_search else [(modname, tier, seed, budget, p, os.path.join(sdir, "last%d" % p))
                                    for p in range(parts)]
    if a.serial:
        results = [_prove_one(j) for j in jobs]
        searches = [_search_one(j) for j in sjobs]
    else:
        rs = [SearchProc(ctx, j) for j in sjobs]
        from . import load
        load.warm(sorted({f.split(":")[0] for _, i, _, _ in jobs for f in cons[i].functions if ":" in f}))
        with ctx.Pool(min(8, max(1, len(jobs) + len(sjobs))), maxtasksperchild=1) as pool:
            rp = [pool.apply_async(_prove_one, (j,)) for j in jobs]
            for j, r in zip(jobs, rp):
                lim = cons[j[1]].budget_s * (3 if tier == "thorough" else 1) + 200
                try:
                    results.append(r.get(timeout=lim))
                except mp.TimeoutError:
                    results.append(dict(idx=j[1], obs=[("contract runs", "unknown", "engine", lim,
                                                        "time limit", None)], paths=0, ended=0,
                                        wall=lim, cross={}))
            for r in rs:
                searches.append(r.result(budget + 240))
            pool.terminate()
    import shutil
    shutil.rmtree(sdir, ignore_errors=True)

    failed = []
    backends = {}
    fn_proved, fn_bounded = set(), set()
    contracts_out = []
    n_ob = n_dis = 0
    b_ob = b_dis = 0
    solver_s = 0.0
    cross = {}
    for r in results:
        c = cons[r["idx"]]
        bad = [o for o in r["obs"] if o[1] != "discharged"]
        for o in r["obs"]:
            solver_s += o[3]
            if c.level == "proved":
                n_ob += 1
                n_dis += o[1] == "discharged"
            else:
                b_ob += 1
                b_dis += o[1] == "discharged"
            if o[1] == "discharged":
                backends[o[2]] = backends.get(o[2], 0) + 1
        for k, v in r["cross"].items():
            cross[k] = cross.get(k, 0) + v
        (fn_proved if c.level == "proved" else fn_bounded).update(c.functions)
        for o in bad:
            failed.append((c, o))
        contracts_out.append(dict(contract=c.name, level=c.level, bound=c.bound,
                                  functions=c.functions, obligations=len(r["obs"]),
                                  discharged=len(r["obs"]) - len(bad), paths=r["paths"],
                                  wall_s=round(r["wall"], 2),
                                  obligation_names=sorted({o[0] for o in r["obs"]})))
        if a.v:
            print("%-60s %4d/%4d obligations, %d paths (%d ended), %.1f s" % (
                c.name, len(r["obs"]) - len(bad), len(r["obs"]), r["paths"], r["ended"], r["wall"]))
            for o in bad:
                print("   ", o[1].upper(), o[0], o[2], o[3])
                print("       ", str(o[4])[:1800].replace("\n", "\n        "))
                if o[5]:
                    print("        inputs:", o[5])
    sfail = next((s["fail"] for s in searches if s.get("fail") and not s["fail"].get("no_input")), None)
    stuck = next((s["fail"] for s in searches if s.get("fail") and s["fail"].get("no_input")), None)
    if stuck is not None:
        failed.append((Contract("replay search", None, []),
                       ("the code can be called", "unsupported", "engine", 0.0, json.dumps(stuck)[:3000], None)))
    cases = sum(s["cases"] for s in searches)
    counts = {}
    for s in searches:
        for k, v in s["counts"].items():
            counts[k] = counts.get(k, 0) + v
    known = load_known(pid)
    hit = {k for s in searches for k in s["known"]}
    if a.v:
        print("search: %d cases in %.1f s; failure: %s" % (cases, time.time() - t0, sfail))
        print(counts)

    violations = []
    line = None
    rdir = os.path.join(ev_dir, "replay")
    if sfail is not None or failed:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + ".json")
        rec = dict(property=pid, tier=tier, seed=seed, repo=os.environ.get("VERIF_REPO", "/repo"),
                   failing_input=jsonable(sfail) if sfail else None,
                   failed_obligations=[dict(contract=c.name, functions=c.functions, obligation=o[0],
                                            status=o[1], backend=o[2], verifier_output=o[4],
                                            counterexample=jsonable(o[5])) for c, o in failed])
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if sfail is None:
            line += " no-failing-input-found"
        violations.append(dict(replay=rp, what=(sfail or {}).get("what") or
                               "%s / %s (%s)" % (failed[0][0].name, failed[0][1][0], failed[0][1][1]),
                               failing_input=sfail is not None))

    ev = dict(
        property=pid, tier=tier, seed=seed,
        level="proof",
        coverage=dict(
            obligations=n_ob, discharged=n_dis,
            checker_cmd="/verif/check.sh %s --tier %s" % (pid, tier),
            trusted_base=TRUSTED_ENGINE + list(getattr(mod, "TRUSTED", [])),
            functions_under_contract=sorted(fn_proved),
            functions_bounded_only=sorted(fn_bounded - fn_proved),
            bounded_obligations=b_ob, bounded_discharged=b_dis,
            backends=backends, solver_s=round(solver_s, 2), cross_checked_by_cvc5=cross,
            contracts=grouped(contracts_out),
            concrete_search=dict(cases=cases, label="bounded: concrete executions of the real code; "
                               "never counted as proved", per_check=counts)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted(
            {x for c in cons for x in c.assumed}),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
        violation_details=violations,
    )
    tmpf = os.path.join(ev_dir, "." + pid + ".tmp")
    with open(tmpf, "w") as f:
        json.dump(jsonable2(ev), f, indent=1)
    os.replace(tmpf, os.path.join(ev_dir, pid + ".json"))

    for k in known:
        if k["match"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        elif not a.no_search:
            # a listed finding that this run did not reach is still listed
            print("KNOWN-FINDING: property=%s %s (not exercised in this run)" % (pid, k["what"]))
    print("%s %s: %d/%d obligations discharged (%s), bounded stand-ins %d/%d, %d concrete cases, %.1f s" % (
        pid, tier, n_dis, n_ob, ", ".join("%s %d" % kv for kv in sorted(backends.items())),
        b_dis, b_ob, cases, time.time() - t0))
    if line:
        for c, o in failed[:8]:
            print("failed obligation: %s / %s: %s" % (c.name, o[0], o[1]))
        if sfail:
            print("failing input: %s" % sfail["what"])
        print(line)
        return 1
    return 0


def grouped(contracts):
    """the contracts of each set of functions, a line each"""
    out = {}
    for c in contracts:
        g = out.setdefault((c["level"], c["bound"], tuple(c["functions"])), dict(
            level=c["level"], bound=c["bound"], functions=c["functions"], obligation_names=set(), contracts=[]))
        g["obligation_names"].update(c["obligation_names"])
        g["contracts"].append("%s: %d/%d obligations, %d paths, %.2f s" % (c["contract"], c["discharged"], c["obligations"], c["paths"], c["wall_s"]))
    return [dict(g, obligation_names=sorted(g["obligation_names"])) for g in out.values()]


def jsonable2(x):
    return json.loads(json.dumps(x, default=repr))
