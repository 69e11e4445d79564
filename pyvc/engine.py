"""pyvc: verification-condition generation for Python by exhaustive symbolic
execution of the real function bodies, one contract at a time.

 * every branch on a symbolic condition forks; the whole decision tree is
   explored depth first (a path is re-executed from its decision prefix);
 * loops over symbolic sequences are cut at a loop invariant (load.py);
 * calls to functions that have a contract are replaced by that contract;
 * whatever the symbolic values do not model raises Unsupported: nothing is
   silently concretised or skipped.
"""

import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import z3

z3.set_param("smt.random_seed", 0)
z3.set_param("auto_config", True)


class Unsupported(Exception):
    """The engine cannot model an operation: the obligation is undecided."""


class PathEnd(BaseException):
    """The current path is over (its continuation is vacuous)."""


class SpecMismatch(Unsupported):
    pass


class Obligation:
    __slots__ = ("contract", "name", "status", "backend", "secs", "detail", "model")

    def __init__(self, contract, name, status, backend, secs, detail="", model=None):
        self.contract = contract
        self.name = name
        self.status = status
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model


class Ctx:
    """State of one path."""

    def __init__(self, prefix, run):
        self.prefix = prefix
        self.trace = []
        self.run = run
        self.solver = z3.Solver()
        self.solver.set("timeout", run.feas_ms)
        self.solver.set("random_seed", run.seed)
        self.names = {}
        self.loops = []          # stack of active cut loops
        self.serial = 0
        self.inputs = {}         # name -> symbolic input, for counterexamples
        self.events = []         # free use by specs (ghost trace)
        self.ghost = {}

    # -- naming -----------------------------------------------------------
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def next_serial(self):
        self.serial += 1
        return self.serial

    # -- assumptions ------------------------------------------------------
    def assume(self, e):
        e = to_bool_expr(e)
        if e is True:
            return
        if e is False:
            raise PathEnd("assumed false")
        self.solver.add(e)

    def feasible(self, e=None):
        t = time.time()
        r = self.solver.check(*([] if e is None else [e]))
        self.run.solver_s += time.time() - t
        return r != z3.unsat

    def fork(self, e):
        if isinstance(e, bool):
            return e
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.trace.append(b)
            self.solver.add(e if b else z3.Not(e))
            return b
        if i > self.run.max_depth:
            raise Unsupported("more than %d decisions on one path" % self.run.max_depth)
        can_t = self.feasible(e)
        can_f = self.feasible(z3.Not(e))
        if not can_t and not can_f:
            raise PathEnd("infeasible")
        if can_t and can_f:
            self.run.pending.append(list(self.trace) + [False])
            self.trace.append(True)
            self.solver.add(e)
            return True
        b = can_t
        self.trace.append(b)
        self.solver.add(e if b else z3.Not(e))
        return b

    # -- obligations ------------------------------------------------------
    def prove(self, e, name, quiet=False):
        e = to_bool_expr(e)
        t = time.time()
        if e is True:
            self.run.record(name, "discharged", "evaluation", 0.0)
            return True
        if e is False:
            e = z3.BoolVal(False)
        s = z3.simplify(e)
        if z3.is_true(s):
            self.run.record(name, "discharged", "simplifier", time.time() - t)
            return True
        self.solver.push()
        self.solver.set("timeout", self.run.prove_ms)
        self.solver.add(z3.Not(e))
        r = self.solver.check()
        dt = time.time() - t
        backend = "z3"
        detail = ""
        model = None
        if r == z3.sat:
            model = self.solver.model()
            detail = self.describe(model)
        elif r == z3.unknown:
            r2 = self.run.second(self.solver)
            if r2 == "unsat":
                r = z3.unsat
                backend = "cvc5" if self.run.last_second == "cvc5" else self.run.last_second
            elif self.run.third(self.solver):
                r = z3.unsat
            else:
                detail = "solver answered unknown (%s; second back end: %s)" % (
                    self.solver.reason_unknown(), r2)
            dt = time.time() - t
        elif self.run.cross:
            r2 = self.run.second(self.solver)
            self.run.cross_n[r2] = self.run.cross_n.get(r2, 0) + 1
        self.solver.pop()
        self.solver.set("timeout", self.run.feas_ms)
        if r == z3.unsat:
            self.run.record(name, "discharged", backend, dt)
            self.solver.add(e)
            return True
        self.run.record(name, "refuted" if r == z3.sat else "unknown", backend, dt,
                        detail, self.model_inputs(model) if model is not None else None)
        raise PathEnd("obligation failed: " + name)

    def model_inputs(self, model):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = v.vc_model(model) if hasattr(v, "vc_model") else str(
                    model.eval(v, model_completion=True))
            except Exception as exc:  # noqa: BLE001
                out[k] = "<%s>" % exc
        return out

    def describe(self, model):
        txt = str(model)
        return txt if len(txt) < 3000 else txt[:3000] + " ..."


def to_bool_expr(e):
    if isinstance(e, bool):
        return e
    if hasattr(e, "vc_bool"):
        return e.vc_bool()
    if isinstance(e, z3.BoolRef):
        return e
    if e is None:
        raise Unsupported("specification returned None instead of a condition")
    try:
        import numpy as np
        if isinstance(e, np.bool_):
            return bool(e)
    except ImportError:
        pass
    if isinstance(e, (list, tuple)):
        parts = [to_bool_expr(x) for x in e]
        if any(p is False for p in parts):
            return False
        parts = [p for p in parts if p is not True]
        if not parts:
            return True
        return z3.And(*parts) if len(parts) > 1 else parts[0]
    raise Unsupported("not a condition: %r" % (e,))


class Run:
    """Exploration of one contract."""

    current = None

    def __init__(self, contract, report, tier="quick", seed=1, max_paths=4000,
                 max_depth=400, prove_ms=None, feas_ms=1500, budget_s=240):
        self.contract = contract
        self.report = report
        self.tier = tier
        self.seed = seed
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.prove_ms = prove_ms or (20000 if tier == "quick" else 90000)
        self.feas_ms = feas_ms
        self.pending = []
        self.solver_s = 0.0
        self.cross = tier == "thorough"
        self.cross_n = {}
        self.obs = []
        self.paths = 0
        self.ended = 0          # paths that reached the end of the contract
        self.last_second = ""
        self.budget_s = budget_s
        self.notes = []

    def record(self, name, status, backend, secs, detail="", model=None):
        self.obs.append(Obligation(self.contract, name, status, backend, secs, detail, model))

    def second(self, solver):
        """Second back end for one query: cvc5 on the SMT-LIB text."""
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        exe = shutil.which("cvc5")
        self.last_second = "cvc5"
        if not exe:
            return "absent"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            lim = 20000 if self.tier == "quick" else 60000
            p = subprocess.run([exe, "--tlimit=%d" % lim, f.name], capture_output=True,
                               text=True, timeout=lim / 1000 + 10)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "error"
        except subprocess.TimeoutExpired:
            return "timeout"
        finally:
            os.unlink(f.name)

    spent = 0.0               # by the process, on third attempts

    def third(self, solver):
        """the query once more, all at once instead of step by step, with more time and other seeds"""
        for seed in (7, 23):
            if Run.spent > 150:
                return False
            t = time.time()
            z = z3.Solver()
            z.set("timeout", 3 * self.prove_ms)
            z.set("random_seed", seed)
            z.add(solver.assertions())
            r = z.check()
            Run.spent += time.time() - t
            if r != z3.unknown:
                return r == z3.unsat
        return False

    def explore(self, fn):
        t0 = time.time()
        self.pending = [[]]
        seen_fail = set()
        while self.pending:
            if self.paths >= self.max_paths or time.time() - t0 > self.budget_s:
                self.record("exploration complete", "unknown", "engine", 0.0,
                            "stopped after %d paths, %.0f s, %d pending" % (
                                self.paths, time.time() - t0, len(self.pending)))
                break
            prefix = self.pending.pop()
            ctx = Ctx(prefix, self)
            prev = Run.current
            Run.current = ctx
            self.paths += 1
            try:
                fn()
                if self.ended or ctx.feasible():
                    self.ended += 1
            except PathEnd:
                pass
            except Unsupported as exc:
                key = ("unsupported", str(exc))
                if key not in seen_fail:
                    seen_fail.add(key)
                    self.record("modelled", "unsupported", "engine", 0.0,
                                "%s\n%s" % (exc, short_tb()))
            except Exception as exc:  # an exception the contract does not allow
                if not ctx.feasible():
                    continue
                key = ("exc", type(exc).__name__, str(exc)[:80])
                if key not in seen_fail:
                    seen_fail.add(key)
                    m = None
                    if ctx.solver.check() == z3.sat:
                        m = ctx.model_inputs(ctx.solver.model())
                    self.record("no exception outside the contract", "refuted", "z3", 0.0,
                                "%s: %s\n%s" % (type(exc).__name__, exc, short_tb()), m)
            finally:
                Run.current = prev
                ctx.loops = []
            # enough failures of this contract to report
            if len([o for o in self.obs if o.status != "discharged"]) > 12:
                break
        self.wall = time.time() - t0
        if self.ended == 0 and not [o for o in self.obs if o.status != "discharged"]:
            self.record("reachability: some path satisfies the precondition and ends",
                        "refuted", "engine", 0.0, "vacuous contract")
        return self.obs


def short_tb():
    txt = traceback.format_exc().strip().splitlines()
    return "\n".join(txt[-14:])


def C():
    c = Run.current
    if c is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return c


def assume(e):
    C().assume(e)


def prove(e, name):
    return C().prove(e, name)
