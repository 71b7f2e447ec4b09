"""Contracts, obligations and the evidence they produce."""
from __future__ import annotations

import ast
import hashlib
import json
import os
import resource
import select
import signal
import time
import traceback
import z3

from . import smt, engine as E
from .smt import V, INT, BOOL, REAL, VSET, str_const, enum_const, obj_const, card
from .values import *
from .engine import Exec, Func, get_module, Snapshot, PathAbort, Fail
from .containers import Dom, Concrete, set_dom, FALSE_SET
from . import loops


class ClassInfo:
    """Contract of a class whose instances are opaque values."""

    def __init__(self, attrs=None, mutable=(), methods=None, truthy=None, repo=None):
        self.attrs = {k: D(v) for k, v in (attrs or {}).items()}
        self.mutable = set(self.attrs) if mutable == "all" else set(mutable)
        self.methods = methods or {}
        self.truthy = truthy
        self.repo = repo


class Ctx:
    def __init__(self):
        self.classes = {}
        self.globals_ = {}
        self.stubs = {}
        self.contracts = {}
        self.constructors = {}
        self.verifying = None
        self.executed = set()
        self.exc_parent = {}
        self.noop_names = set()
        self.attr_hook = None
        self.isinstance_hook = None
        self.binop_hook = None
        self.eq_hook = None
        self.order_hook = None
        self.loop_hooks = {}
        self.while_invs = {}
        self.loop_skip = {}         # loop name -> prefixes of derived candidate invariants not worth trying
        self.ann_types = {}
        self.track_card = False
        self.enum_as_set = False
        self.default_list_desc = ("val", "?")


class Obligation:
    def __init__(self, name, status, backend="", secs=0.0, info=""):
        self.name, self.status, self.backend, self.secs, self.info = name, status, backend, secs, info


def find_func(path, qual):
    m = get_module(path)
    parts = qual.split(".")
    if len(parts) == 1:
        if parts[0] not in m.funcs:
            raise Unsupported(f"function {qual} not found in {path}")
        return Func(m.funcs[parts[0]], m)
    r = m.find_method(parts[0], parts[1])
    if r is None:
        raise Unsupported(f"method {qual} not found in {path}")
    return Func(r[0], r[2], r[1])


class OutOfTime(BaseException):
    pass


def _alarm(*_):
    raise OutOfTime


class VC:
    """Collects obligations for one property."""

    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.obls = []
        self.undecided = []
        self.functions = {}
        self.assumptions = []
        self.only = None
        self.timeout = 8000 if tier == "quick" else 30000
        self.paths = 0
        self.t0 = time.time()
        self.jobs = int(os.environ.get("PYVC_JOBS", "6"))
        self.children, self.slots = [], []
        self.soft = 230 if tier == "quick" else 1100      # wall seconds per function under contract
        self.hard = time.time() + (335 if tier == "quick" else 1700)

    # -- assumptions ------------------------------------------------------------
    def assume_note(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    # -- obligations ------------------------------------------------------------
    def prove(self, name, pcs, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t0 = time.time()
        g = goal if smt.has_quant_cached(goal) else z3.simplify(goal)
        if z3.is_true(g):
            self.obls.append(Obligation(name, "valid", "simplifier", time.time() - t0))
            return True
        st, be, info = smt.check_valid(pcs, goal, self.timeout)
        self.obls.append(Obligation(name, st, be, time.time() - t0, info))
        return st == "valid"

    def lemma(self, name, assumptions, goal):
        return self.prove(name, list(assumptions), goal)

    def group(self, name, fn):
        """Run fn; leaving the supported subset makes the group undecided instead of failing the check."""
        try:
            fn()
        except Unsupported as e:
            self.undecided.append((name, f"outside the verifier's subset: {e}"))
        except Fail as e:
            self.obls.append(Obligation(f"{name}/{e.name}", "unknown", "", 0, str(e.info)))
        except OutOfTime:
            self.undecided.append((name, "the verifier's time limit for one function ran out"))
        except PathAbort:
            self.undecided.append((name, "precondition unsatisfiable"))
        except RecursionError:
            self.undecided.append((name, "recursion limit in translator"))
        except Exception as e:    # translator defect: never an alarm
            self.undecided.append((name, f"translator error: {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6)))

    # -- one process per function under contract --------------------------------------
    def function(self, *a, **k):
        if self.jobs <= 1:
            return self.function_here(*a, **k)
        while len(self.children) >= self.jobs:
            self.reap(1)
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            self.children.append((pid, r, len(self.slots), k.get("name") or a[2], time.time() + self.soft + 45))
            self.slots.append(None)
            return
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, self.soft, 2)
            self.obls, self.undecided, self.functions, self.paths = [], [], {}, 0
            n0 = (smt.STATS.queries, smt.STATS.time)
            smt.STATS.__init__()
            for key in loops.STAT:
                loops.STAT[key] = 0
            self.function_here(*a, **k)
            signal.alarm(0)
            out = dict(obls=[(o.name, o.status, o.backend, o.secs, o.info) for o in self.obls], undecided=self.undecided, functions=self.functions, paths=self.paths,
                       queries=smt.STATS.queries, time=smt.STATS.time, by=smt.STATS.by, loops=dict(loops.STAT))
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(out, default=str).encode())
                f.flush()
        finally:
            os._exit(0)

    def reap(self, n=None):
        while self.children and (n is None or n > 0):
            ready, _, _ = select.select([c[1] for c in self.children], [], [], 5)
            for c in self.children:
                if time.time() > min(c[4], self.hard) and c[1] not in ready:
                    try:
                        os.kill(c[0], signal.SIGKILL)      # its pipe closes and it counts as died
                    except ProcessLookupError:
                        pass
            for c in list(self.children):
                if c[1] in ready:
                    data = b""
                    while True:
                        x = os.read(c[1], 1 << 16)
                        if not x:
                            break
                        data += x
                    os.close(c[1])
                    os.waitpid(c[0], 0)
                    self.children.remove(c)
                    self.slots[c[2]] = (c[3], data)
                    if n is not None:
                        n -= 1

    def finish(self):
        self.reap()
        for nm, data in self.slots:
            try:
                d = json.loads(data)
            except Exception:
                self.undecided.append((nm, "verifier process died"))
                continue
            self.obls += [Obligation(*o) for o in d["obls"]]
            self.undecided += [tuple(x) for x in d["undecided"]]
            for k, v in d["functions"].items():
                if k not in self.functions or self.functions[k]["sha"] == "inlined":
                    self.functions[k] = v
                elif v["sha"] != "inlined":
                    self.functions[k]["paths"] += v["paths"]
                    self.functions[k]["obligations"] += v["obligations"]
            self.paths += d["paths"]
            smt.STATS.queries += d["queries"]
            smt.STATS.time += d["time"]
            for k, v in d["by"].items():
                smt.STATS.by[k] = smt.STATS.by.get(k, 0) + v
            for k, v in d["loops"].items():
                loops.STAT[k] = loops.STAT.get(k, 0) + v
        self.slots = []

    def function_here(self, ctx, path, qual, setup, post, name=None, raises=None, min_paths=1):
        """Verify one function: setup(ex) -> dict(args=[...], kw={}, ...), post(ex, st, path) -> [(name, goal)].

        Each path of the real body is executed symbolically; every goal must follow from the path condition.
        """
        nm = name or qual

        def go():
            f = find_func(path, qual)
            ex = Exec(ctx)
            ctx.verifying = qual
            st = setup(ex)
            if f.cls is not None and st.get("self") is not None:
                f = Func(f.node, f.mod, f.cls, st["self"])
            fi = self.functions.setdefault(f"{path}:{qual}", dict(sha=hashlib.sha256(ast.unparse(f.node).encode()).hexdigest()[:16], paths=0, obligations=0))
            n0 = len(ctx.executed)
            st["old"] = Snapshot(ex)
            paths = ex.explore(lambda: ex.call(f, st.get("args", []), st.get("kw", {})))
            live = 0
            if len(paths) < min_paths:
                self.undecided.append((nm, "no path through the function (vacuous)"))
                return
            for n, p in enumerate(paths):
                ex.restore(p.snap)
                goals = post(ex, st, p)
                pcs = [x for _, x in ex.pc]
                s = z3.SimpleSolver()
                s.set("mbqi", False)
                s.set("timeout", 2000)
                s.add(*smt.background())
                s.add(*pcs)
                if s.check() == z3.unsat:
                    continue        # infeasible path
                live += 1
                fi["paths"] += 1
                self.paths += 1
                for gname, g in goals:
                    fi["obligations"] += 1
                    self.prove(f"{nm}[path {n}:{p.kind}{':' + p.value.cls if p.kind == 'raise' else ''}]/{gname}", pcs, g)
            if live < min_paths:
                self.undecided.append((nm, "every path is infeasible (vacuous contract)"))
        self.group(nm, go)
        for pth, q in ctx.executed:
            k = f"{pth.replace(E.BASE + '/', '')}:{q}"
            self.functions.setdefault(k, dict(sha="inlined", paths=0, obligations=0))

    # -- results --------------------------------------------------------------------
    def failed(self):
        return [o for o in self.obls if o.status != "valid"]


# ------------------------------------------------------------------------------------- helpers for contracts

def fset(ex, name, d="val"):
    """A fresh symbolic set (Ref)."""
    d = D(d) if isinstance(d, str) and d != "val" else ("val", "?") if d == "val" else d
    return ex.alloc(SetC(ex.fresh(name, VSET), d))


def fmap(ex, name, k, v, default=None):
    k, v = D(k), D(v)
    c = cell_from_terms(("map", k, v), fresh_terms(ex.fresh, name, ("map", k, v)))
    c.default = default
    return ex.alloc(c)


def fseq(ex, name, d):
    d = D(d)
    c = cell_from_terms(("seq", d), fresh_terms(ex.fresh, name, ("seq", d)))
    ex.assume(c.n >= 0)
    return ex.alloc(c)


def fval(ex, name, ty):
    d = D(ty)
    return ex.unpack(d, fresh_terms(ex.fresh, name, d))


def fobj(ex, path, cls, fields):
    m = get_module(path)
    if cls not in m.classes:
        raise Unsupported(f"class {cls} not found in {path}")
    return ex.alloc(ObjC(ClassVal(cls, m, m.classes[cls]), dict(fields)))


def mem(ex, ref):
    c = ex.cell(ref)
    if c.kind == "set":
        return c.mem
    if c.kind == "map":
        return c.dom
    return ex.as_set(ref).mem


def q1(name="q"):
    return z3.Const(name, V)


def All(vs, body, pats=None):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if pats:
        try:
            return z3.ForAll(list(vs), body, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


def Any(vs, body):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.Exists(list(vs), body)


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
Sel = z3.Select


def old(st, ref, ex):
    """The cell ref had in the pre-state."""
    return st["old"].heap[ref.addr]


def stub_method(fn):
    return fn
