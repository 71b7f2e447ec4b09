"""Sorts, value encoding and solver access for the pyvc verification-condition generator."""
from __future__ import annotations

import time
import z3

Obj = z3.DeclareSort("Obj")
Str = z3.DeclareSort("Str")

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("vint", ("i", z3.IntSort()))
_V.declare("vreal", ("r", z3.RealSort()))
_V.declare("vbool", ("b", z3.BoolSort()))
_V.declare("vstr", ("s", Str))
_V.declare("vnil")
_V.declare("vcons", ("hd", _V), ("tl", _V))
_V.declare("vobj", ("o", Obj))
_V.declare("venum", ("e", z3.IntSort()))
V = _V.create()

INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
VSET = z3.ArraySort(V, BOOL)

_strs: dict[str, z3.ExprRef] = {}
_enums: dict[str, int] = {}
_objs: dict[str, z3.ExprRef] = {}


def str_const(s: str) -> z3.ExprRef:
    if s not in _strs:
        _strs[s] = z3.Const(f"str!{len(_strs)}!{s[:24]!r}", Str)
    return V.vstr(_strs[s])


def enum_const(name: str) -> z3.ExprRef:
    if name not in _enums:
        _enums[name] = len(_enums)
    return V.venum(_enums[name])


def obj_const(name: str) -> z3.ExprRef:
    """A named singleton object (class, module-level sentinel, ...)."""
    if name not in _objs:
        _objs[name] = z3.Const(f"obj!{name}", Obj)
    return V.vobj(_objs[name])


def background() -> list:
    out = []
    if len(_strs) > 1:
        out.append(z3.Distinct(*_strs.values()))
    if len(_objs) > 1:
        out.append(z3.Distinct(*_objs.values()))
    return out


def tup_term(items) -> z3.ExprRef:
    t = V.vnil
    for x in reversed(list(items)):
        t = V.vcons(x, t)
    return t


def tup_proj(t, i):
    for _ in range(i):
        t = V.tl(t)
    return V.hd(t)


_card = z3.Function("card", VSET, INT)


def card(mem):
    return _card(mem)


def has_quant(e) -> bool:
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


def consts_of(e, acc=None, seen=None) -> set:
    """Names of the uninterpreted constants / functions occurring in e."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            todo.extend(x.children())
    return acc


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def add(self, be, dt):
        self.queries += 1
        self.time += dt
        self.by[be] = self.by.get(be, 0) + 1


STATS = Stats()
TIMEOUT_MS = 20000


def check_valid(assumptions, goal, timeout=None, want_model=False):
    """Return (status, backend, info): status in 'valid', 'invalid', 'unknown'."""
    timeout = timeout or TIMEOUT_MS
    bg = background()
    attempts = [
        ("z3", {"smt.mbqi": False, "smt.random_seed": 1}, max(timeout // 4, 1500)),
        ("z3-mbqi", {"smt.mbqi": True, "smt.random_seed": 3}, timeout),
        ("z3-alt", {"smt.mbqi": True, "smt.random_seed": 17, "smt.relevancy": 0}, timeout),
    ]
    reason = ""
    for name, params, tmo in attempts:
        t0 = time.time()
        s = z3.SimpleSolver()
        for k, v in params.items():
            s.set(k.replace("smt.", ""), v)
        s.set("rlimit", int(tmo * 4000))
        s.set("timeout", int(tmo) * 3)
        s.add(*bg)
        s.add(*assumptions)
        s.add(z3.Not(goal))
        r = s.check()
        STATS.add(name, time.time() - t0)
        if r == z3.unsat:
            return "valid", name, ""
        if r == z3.sat:
            m = s.model()
            return "invalid", name, str(m)[:4000]
        reason = s.reason_unknown()
        if name == "z3-mbqi":
            st = cvc5_valid(bg + list(assumptions), goal, min(timeout, 15000))
            if st == "valid":
                return "valid", "cvc5", ""
            if st == "invalid":
                return "invalid", "cvc5", "sat (cvc5)"
    return "unknown", "z3+cvc5", reason


def cvc5_valid(assumptions, goal, timeout_ms):
    import subprocess
    s = z3.Solver()
    s.add(*assumptions)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "-"], input=txt,
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
    except Exception:
        out = []
    STATS.add("cvc5", time.time() - t0)
    if out and out[0] == "unsat":
        return "valid"
    if out and out[0] == "sat":
        return "invalid"
    return "unknown"


_feas_cache: dict = {}
_feas_keep: list = []


def feasible(pc) -> bool:
    """Cheap satisfiability of the quantifier-free part of pc (unknown counts as feasible)."""
    qf = [p for p in pc if not has_quant_cached(p)]
    key = frozenset(p.get_id() for p in qf)
    if key in _feas_cache:
        return _feas_cache[key]
    t0 = time.time()
    s = z3.SimpleSolver()
    s.set("timeout", 1500)
    s.add(*background())
    s.add(*qf)
    r = s.check() != z3.unsat
    STATS.add("z3-feas", time.time() - t0)
    _feas_cache[key] = r
    _feas_keep.append(qf)
    return r


_hq: dict = {}
_hq_keep: list = []


def has_quant_cached(e) -> bool:
    i = e.get_id()
    if i not in _hq:
        _hq[i] = has_quant(e)
        _hq_keep.append(e)
    return _hq[i]
