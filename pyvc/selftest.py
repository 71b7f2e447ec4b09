"""python3-vt -m pyvc.selftest: the generator's language axioms against CPython.

Each function of selftest_code.py asserts something.  CPython on all small inputs decides whether the claim is true
(ok_*) or false (bad_*); the generator has to prove every ok_* and must not prove any bad_*.
"""
import inspect
import itertools
import os
import sys

from .spec import *
from . import selftest_code as code

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "selftest_code.py")
K = "pqr"
SETS = [set(c) for n in range(3) for c in itertools.combinations(K, n)]
DICTS = [dict(zip(c, v)) for n in range(3) for c in itertools.combinations(K, n) for v in itertools.product(K[:2], repeat=n)]
LISTS = [list(c) for n in range(3) for c in itertools.product(K[:2], repeat=n)]
VALUES = dict(x=list(K), y=list(K), s=SETS, t=SETS, d=DICTS, e=DICTS, l=LISTS, m=LISTS, i=list(range(-3, 12)), j=list(range(-3, 12)), b=[False, True], c=[False, True])


def cpython(f):
    import copy
    fails = n = 0
    for vals in itertools.product(*[VALUES[p] for p in inspect.signature(f).parameters]):
        n += 1
        try:
            f(*[copy.deepcopy(v) for v in vals])      # parameters are distinct objects (an assumption of the generator)
        except AssertionError:
            fails += 1
    return n, fails


def arg(ex, p):
    if p in "xy":
        v = fval(ex, p, "Label")
        ex.assume(v.t != V.none)
        return v
    if p in "st":
        s = fset(ex, p, "Label")
        ex.assume(Not(Sel(ex.cell(s).mem, V.none)))
        return s
    if p in "de":
        m = fmap(ex, p, "Label", "Label")
        q = q1("k!s")
        ex.assume(All(q, Implies(Sel(ex.cell(m).dom, q), And(q != V.none, Sel(ex.cell(m).vals[0], q) != V.none))))
        return m
    if p in "lm":
        l = fseq(ex, p, "Label")
        i = z3.Int("i!s")
        ex.assume(z3.ForAll(i, Sel(ex.cell(l).ats[0], i) != V.none))
        return l
    if p in "ij":
        return Sym("int", ex.fresh(p, INT))
    return Sym("bool", ex.fresh(p, BOOL))


def main():
    bad = []
    und = 0
    for name, f in inspect.getmembers(code, inspect.isfunction):
        n, fails = cpython(f)
        want = name.startswith("ok_")
        if want != (fails == 0):
            bad.append(f"{name}: CPython disagrees with its name ({fails} of {n} inputs fail)")
        ctx = Ctx()
        ctx.classes["Label"] = ClassInfo()
        vc = VC("selftest")
        vc.jobs = 1
        vc.function(ctx, FILE, name, lambda ex: dict(args=[arg(ex, p) for p in inspect.signature(f).parameters]), lambda ex, st, p: [("claim", p.kind != "raise" or p.value.cls != "AssertionError")])
        proved = bool(vc.obls) and all(o.status == "valid" for o in vc.obls) and not vc.undecided
        if vc.undecided:
            und += 1
        if proved and fails:
            bad.append(f"{name}: proved, but false in CPython")
        if want and not proved:
            print("not proved:", name, [w for _, w in vc.undecided][:1] or [o.name for o in vc.obls if o.status != "valid"])
        print(name, "inputs", n, "proved" if proved else "refused" if not vc.undecided else "undecided")
    for b in bad:
        print("SELFTEST FAILURE", b)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
