"""P06: existing outputs of a quantum decide whether it is skipped, refused or run."""
from pyvc.spec import *
from specs.sqe import *


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("the butler is a set of stored datasets: stored and stored_many answer from it, pruneDatasets removes exactly the given datasets",
                   "a quantum has exactly one metadata output and, if its task logs, exactly one log output (quantum graph construction)",
                   "reading back the previous attempt's log does not fail and changes nothing in the butler")

    def s_c(ex):
        q, t, b, m, l, log, O = quantum(ex, ctx)
        o = executor(ex)
        e = fval(ex, "log_extra", "Extra")
        ex.assume(e.t != V.none)
        ex.ghost["attached"] = V.none
        return dict(self=o, args=[q, t, b, e], b=b, have0=ctx.have(ex, b), m=m, l=l, log=log, O=O, f={k: ex.heap[o.addr].fields[k].t for k in ("_assume_no_existing_outputs", "_skip_existing", "_clobber_outputs")})

    def p_c(ex, st, p):
        a, s, c = (st["f"][k] for k in ("_assume_no_existing_outputs", "_skip_existing", "_clobber_outputs"))
        h0, h, O = st["have0"], ctx.have(ex, st["b"]), st["O"]
        done = And(Not(a), s, Sel(h0, st["m"]))
        some = Any(x, And(O(x), Sel(h0, x)))
        same = All(x, Sel(h, x) == Sel(h0, x))
        if p.kind == "raise":
            return [("refused with a RuntimeError", p.value.cls == "RuntimeError"), ("refused only if outputs exist, it is neither skipped nor clobbered", And(Not(a), Not(done), some, Not(c))), ("nothing is removed", same)]
        r = ex.as_bool(p.value)
        old = And(Not(a), Not(done), st["log"].t != V.none, Sel(h0, st["l"]))
        return [("skipped exactly if its metadata is stored and skipping is on", r == done), ("nothing is removed when it is skipped", Implies(r, same)),
                ("no output remains in the way when it runs", Implies(And(Not(r), Not(a)), All(x, Implies(O(x), Not(Sel(h, x)))))), ("only its outputs are removed", All(x, Implies(Not(O(x)), Sel(h, x) == Sel(h0, x)))),
                ("nothing new appears", All(x, Implies(Sel(h, x), Sel(h0, x)))), ("outputs are removed only when clobbering", Implies(Not(c), same)), ("the caller's assumption is taken", Implies(a, And(Not(r), same))),
                ("the log of an earlier attempt is kept exactly if there is one", Implies(Not(r), ex.ghost["attached"] == If(old, z3.Function("content", V, V)(st["l"]), V.none)))]
    vc.function(ctx, FILE, "SingleQuantumExecutor._check_existing_outputs", s_c, p_c)
