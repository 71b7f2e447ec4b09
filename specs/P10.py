"""P10: the blocking butler reports a dataset missing only after its timeout has really elapsed."""
from pyvc.spec import *

FILE = "blocking_limited_butler.py"
x, y = q1("x!q"), q1("y!q")
IDA = z3.Function("attr!Ref.id.0", V, V)
DTA = z3.Function("attr!Ref.datasetType.0", V, V)
PARENT = z3.Function("parent_dataset_type_name", V, V)


def make_ctx():
    ctx = Ctx()
    ctx.classes["DatasetType"] = ClassInfo({}, (), {"nameAndComponent": lambda ex, a, kw: Tup([Sym("val", PARENT(a[0].t), "Name"), Sym("val", z3.Function("component_name", V, V)(a[0].t), "Name")])})
    ctx.classes["Ref"] = ClassInfo({"datasetType": "DatasetType", "id": "Id"})
    for n in ("Name", "Id", "Obj_", "Params"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Clock"] = ClassInfo({"now": "real"}, "all")
    ctx.classes["Wrapped"] = ClassInfo({"found": "set[Ref]", "last": "Obj_", "args": "Obj_"}, "all", {})
    clk = Sym("val", z3.Const("the_clock", V), "Clock")

    def now(ex):
        return Sel(ex.field_arrays("Clock", "now", D("real"))[0][0], clk.t)
    ctx.now = now

    def advance(ex, least):
        t = ex.fresh("now", REAL)
        ex.assume(t >= now(ex) + least)
        ex.write_field(clk.t, "Clock", "now", Sym("real", t), D("real"))
        return Sym("real", t)
    ctx.stubs["time.time"] = lambda ex, a, kw: advance(ex, 0)

    def sleep(ex, a, kw):
        d = ex.as_real(a[0]) if hasattr(ex, "as_real") else z3.RealVal(str(a[0].v))
        advance(ex, If(d > 0, d, 0))
        return NONE
    ctx.stubs["time.sleep"] = sleep

    def w_get(ex, a, kw):
        advance(ex, 0)
        ok = [a[1].t == ctx.ref.t, ex.box(kw.get("parameters", NONE)) == ctx.par, ex.box(kw.get("storageClass", NONE)) == ctx.sc]
        ex.assert_("the wrapped butler is asked for the requested read", And(*ok)) if hasattr(ex, "assert_") else None
        if ex.choose():
            if ex.choose():
                ex.raise_("FileNotFoundError")
            ex.raise_("OSError")
        o = ex.fresh("obj", V)
        ex.write_field(ctx.w.t, "Wrapped", "last", Sym("val", o, "Obj_"), D("Obj_"))
        ex.write_field(ctx.w.t, "Wrapped", "args", Sym("val", If(And(*ok), V.vbool(True), V.none), "Obj_"), D("Obj_"))
        return Sym("val", o, "Obj_")

    def found(ex):
        return Sel(ex.field_arrays("Wrapped", "found", D("set[Ref]"))[0][0], ctx.w.t)
    ctx.found = found

    def w_many(ex, a, kw):
        advance(ex, 0)
        refs = ex.as_set(a[1]).mem
        r = fmap(ex, "stored_many", "Ref", "bool")
        c = ex.cell(r)
        ex.assume(All(x, Sel(c.dom, x) == Sel(refs, x)))
        f = ex.fresh("found", VSET)
        ex.assume(All(x, Sel(f, x) == Or(Sel(found(ex), x), And(Sel(refs, x), Sel(c.vals[0], x)))))
        ex.write_field(ctx.w.t, "Wrapped", "found", ex.alloc(SetC(f, ("val", "Ref"))), D("set[Ref]"))
        return r
    ctx.classes["Wrapped"].methods.update({"get": w_get, "stored_many": w_many})
    return ctx


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("time.time never goes backwards and time.sleep(d) lasts at least d; real arithmetic for the float clock",
                   "the wrapped butler may answer anything at any time (datasets appear and disappear), and answers exactly the refs it is asked about",
                   "timeouts are floats or None; refs with the same dataset id have the same parent dataset type (butler invariant)")

    def base(ex):
        ctx.w = Sym("val", ex.fresh("wrapped", V), "Wrapped")
        ex.assume(ctx.w.t != V.none)
        tm = fmap(ex, "timeouts", "Name", "Timeout")
        c = ex.cell(tm)
        ex.assume(All(x, Implies(Sel(c.dom, x), Or(Sel(c.vals[0], x) == V.none, V.is_vreal(Sel(c.vals[0], x))))))
        b = fobj(ex, FILE, "BlockingLimitedButler", dict(_wrapped=ctx.w, _timeouts=tm))
        eff = lambda dt: If(Sel(c.dom, PARENT(dt)), Sel(c.vals[0], PARENT(dt)), V.vreal(0))
        return b, eff

    def clocks(ex2, fr, mode, t0):
        if mode == "init":
            ctx.clockvars = [k for k, v in fr.items() if isinstance(v, Sym) and v.kind == "real"]
        return [("time moves on", And(t0 <= ctx.now(ex2), *[And(t0 <= fr[k].t, fr[k].t <= ctx.now(ex2)) for k in ctx.clockvars]))]

    def setup_get(ex):
        b, eff = base(ex)
        r = fval(ex, "ref", "Ref")
        par, sc = fval(ex, "parameters", "Params"), fval(ex, "storageClass", "Params")
        ctx.ref, ctx.par, ctx.sc = r, par.t, sc.t
        t0 = ctx.now(ex)
        ctx.while_invs["get"] = lambda ex2, fr, mode: clocks(ex2, fr, mode, t0)
        return dict(self=b, args=[r], kw=dict(parameters=par, storageClass=sc), t0=t0, eff=eff, r=r)

    def post_get(ex, st, path):
        t = st["eff"](DTA(st["r"].t))
        if path.kind == "raise":
            if path.value.cls == "FileNotFoundError":
                return [("missing is reported only after the timeout has elapsed", And(t != V.none, ctx.now(ex) - st["t0"] > V.r(t)))]
            return [("other failures are the wrapped butler's", path.value.cls == "OSError")]
        last = Sel(ex.field_arrays("Wrapped", "last", D("Obj_"))[0][0], ctx.w.t)
        args = Sel(ex.field_arrays("Wrapped", "args", D("Obj_"))[0][0], ctx.w.t)
        return [("the answer is the wrapped butler's latest answer to this very request", And(ex.box(path.value) == last, args == V.vbool(True)))]
    vc.function(ctx, FILE, "BlockingLimitedButler.get", setup_get, post_get, min_paths=3)

    def setup_many(ex):
        b, eff = base(ex)
        refs = fseq(ex, "refs", "Ref")
        ex.assume(All([x, y], Implies(IDA(x) == IDA(y), PARENT(DTA(x)) == PARENT(DTA(y))), [z3.MultiPattern(IDA(x), IDA(y))]))
        ex.write_field(ctx.w.t, "Wrapped", "found", ex.alloc(SetC(z3.K(V, z3.BoolVal(False)), ("val", "Ref"))), D("set[Ref]"))
        t0 = ctx.now(ex)
        want = ex.as_set(refs).mem

        def winv(ex2, fr, mode):
            if mode == "init":
                ctx.resname = [k for k, v in fr.items() if isinstance(v, Ref) and getattr(ex2.heap[v.addr], "kind", "") == "map" and ex2.heap[v.addr].desc[2] == ("bool",)]
            c = ex2.cell(fr[ctx.resname[0]])
            return clocks(ex2, fr, mode, t0) + [("answers exactly the requested refs", All(x, Sel(c.dom, x) == Sel(want, x))),
                    ("positive answers were found", All(x, Implies(And(Sel(c.dom, x), Sel(c.vals[0], x)), Sel(ctx.found(ex2), x))))]
        ctx.while_invs["stored_many"] = winv
        return dict(self=b, args=[refs], t0=t0, eff=eff, want=want)

    def post_many(ex, st, path):
        if path.kind == "raise":
            return [("no failure", False)]
        c = ex.cell(path.value)
        t = st["eff"](DTA(x))
        return [("exactly the requested refs are answered", All(x, Sel(c.dom, x) == Sel(st["want"], x))),
                ("a positive answer was given by the wrapped butler", All(x, Implies(And(Sel(c.dom, x), Sel(c.vals[0], x)), Sel(ctx.found(ex), x)))),
                ("missing is reported only after the timeout has elapsed", All(x, Implies(And(Sel(c.dom, x), Not(Sel(c.vals[0], x))), And(t != V.none, ctx.now(ex) - st["t0"] > V.r(t)))))]
    vc.function(ctx, FILE, "BlockingLimitedButler.stored_many", setup_many, post_many)
