"""P13: combining a pipeline with the pipelines it imports."""
from pyvc.spec import *

TRUE = Const(True)

FILE = "pipelineIR.py"
x, l, c = q1("x!q"), q1("l!q"), q1("c!q")
i, j = z3.Int("i!q"), z3.Int("j!q")


def make_ctx():
    ctx = Ctx()
    for n in ("Label", "Contract", "Instrument", "Key", "Value", "Class", "DataId", "Text", "Path"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Subset"] = ClassInfo({"subset": "set[Label]"}, "all")
    ctx.classes["Step"] = ClassInfo({"label": "Label"})
    ctx.classes["Task"] = ClassInfo({"label": "Label"}, "all")
    return ctx


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("toPipelineIR is proved for imports without renaming; renaming is checked by the bounded run",
                   "PipelineIR.subset_from_labels by contract (P14); os.path.expandvars and reading the imported file assumed")
    truthy = z3.Function("text_truthy", V, BOOL)
    ctx.classes["Text"].truthy = lambda ex, v: truthy(v.t)

    # merging two config blocks keeps the effective overrides
    def cfg(ex, n):
        rest, file = fmap(ex, n + "_rest", "Key", "Value"), fseq(ex, n + "_file", "Path")
        py, did = fval(ex, n + "_python", "Text"), fval(ex, n + "_dataId", "DataId")
        o = fobj(ex, FILE, "ConfigIR", dict(rest=rest, file=file, python=py, dataId=did))
        return o, dict(rest=ex.cell(rest), file=ex.cell(file), py=py.t, did=did.t)

    def setup_mm(ex):
        a, fa = cfg(ex, "self")
        b, fb = cfg(ex, "other")
        return dict(self=a, args=[b], a=a, b=b, fa=fa, fb=fb)

    def now(ex, o):
        f = ex.heap[o.addr].fields
        fc = ex.cell(f["file"])
        if fc.kind == "list":
            fc = ex.symbolize(fc, ("seq", ("val", "Path")))
        return dict(rest=ex.cell(f["rest"]), n=fc.n if fc.kind == "seq" else None, py=ex.box(f["python"]), did=ex.box(f["dataId"]), file=fc)

    def unchanged(ex, o, f0):
        f = now(ex, o)
        return And(All(x, And(Sel(f["rest"].dom, x) == Sel(f0["rest"].dom, x), Implies(Sel(f0["rest"].dom, x), Sel(f["rest"].vals[0], x) == Sel(f0["rest"].vals[0], x)))),
                   f["py"] == f0["py"], f["did"] == f0["did"], f["n"] == f0["file"].n)

    def post_mm(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        out = ex.cell(p.value)
        items = out.items if out.kind == "list" else None
        if items is None or not all(isinstance(v, Ref) for v in items):
            return [("yields the two config blocks or their combination", False)]
        who = [v.addr for v in items]
        a, b, fa, fb = st["a"], st["b"], st["fa"], st["fb"]
        if who == [a.addr, b.addr]:
            return [("kept in order", True), ("both blocks are kept as they are", And(unchanged(ex, a, fa), unchanged(ex, b, fb)))]
        f = now(ex, a)
        return [("combined into the first block", who == [a.addr]),
                ("only blocks without python or files, for the same data id, are combined", And(fa["did"] == fb["did"], Not(And(fa["py"] != V.none, truthy(fa["py"]))), Not(And(fb["py"] != V.none, truthy(fb["py"]))), fa["file"].n == 0, fb["file"].n == 0)),
                ("only blocks that agree on shared keys are combined", All(x, Implies(And(Sel(fa["rest"].dom, x), Sel(fb["rest"].dom, x)), Sel(fa["rest"].vals[0], x) == Sel(fb["rest"].vals[0], x)))),
                ("the combination has all overrides of both", All(x, And(Sel(f["rest"].dom, x) == Or(Sel(fa["rest"].dom, x), Sel(fb["rest"].dom, x)),
                    Implies(Sel(fa["rest"].dom, x), Sel(f["rest"].vals[0], x) == Sel(fa["rest"].vals[0], x)),
                    Implies(Sel(fb["rest"].dom, x), Sel(f["rest"].vals[0], x) == Sel(fb["rest"].vals[0], x))))),
                ("and no files, python or other data id", And(f["did"] == fa["did"], f["py"] == fa["py"], f["n"] == 0 if f["n"] is not None else False))]
    vc.function(ctx, FILE, "ConfigIR.maybe_merge", setup_mm, post_mm)

    # subsets and steps of the combined pipeline are consistent
    def setup_v(ex):
        tasks, subs, steps = fmap(ex, "tasks", "Label", "Task"), fmap(ex, "subsets", "Label", "Subset"), fseq(ex, "steps", "Step")
        o = fobj(ex, FILE, "PipelineIR", dict(tasks=tasks, labeled_subsets=subs, steps=steps))
        return dict(self=o, args=[], t=ex.cell(tasks), s=ex.cell(subs), st=ex.cell(steps))

    def post_v(ex, st, p):
        fld = ex.field_arrays("Subset", "subset", D("set[Label]"))[0][0]
        ok = And(All([x, l], Implies(And(Sel(st["s"].dom, x), Sel(Sel(fld, Sel(st["s"].vals[0], x)), l)), Sel(st["t"].dom, l))), All(x, Not(And(Sel(st["s"].dom, x), Sel(st["t"].dom, x)))))
        if p.kind == "raise":
            return [("refused only when inconsistent", And(p.value.cls == "ValueError", Not(ok)))]
        return [("subsets name tasks of the pipeline and do not share labels with them", ok)]
    vc.function(ctx, FILE, "PipelineIR._verify_labeled_subsets", setup_v, post_v)

    SLAB = z3.Function("attr!Step.label.0", V, V)

    def post_vs(ex, st, p):
        ok = All(i, Implies(And(0 <= i, i < st["st"].n), Sel(st["s"].dom, SLAB(Sel(st["st"].ats[0], i)))))
        if p.kind == "raise":
            return [("refused only when inconsistent", And(p.value.cls == "ValueError", Not(ok)))]
        return [("every step is a subset", ok)]
    vc.function(ctx, FILE, "PipelineIR._verify_steps", setup_v, post_vs)

    # which tasks an import selects, and under which labels
    ctx.stubs["os.path.expandvars"] = lambda ex, a, kw: a[0]

    def setup_imp(inc, exc):
        def go(ex):
            tasks, subs = fmap(ex, "tasks", "Label", "Task"), fmap(ex, "subsets", "Label", "Subset")
            steps, cons = fseq(ex, "steps", "Step"), fseq(ex, "contracts", "Contract")
            tc, sc = ex.cell(tasks), ex.cell(subs)
            pipe = fobj(ex, FILE, "PipelineIR", dict(tasks=tasks, labeled_subsets=subs, steps=steps, contracts=cons, instrument=fval(ex, "instrument", "Instrument")))
            y = q1("y!q")
            ex.assume(All(x, Implies(Sel(tc.dom, x), Sel(tc.vals[0], x) != V.none)))
            ex.assume(All([x, y], Implies(And(Sel(tc.dom, x), Sel(tc.dom, y), x != y), Sel(tc.vals[0], x) != Sel(tc.vals[0], y))))
            fld = ex.field_arrays("Subset", "subset", D("set[Label]"))[0][0]
            ex.assume(All([x, l], Implies(And(Sel(sc.dom, x), Sel(Sel(fld, Sel(sc.vals[0], x)), l)), Sel(tc.dom, l))))
            ctx.contracts["PipelineIR.from_uri"] = lambda ex2, a, kw: pipe
            ren = ex.alloc(DictC([]))
            rec = {}

            def subset(ex2, a, kw):
                f = dict(ex2.heap[a[0].addr].fields)
                ex2.ghost["labels"] = Sym("arr", mem(ex2, a[1]))
                rec[0] = 1
                o = fobj(ex2, FILE, "PipelineIR", dict(f))
                return o
            ctx.contracts["PipelineIR.subset_from_labels"] = subset
            I = fseq(ex, "include", "Label") if inc else NONE
            E_ = fseq(ex, "exclude", "Label") if exc else NONE
            o = fobj(ex, FILE, "ImportIR", dict(location=fval(ex, "location", "Text"), include=I, exclude=E_, rename=ren, importContracts=TRUE,
                                               importSteps=TRUE, labeledSubsetModifyMode=Sym("val", ex.fresh("mode", V), "PipelineSubsetCtrl"),
                                               instrument=Sym("val", enum_const("_Tags.KeepInstrument"), "_Tags")))
            return dict(self=o, args=[], t=tc, s=sc, fld=fld, I=ex.cell(I) if inc else None, E=ex.cell(E_) if exc else None)
        return go

    def post_imp(inc, exc):
        def go(ex, st, p):
            t, s, fld = st["t"], st["s"], st["fld"]

            def named(cell):
                direct = lambda n: Any(i, And(0 <= i, i < cell.n, Sel(cell.ats[0], i) == n))
                return lambda n: Or(direct(n), Any(x, And(Sel(s.dom, x), direct(x), Sel(Sel(fld, Sel(s.vals[0], x)), n))))
            if inc and exc:
                sel = lambda n: And(Sel(t.dom, n), z3.If(st["I"].n > 0, named(st["I"])(n), Not(named(st["E"])(n))))
            elif inc:
                sel = lambda n: And(Sel(t.dom, n), named(st["I"])(n))
            elif exc:
                sel = lambda n: And(Sel(t.dom, n), Not(named(st["E"])(n)))
            else:
                sel = lambda n: Sel(t.dom, n)
            if p.kind == "raise":
                return [("refused only when both lists name something", And(p.value.cls == "ValueError", st["I"].n > 0, st["E"].n > 0) if inc and exc else False)]
            if inc and exc:
                return [("only one of the lists names something", Or(st["I"].n == 0, st["E"].n == 0))]
            L = ex.ghost["labels"].t
            tt = ex.cell(ex.heap[p.value.addr].fields["tasks"])
            return [("exactly the selected tasks are kept", All(l, Sel(L, l) == sel(l))),
                    ("the tasks are those of the imported pipeline", All(l, And(Sel(tt.dom, l) == Sel(t.dom, l), Sel(tt.vals[0], l) == Sel(t.vals[0], l))))]
        return go
    for inc in (False, True):
        for exc in (False, True):
            vc.function(ctx, FILE, "ImportIR.toPipelineIR", setup_imp(inc, exc), post_imp(inc, exc), name=f"toPipelineIR({'include' if inc else ''}{'exclude' if exc else ''})")
