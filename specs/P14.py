"""P14: a pipeline reduced to some labels has exactly those tasks and only self-consistent subsets, steps and contracts."""
from pyvc.spec import *

FILE = "pipelineIR.py"
x, l, c = q1("x!q"), q1("l!q"), q1("c!q")
i, j = z3.Int("i!q"), z3.Int("j!q")
SLAB = z3.Function("attr!Step.label.0", V, V)
mentions = z3.Function("contract_mentions", V, V, BOOL)
dc = z3.Function("deepcopied", V, V)
DROP, EDIT = enum_const("PipelineSubsetCtrl.DROP"), enum_const("PipelineSubsetCtrl.EDIT")


def make_ctx():
    ctx = Ctx()
    for n in ("Label", "Task", "str"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Contract"] = ClassInfo({"contract": "str"})
    ctx.classes["Pruned"] = ClassInfo({"labels": "set[Label]"}, "all")
    ctx.classes["Step"] = ClassInfo({"label": "Label"})
    ctx.classes["Subset"] = ClassInfo({"subset": "set[Label]"}, "all")

    def deepcopy(ex, a, kw):
        src = ex.heap[a[0].addr]
        f = src.fields
        out = {}
        for name, r in f.items():
            cell = ex.cell(r)
            if name == "labeled_subsets":
                m = fmap(ex, "subsets_copy", "Label", "Subset")
                mc = ex.cell(m)
                # a deep copy: new subset objects with the same members
                fld = ex.field_arrays("Subset", "subset", D("set[Label]"))[0][0]
                ex.assume(All(x, And(Sel(mc.dom, x) == Sel(cell.dom, x), Implies(Sel(cell.dom, x), Sel(mc.vals[0], x) == dc(Sel(cell.vals[0], x)))), [Sel(mc.dom, x)]))
                ex.assume(All(x, Implies(Sel(cell.dom, x), And(Sel(fld, dc(Sel(cell.vals[0], x))) == Sel(fld, Sel(cell.vals[0], x)), dc(Sel(cell.vals[0], x)) != V.none)), [Sel(cell.vals[0], x)]))
                y = q1("y!q")
                ex.assume(All([x, y], Implies(And(Sel(cell.dom, x), Sel(cell.dom, y)), And(dc(Sel(cell.vals[0], x)) != Sel(cell.vals[0], y), Implies(x != y, dc(Sel(cell.vals[0], x)) != dc(Sel(cell.vals[0], y)))))))
                out[name] = m
            else:
                out[name] = ex.alloc(cell_from_terms(cell.desc, cell.terms()))
        return ex.alloc(ObjC(src.cls, out))
    ctx.stubs["copy.deepcopy"] = deepcopy

    def matcher(ex, a, kw):
        # whatever the pattern, it must decide whether the text names the label (which the bounded run checks)
        return Sym("bool", mentions(ctx.lab, ex.box(a[1])))
    for n in ("match", "search", "fullmatch"):
        ctx.stubs["re." + n] = matcher
    ctx.stubs["re.escape"] = lambda ex, a, kw: a[0]
    ctx.stubs["re.compile"] = lambda ex, a, kw: Sym("val", ex.fresh("pattern", V), "Pattern")
    ctx.classes["Pattern"] = ClassInfo({}, (), {"match": matcher, "search": matcher})
    return ctx


CTXT = z3.Function("attr!Contract.contract.0", V, V)


def members(ex, cell):
    """The members of a sequence cell."""
    if cell.kind == "list":
        cell = ex.symbolize(cell, ("seq", ("val", "?")))
    return lambda v: Any(j, And(0 <= j, j < cell.n, Sel(cell.ats[0], j) == v))


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("copy.deepcopy returns an independent copy (new subset objects with the same members)",
                   "the regular expression of _remove_contracts decides whether a contract names the label (checked by the bounded run)",
                   "within one pipeline different labels have different subset objects")

    # _remove_contracts keeps exactly the contracts that do not match
    def setup_rm(ex):
        cs = fseq(ex, "contracts", "Contract")
        o = fobj(ex, FILE, "PipelineIR", dict(contracts=cs))
        lab = fval(ex, "label", "Label")
        ctx.lab = lab.t
        return dict(self=o, args=[lab], lab=lab.t, cs=cs)

    def post_rm(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        oc = st["old"].heap[st["cs"].addr]
        new = members(ex, ex.cell(ex.heap[st["self"].addr].fields["contracts"]))
        was = lambda v: Any(j, And(0 <= j, j < oc.n, Sel(oc.ats[0], j) == v))
        return [("remaining contracts were there and do not name the label", All(c, Implies(new(c), And(was(c), Not(mentions(st["lab"], CTXT(c))))))),
                ("contracts that do not name the label stay", All(i, Implies(And(0 <= i, i < oc.n, Not(mentions(st["lab"], CTXT(Sel(oc.ats[0], i))))), new(Sel(oc.ats[0], i)))))]
    vc.function(ctx, FILE, "PipelineIR._remove_contracts", setup_rm, post_rm)

    # subset_from_labels
    PR = z3.Const("the_pruning", V)

    def pruned(ex):
        return Sel(ex.field_arrays("Pruned", "labels", D("set[Label]"))[0][0], PR)

    def rm_contract(ex, a, kw):
        # filtering by one label after the other is filtering by the set of labels: only that set matters
        cur = pruned(ex)
        ex.write_field(PR, "Pruned", "labels", ex.alloc(SetC(z3.Store(cur, ex.box(a[1]), z3.BoolVal(True)), ("val", "Label"))), D("set[Label]"))
        return NONE

    def setup(mode):
        def go(ex):
            ctx.contracts["PipelineIR._remove_contracts"] = rm_contract
            tasks, subs, steps = fmap(ex, "tasks", "Label", "Task"), fmap(ex, "subsets", "Label", "Subset"), fseq(ex, "steps", "Step")
            ex.assume(All(x, Not(Sel(pruned(ex), x))))
            sc = ex.cell(subs)
            y = q1("y!q")
            ex.assume(All(x, Implies(Sel(sc.dom, x), Sel(sc.vals[0], x) != V.none)))
            ex.assume(All([x, y], Implies(And(Sel(sc.dom, x), Sel(sc.dom, y), x != y), Sel(sc.vals[0], x) != Sel(sc.vals[0], y))))
            o = fobj(ex, FILE, "PipelineIR", dict(tasks=tasks, labeled_subsets=subs, steps=steps))
            spec = fset(ex, "labels", "Label")
            fld = ex.field_arrays("Subset", "subset", D("set[Label]"))[0][0]
            tc = ex.cell(tasks)
            # the pipeline is well formed: subsets name tasks, labels of tasks and subsets are disjoint, steps are subsets
            ex.assume(All([x, l], Implies(And(Sel(sc.dom, x), Sel(Sel(fld, Sel(sc.vals[0], x)), l)), Sel(tc.dom, l))))
            ex.assume(All(x, Not(And(Sel(sc.dom, x), Sel(tc.dom, x)))))
            return dict(self=o, args=[spec, Sym("val", mode, "PipelineSubsetCtrl")], f=dict(tasks=tc, subs=sc, steps=ex.cell(steps)), spec=ex.cell(spec).mem, fld=fld)
        return go

    def post(mode):
        def go(ex, st, p):
            f, fld = st["f"], st["fld"]
            sub0 = lambda n: Sel(fld, Sel(f["subs"].vals[0], n))
            want = lambda n: Or(And(Sel(st["spec"], n), Sel(f["tasks"].dom, n)), Any(x, And(Sel(st["spec"], x), Sel(f["subs"].dom, x), Sel(sub0(x), n))))
            unknown = Any(x, And(Sel(st["spec"], x), Not(Sel(f["tasks"].dom, x)), Not(Sel(f["subs"].dom, x))))
            nfld = ex.field_arrays("Subset", "subset", D("set[Label]"))[0][0]
            me = ex.heap[st["self"].addr].fields
            intact = [("the original pipeline keeps its tasks and subsets", And(All(x, And(Sel(mem(ex, me["tasks"]), x) == Sel(f["tasks"].dom, x), Sel(mem(ex, me["labeled_subsets"]), x) == Sel(f["subs"].dom, x))),
                                                                                 All([x, l], Implies(Sel(f["subs"].dom, x), Sel(Sel(nfld, Sel(f["subs"].vals[0], x)), l) == Sel(sub0(x), l)))))]
            if p.kind == "raise":
                return intact + [("refused only for labels that are in neither tasks nor subsets", And(p.value.cls == "ValueError", unknown))]
            r = ex.heap[p.value.addr].fields
            t = ex.cell(r["tasks"])
            s = ex.cell(r["labeled_subsets"])
            steps = members(ex, ex.cell(r["steps"]))
            new = lambda n: Sel(nfld, Sel(s.vals[0], n))
            out = intact + [("every unknown label is refused", Not(unknown)),
                            ("exactly the requested tasks remain", All(l, Sel(t.dom, l) == want(l))),
                            ("remaining tasks are unchanged", All(l, Implies(Sel(t.dom, l), Sel(t.vals[0], l) == Sel(f["tasks"].vals[0], l)))),
                            ("no new subsets", All(l, Implies(Sel(s.dom, l), Sel(f["subs"].dom, l)))),
                            ("remaining subsets name remaining tasks only", All([l, x], Implies(And(Sel(s.dom, l), Sel(new(l), x)), Sel(t.dom, x)))),
                            ("remaining steps are exactly those of remaining subsets", And(
                                All(x, Implies(steps(x), And(Sel(s.dom, SLAB(x)), Any(j, And(0 <= j, j < f["steps"].n, Sel(f["steps"].ats[0], j) == x))))),
                                All(i, Implies(And(0 <= i, i < f["steps"].n, Sel(s.dom, SLAB(Sel(f["steps"].ats[0], i)))), steps(Sel(f["steps"].ats[0], i)))))),
                            ("contracts are pruned for exactly the removed tasks", All(x, Sel(pruned(ex), x) == And(Sel(f["tasks"].dom, x), Not(Sel(t.dom, x)))))]
            if mode is DROP:
                out.append(("exactly the complete non-empty subsets remain, unchanged", All(l, And(
                    Sel(s.dom, l) == And(Sel(f["subs"].dom, l), All(x, Implies(Sel(sub0(l), x), Sel(t.dom, x))), Any(x, Sel(sub0(l), x))),
                    Implies(Sel(s.dom, l), All(x, Sel(new(l), x) == Sel(sub0(l), x)))))))
            else:
                out.append(("every subset remains, reduced to the remaining tasks", All(l, And(Sel(s.dom, l) == Sel(f["subs"].dom, l),
                           Implies(Sel(s.dom, l), All(x, Sel(new(l), x) == And(Sel(sub0(l), x), Sel(t.dom, x))))))))
            return out
        return go
    for nm, m in (("DROP", DROP), ("EDIT", EDIT)):
        vc.function(ctx, FILE, "PipelineIR.subset_from_labels", setup(m), post(m), name=f"subset_from_labels({nm})")
