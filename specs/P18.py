"""P18: steps are accepted exactly if they divide the tasks in an order that can be run, and are re-verified after every change."""
from pyvc.spec import *
from pyvc.engine import PyRaise
from pyvc.spec import D

TS, PG = "pipeline_graph/_task_subsets.py", "pipeline_graph/_pipeline_graph.py"
x, y, z, w = q1("x!b"), q1("y!b"), q1("z!b"), q1("w!b")
conform = z3.Function("conform", V, VSET, V)
mk = z3.Function("node_key", V, V, V)
NAMES = z3.Function("attr!Dims.names.0", V, VSET)
compatible = z3.Function("dimensions_compatible", V, V, BOOL)


def make_ctx(assume=True):
    ctx = Ctx()
    ctx.exc_parent.update({n: "Exception" for n in ("InvalidStepsError", "PipelineGraphError", "UnresolvedGraphError", "DimensionsError")})
    for n in ("Label", "Kind", "Any_", "Dim"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["NodeTypes"] = ClassInfo({"TASK": "Kind", "TASK_INIT": "Kind", "DATASET_TYPE": "Kind"})
    ctx.globals_["NodeType"] = Sym("val", obj_const("NodeType"), "NodeTypes")
    ctx.classes["NodeKey"] = ClassInfo({"node_type": "Kind", "name": "Label"})
    ctx.classes["Dims"] = ClassInfo({"names": "set[Dim]"})

    def key(ex, a, kw):
        r = mk(ex.box(a[0]), ex.box(a[1]))
        ex.assume(And(z3.Function("attr!NodeKey.name.0", V, V)(r) == ex.box(a[1]), r != V.none))
        return Sym("val", r, "NodeKey")
    ctx.constructors["NodeKey"] = key

    def _conform(ex, a, kw):
        if ex.branch(ex.fresh("unknown_dimensions", BOOL)):
            raise PyRaise(ExcVal("DimensionsError", (), {"tag": Const("conform")}))
        t = conform(a[0].t, NAMES(a[1].t) if getattr(a[1], "ty", "") == "Dims" else ex.as_set(a[1]).mem)
        if assume:
            ex.assume(t != V.none)
        return Sym("val", t, "Dims")
    ctx.classes["Universe"] = ClassInfo({}, (), {"conform": _conform})
    ctx.isinstance_hook = lambda ex, o, cls: (z3.BoolVal(getattr(o, "ty", "") == "Dims") if cls == "DimensionGroup" else z3.BoolVal(getattr(o, "cls", getattr(o, "ty", "")) == cls) if cls == "StepDefinitions" and not hasattr(o, "addr") else None)
    return ctx


def verify(vc):
    vc.assume_note("networkx topological sort, subgraph and neighbour queries return what networkx documents; inputs_of/outputs_of return the dataset types of the task (bounded, P17)",
                   "DimensionUniverse.conform and the set operations of DimensionGroup are deterministic functions; conform may raise",
                   "the steps are iterated as a sequence of distinct labels in their dict order; task subsets contain only tasks of the graph")
    ctx = make_ctx()

    def steps(ex, universe=None):
        m = fmap(ex, "dimensions_by_label", "Label", "set[Dim]")
        u = fval(ex, "universe", "Universe") if universe is None else universe
        v = Sym("bool", ex.fresh("verified", BOOL))
        return fobj(ex, TS, "StepDefinitions", dict(_universe=u, _dimensions_by_label=m, _verified=v))
    F = lambda ex, o, n: ex.heap[o.addr].fields[n]

    # ---- definitions of the steps
    def s_v(ex):
        o = steps(ex)
        return dict(self=o, args=[])

    def p_v(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        o = st["self"]
        return [("verified exactly if they were verified since the last change, or there are none", ex.as_bool(p.value) == Or(ex.as_bool(F(ex, o, "_verified")), Not(Any(x, Sel(ex.cell(F(ex, o, "_dimensions_by_label")).dom, x)))))]
    vc.function(ctx, TS, "StepDefinitions.verified", s_v, p_v)

    def s_app(ex, given):
        o, l = steps(ex), fval(ex, "label", "Label")
        d = fset(ex, "dims", "Dim") if given == "names" else fval(ex, "group", "Dims")
        ex.assume(l.t != V.none)
        if given != "names":
            ex.assume(d.t != V.none)
        return dict(self=o, args=[l, d], l=l.t, d=d, m0=ex.cell(F(ex, o, "_dimensions_by_label")), u=F(ex, o, "_universe").t, v0=F(ex, o, "_verified"), dm=ex.as_set(d).mem if given == "names" else NAMES(d.t))

    def p_app(ex, st, p, must_exist):
        o, l = st["self"], st["l"]
        m0, m1 = st["m0"], ex.cell(F(ex, o, "_dimensions_by_label"))
        if p.kind == "raise":
            out = [("nothing changed", And(All(x, Sel(m0.dom, x) == Sel(m1.dom, x)), All(x, Sel(m0.vals[0], x) == Sel(m1.vals[0], x)), ex.as_bool(F(ex, o, "_verified")) == ex.as_bool(st["v0"])))]
            if p.value.cls != "DimensionsError":
                out.append(("refused only if it is not a step", And(must_exist and p.value.cls == "PipelineGraphError", Not(Sel(m0.dom, l)))))
            return out
        want = If(st["u"] != V.none, NAMES(conform(st["u"], st["dm"])), st["dm"])
        return [("its dimensions are those given", All(y, Sel(Sel(m1.vals[0], l), y) == Sel(want, y))), ("it is a step now, the others are unchanged", All(x, And(Sel(m1.dom, x) == Or(x == l, Sel(m0.dom, x)), Implies(x != l, Sel(m1.vals[0], x) == Sel(m0.vals[0], x))))),
                ("the steps are no longer verified", Not(ex.as_bool(F(ex, o, "_verified")))), *([("only a step has dimensions", Sel(m0.dom, l))] if must_exist else [])]
    for given in ("names", "group"):
        vc.function(ctx, TS, "StepDefinitions.append", lambda ex, g=given: s_app(ex, g), lambda ex, st, p: p_app(ex, st, p, False), name=f"StepDefinitions.append ({given})")
        vc.function(ctx, TS, "StepDefinitions.set_dimensions", lambda ex, g=given: s_app(ex, g), lambda ex, st, p: p_app(ex, st, p, True), name=f"StepDefinitions.set_dimensions ({given})")

    def s_rm(ex):
        st = s_app(ex, "names")
        st["args"] = st["args"][:1]
        return st

    def p_rm(ex, st, p):
        o, l = st["self"], st["l"]
        m0, m1 = st["m0"], ex.cell(F(ex, o, "_dimensions_by_label"))
        if p.kind == "raise":
            return [("refused exactly if it is not a step", And(p.value.cls == "KeyError", Not(Sel(m0.dom, l)))), ("nothing changed", And(All(x, Sel(m0.dom, x) == Sel(m1.dom, x)), ex.as_bool(F(ex, o, "_verified")) == ex.as_bool(st["v0"])))]
        return [("it is no step now, the others are unchanged", All(x, And(Sel(m1.dom, x) == And(x != l, Sel(m0.dom, x)), Implies(Sel(m1.dom, x), Sel(m1.vals[0], x) == Sel(m0.vals[0], x))))),
                ("the steps are no longer verified", Not(ex.as_bool(F(ex, o, "_verified"))))]
    vc.function(ctx, TS, "StepDefinitions.remove", s_rm, p_rm)

    def s_as(ex, kind):
        o = steps(ex)
        other = steps(ex) if kind == "steps" else fseq(ex, "labels", "Label") if kind == "list" else fset(ex, "labels", "Label")
        src = ex.cell(F(ex, other, "_dimensions_by_label")) if kind == "steps" else None
        return dict(self=o, args=[other], m0=ex.cell(F(ex, o, "_dimensions_by_label")), other=other, src=src)

    def p_as(ex, st, p, kind):
        if p.kind == "raise":
            return [("no failure", False)]
        m0, m1 = st["m0"], ex.cell(F(ex, st["self"], "_dimensions_by_label"))
        if kind == "steps":
            out = [("the same steps, with the same dimensions", All(x, And(Sel(m1.dom, x) == Sel(st["src"].dom, x), Implies(Sel(m1.dom, x), Sel(m1.vals[0], x) == Sel(st["src"].vals[0], x))))),
                   ("not shared", F(ex, st["self"], "_dimensions_by_label").addr != F(ex, st["other"], "_dimensions_by_label").addr)]
        else:
            out = [("exactly these labels are steps now", All(x, Sel(m1.dom, x) == ex.contains(st["other"], Sym("val", x, "Label")))),
                   ("steps keep their dimensions, new ones have none", All(x, Implies(Sel(m1.dom, x), All(y, Sel(Sel(m1.vals[0], x), y) == And(Sel(m0.dom, x), Sel(Sel(m0.vals[0], x), y))))))]
        return [*out, ("the steps are no longer verified", Not(ex.as_bool(F(ex, st["self"], "_verified"))))]
    for kind in ("steps", "list", "set"):
        vc.function(ctx, TS, "StepDefinitions.assign", lambda ex, k=kind: s_as(ex, k), lambda ex, st, p, k=kind: p_as(ex, st, p, k), name=f"StepDefinitions.assign ({kind})")

    def p_clr(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("no steps are left", Not(Any(x, ex.contains(F(ex, st["self"], "_dimensions_by_label"), Sym("val", x, "Label"))))), ("the steps are no longer verified", Not(ex.as_bool(F(ex, st["self"], "_verified"))))]
    vc.function(ctx, TS, "StepDefinitions.clear", s_v, p_clr)

    def s_cp(ex):
        o = steps(ex)
        return dict(self=o, args=[], m0=ex.cell(F(ex, o, "_dimensions_by_label")), v0=F(ex, o, "_verified"), u0=F(ex, o, "_universe"))

    def p_cp(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        m1 = ex.cell(F(ex, p.value, "_dimensions_by_label"))
        return [("same steps, dimensions, universe and verification", And(All(x, And(Sel(m1.dom, x) == Sel(st["m0"].dom, x), Implies(Sel(m1.dom, x), Sel(m1.vals[0], x) == Sel(st["m0"].vals[0], x)))), ex.as_bool(F(ex, p.value, "_verified")) == ex.as_bool(st["v0"]),
                                                                           ex.box(F(ex, p.value, "_universe")) == ex.box(st["u0"]))),
                ("nothing is shared", p.value.addr != st["self"].addr and F(ex, p.value, "_dimensions_by_label").addr != F(ex, st["self"], "_dimensions_by_label").addr)]
    vc.function(ctx, TS, "StepDefinitions.copy", s_cp, p_cp)

    def s_gd(ex):
        o, l = steps(ex), fval(ex, "label", "Label")
        return dict(self=o, args=[l], l=l.t, m0=ex.cell(F(ex, o, "_dimensions_by_label")), u=F(ex, o, "_universe").t)

    def p_gd(ex, st, p):
        s, u = Sel(st["m0"].dom, st["l"]), st["u"]
        if p.kind == "raise":
            return [("refused exactly if it is not a step, or nothing has been resolved", Or(p.value.cls == "DimensionsError", And(p.value.cls == "InvalidStepsError", Not(s)), And(p.value.cls == "UnresolvedGraphError", s, u == V.none)))]
        return [("the dimensions of the step", And(s, u != V.none, ex.box(p.value) == conform(u, Sel(st["m0"].vals[0], st["l"]))))]
    vc.function(ctx, TS, "StepDefinitions.get_dimensions", s_gd, p_gd)

    # ---- members of a subset
    ingraph = z3.Function("in_graph", V, BOOL)
    ctx.classes["X"] = ClassInfo({}, (), {"__contains__": lambda ex, a, kw: Sym("bool", ingraph(ex.box(a[1])))})
    TASK = z3.Function("attr!NodeTypes.TASK.0", V, V)(obj_const("NodeType"))

    def s_ts(ex):
        sd, l, g = steps(ex), fval(ex, "value", "Label"), fval(ex, "xgraph", "X")
        ex.assume(And(l.t != V.none, g.t != V.none))
        o = fobj(ex, TS, "TaskSubset", dict(_parent_xgraph=g, _label=fval(ex, "label", "Label"), _members=fset(ex, "members", "Label"), _description=fval(ex, "description", "Label"), _step_definitions=sd))
        return dict(self=o, args=[l], l=l.t, sd=sd, m0=ex.cell(F(ex, o, "_members")).mem, v0=F(ex, sd, "_verified"))

    def p_ts(ex, st, p, add):
        m0, m1, l = st["m0"], ex.cell(F(ex, st["self"], "_members")).mem, st["l"]
        if p.kind == "raise":
            return [("refused only if there is no such task", And(add and p.value.cls == "PipelineGraphError", Not(ingraph(mk(TASK, l))))), ("nothing changed", And(m0 == m1, ex.as_bool(st["v0"]) == ex.as_bool(F(ex, st["sd"], "_verified"))))]
        return [("exactly this member changes", All(x, Sel(m1, x) == (Or(Sel(m0, x), x == l) if add else And(Sel(m0, x), x != l)))), ("the steps are no longer verified", Not(ex.as_bool(F(ex, st["sd"], "_verified"))))] + ([("only tasks of the graph are added", ingraph(mk(TASK, l)))] if add else [])
    vc.function(ctx, TS, "TaskSubset.add", s_ts, lambda ex, st, p: p_ts(ex, st, p, True))
    vc.function(ctx, TS, "TaskSubset.discard", s_ts, lambda ex, st, p: p_ts(ex, st, p, False))

    def s_is(ex):
        st = s_ts(ex)
        st["args"] = []
        return st

    def p_is(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("a step exactly if the definitions list its label", ex.as_bool(p.value) == Sel(ex.cell(F(ex, st["sd"], "_dimensions_by_label")).dom, ex.box(F(ex, st["self"], "_label"))))]
    vc.function(ctx, TS, "TaskSubset.is_step", s_is, p_is)

    # ---- the graph
    step_of = z3.Function("recorded_step", V, V)
    ctx.classes["State"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", step_of(a[0].t), "Label")})
    ctx.classes["Nodes"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("node_state", V, V)(ex.box(a[1])), "State")})
    ctx.classes["X"].attrs["nodes"] = D("Nodes")

    def s_gts(ex):
        sd, g, l = steps(ex), fval(ex, "xgraph", "X"), fval(ex, "task", "Label")
        ex.assume(And(g.t != V.none, l.t != V.none))
        return dict(self=fobj(ex, PG, "PipelineGraph", dict(_xgraph=g, _step_definitions=sd)), args=[l], l=l.t, sd=sd)

    def p_gts(ex, st, p):
        some, ok = Any(x, Sel(ex.cell(F(ex, st["sd"], "_dimensions_by_label")).dom, x)), ex.as_bool(F(ex, st["sd"], "_verified"))
        if p.kind == "raise":
            return [("refused only without steps, or without verification", Or(And(p.value.cls == "InvalidStepsError", Not(some)), And(p.value.cls == "UnresolvedGraphError", some, Not(ok))))]
        return [("answers only for verified steps", And(some, ok)), ("the step recorded for the task", ex.box(p.value) == step_of(z3.Function("node_state", V, V)(mk(TASK, st["l"]))))]
    vc.function(ctx, PG, "PipelineGraph.get_task_step", s_gts, p_gts)

    def s_rs(ex):
        sd = steps(ex)
        views = [fobj(ex, "pipeline_graph/_mapping_views.py", c, dict(_keys=fval(ex, "keys", "Any_"))) for c in ("TaskMappingView", "DatasetTypeMappingView")]
        o = fobj(ex, PG, "PipelineGraph", dict(_sorted_keys=fval(ex, "sorted_keys", "Any_"), _tasks=views[0], _dataset_types=views[1], _step_definitions=sd))
        return dict(self=o, args=[], sd=sd, views=views)

    def p_rs(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("the order is forgotten, also by the views", And(ex.box(F(ex, st["self"], "_sorted_keys")) == V.none, *[ex.box(F(ex, v, "_keys")) == V.none for v in st["views"]])), ("the steps are no longer verified", Not(ex.as_bool(F(ex, st["sd"], "_verified"))))]
    vc.function(ctx, PG, "PipelineGraph._reset", s_rs, p_rs)

    def s_rts(ex):
        sd, l = steps(ex), fval(ex, "label", "Label")
        subs = fmap(ex, "task_subsets", "Label", "Subset")
        ex.assume(And(l.t != V.none, Sel(ex.cell(subs).dom, l.t)))
        return dict(self=fobj(ex, PG, "PipelineGraph", dict(_task_subsets=subs, _step_definitions=sd)), args=[l], l=l.t, sd=sd, s0=ex.cell(subs), m0=ex.cell(F(ex, sd, "_dimensions_by_label")), v0=ex.as_bool(F(ex, sd, "_verified")))

    def p_rts(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        s1, m1, l = ex.cell(F(ex, st["self"], "_task_subsets")), ex.cell(F(ex, st["sd"], "_dimensions_by_label")), st["l"]
        return [("neither a subset nor a step any more, the others unchanged", All(x, And(Sel(s1.dom, x) == And(x != l, Sel(st["s0"].dom, x)), Sel(m1.dom, x) == And(x != l, Sel(st["m0"].dom, x))))),
                ("a removed step makes the others unverified", Implies(Sel(st["m0"].dom, l), Not(ex.as_bool(F(ex, st["sd"], "_verified")))))]
    ctx.classes["Subset"] = ClassInfo()
    vc.function(ctx, PG, "PipelineGraph.remove_task_subset", s_rts, p_rts)

    # ---- sharding dimensions
    members = z3.Function("members", V, VSET)
    tdims, ddims = z3.Function("attr!TaskNode.dimensions.0", V, V), z3.Function("attr!DTNode.dimensions.0", V, V)
    c2 = make_ctx(False)
    c2.classes["TaskNode"] = ClassInfo({"dimensions": "Dims", "outs": "map[Label,DTNode]"})
    c2.classes["DTNode"] = ClassInfo({"dimensions": "Dims", "name": "Label"}, (), {}, truthy=lambda ex, v: v.t != V.none)
    tnode = z3.Function("task_node", V, V)
    c2.classes["Tasks"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", tnode(ex.box(a[1])), "TaskNode")})
    c2.classes["Subset"] = ClassInfo({"members": "set[Label]"}, (), {"__iter__": lambda ex, a, kw: ex.getattr(a[0], "members")})
    MEM = z3.Function("attr!Subset.members.0", V, VSET)
    c2.contracts["_dimensions_compatible"] = lambda ex, a, kw: Sym("bool", compatible(ex.box(a[0]), ex.box(a[1])))

    ODOM, OVAL = z3.Function("attr!TaskNode.outs.0", V, VSET), z3.Function("attr!TaskNode.outs.1", V, z3.ArraySort(V, V))

    def outputs_of(ex, a, kw):
        return ex.getattr(Sym("val", tnode(ex.box(a[1])), "TaskNode"), "outs")
    c2.contracts["PipelineGraph.outputs_of"] = outputs_of

    def s_sd(ex):
        sd, u = steps(ex), fval(ex, "new_universe", "Universe")
        subs = fmap(ex, "task_subsets", "Label", "Subset")
        m, sc = ex.cell(F(ex, sd, "_dimensions_by_label")), ex.cell(subs)
        S_ = z3.Const("s!b", VSET)
        ex.assume(And(All([x, y], Sel(OVAL(x), y) != V.none, [Sel(OVAL(x), y)]), All([x, S_], conform(x, S_) != V.none, [conform(x, S_)])))
        ex.assume(And(u.t != V.none, All(x, Implies(Sel(m.dom, x), Sel(sc.dom, x)), [Sel(m.dom, x)]), All(x, Sel(sc.vals[0], x) != V.none, [Sel(sc.vals[0], x)])))
        return dict(self=fobj(ex, PG, "PipelineGraph", dict(_task_subsets=subs, _step_definitions=sd, _tasks=Sym("val", obj_const("tasks"), "Tasks"))), args=[u], u=u.t, m=m, sc=sc, sd=sd)

    def p_sd(ex, st, p):
        m, sc, u = st["m"], st["sc"], st["u"]
        inst = lambda s, l: And(Sel(m.dom, s), Sel(MEM(Sel(sc.vals[0], s)), l))
        d = lambda s: conform(u, Sel(m.vals[0], s))
        if p.kind == "raise":
            if p.value.cls == "DimensionsError":
                return []
            return [("refused only if a task or an output does not have the dimensions of its step", And(p.value.cls == "InvalidStepsError", Any([x, y], And(inst(x, y), Or(Not(compatible(d(x), tdims(tnode(y)))), Any(z, And(Sel(ODOM(tnode(y)), z), Not(compatible(d(x), ddims(Sel(OVAL(tnode(y)), z))))))))))) ]
        return [("every task has the dimensions of its step", All([x, y], Implies(inst(x, y), compatible(d(x), tdims(tnode(y)))))),
                ("so does every output of it", All([x, y, z], Implies(And(inst(x, y), Sel(ODOM(tnode(y)), z)), compatible(d(x), ddims(Sel(OVAL(tnode(y)), z)))))), ("the steps are known to the universe", ex.box(F(ex, st["sd"], "_universe")) == u)]
    vc.function(c2, PG, "PipelineGraph._resolve_step_dimensions", s_sd, p_sd)

    # ---- what compatible dimensions are
    c3 = make_ctx()
    sub = z3.Function("issubset", V, V, BOOL)
    union = z3.Function("union_dimensions", V, V, V)
    REQ, ELS, EDIMS = z3.Function("attr!Dims.required.0", V, VSET), z3.Function("attr!Dims.elements.0", V, VSET), z3.Function("attr!Element.dimensions.0", V, VSET)
    DREL, ELT = z3.Function("attr!Element.defines_relationships.0", V, BOOL), z3.Function("element", V, V)
    c3.classes["Dims"] = ClassInfo({"names": "set[Dim]", "required": "set[Dim]", "elements": "set[Dim]", "universe": "Elements"}, (), {"issubset": lambda ex, a, kw: Sym("bool", sub(a[0].t, ex.box(a[1]))), "union": lambda ex, a, kw: Sym("val", union(a[0].t, ex.box(a[1])), "Dims")})
    c3.classes["Element"] = ClassInfo({"defines_relationships": "bool", "dimensions": "set[Dim]"})
    c3.classes["Elements"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", ELT(ex.box(a[1])), "Element")})

    def s_dc(ex):
        a, b = fval(ex, "sharding", "Dims"), fval(ex, "object", "Dims")
        return dict(args=[a, b], a=a.t, b=b.t)

    def p_dc(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        a, b = st["a"], st["b"]
        e = ELT(x)
        join = And(Sel(ELS(union(a, b)), x), DREL(e), Any(y, And(Sel(EDIMS(e), y), Sel(REQ(a), y), Not(Sel(REQ(b), y)))), Any(y, And(Sel(EDIMS(e), y), Sel(REQ(b), y), Not(Sel(REQ(a), y)))))
        return [("a subset, or joined by a relationship between dimensions that only one of them has", ex.as_bool(p.value) == Or(sub(a, b), Any(x, join)))]
    vc.function(c3, PG, "_dimensions_compatible", s_dc, p_dc)

    # ---- the order of the steps
    c4 = make_ctx(False)
    c4.classes["Tasks"] = ClassInfo({"labels": "set[Label]"}, (), {"keys": lambda ex, a, kw: ex.getattr(a[0], "labels")})
    c4.classes["Task"] = ClassInfo({n: "map[Label,Any_]" for n in ("ins", "iins", "outs", "iouts")})
    c4.classes["Subset"] = ClassInfo({"members": "set[Label]"}, (), {"__iter__": lambda ex, a, kw: ex.getattr(a[0], "members")})
    c4.classes["Steps"] = ClassInfo({"labels": "seq[Label]"}, (), {"__iter__": lambda ex, a, kw: ex.getattr(a[0], "labels")}, truthy=lambda ex, v: z3.Function("attr!Steps.labels.0", V, INT)(v.t) > 0)
    task = z3.Function("task", V, V)
    DOM = {n: z3.Function(f"attr!Task.{n}.0", V, VSET) for n in ("ins", "iins", "outs", "iouts")}
    R = lambda l, n: Or(Sel(DOM["ins"](task(l)), n), Sel(DOM["iins"](task(l)), n))
    W = lambda l, n: Or(Sel(DOM["outs"](task(l)), n), Sel(DOM["iouts"](task(l)), n))

    def flow(which):
        def f(ex, a, kw):
            init = kw.get("init", a[2] if len(a) > 2 else FALSE)
            return ex.getattr(Sym("val", task(ex.box(a[1])), "Task"), ("i" if init.v else "") + which)
        return f
    c4.contracts["PipelineGraph.inputs_of"] = flow("ins")
    c4.contracts["PipelineGraph.outputs_of"] = flow("outs")
    c4.classes["State"] = ClassInfo({"step": "Label"}, ("step",), {"__setitem__": lambda ex, a, kw: ex.setattr(a[0], "step", a[2])})
    c4.classes["Nodes"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("node_state", V, V)(ex.box(a[1])), "State")})
    nb = lambda n: lambda ex, a, kw: ex.alloc(SetC(z3.Function(n, V, VSET)(ex.box(a[1])), ("val", "NodeKey")))
    c4.classes["X"] = ClassInfo({"nodes": "Nodes"}, (), {"predecessors": nb("predecessors"), "successors": nb("successors"), "subgraph": lambda ex, a, kw: ex.alloc(SetC(ex.as_set(a[1]).mem, ("val", "NodeKey")))})
    c4.constructors["NodeKey"] = lambda ex, a, kw: Sym("val", mk(ex.box(a[0]), ex.box(a[1])), "NodeKey")
    for m in ("networkx.dag.", "networkx.", "networkx.algorithms.dag."):
        c4.stubs[m + "lexicographical_topological_sort"] = lambda ex, a, kw: DomainVal(set_dom(ex, ex.as_set(a[0]).mem, ("val", "NodeKey")))

    NS, NSI, INIT = z3.Function("node_state", V, V), z3.Function("node_of_state", V, V), z3.Function("attr!NodeTypes.TASK_INIT.0", V, V)(obj_const("NodeType"))
    over_members = lambda dom: dom.mem is not None and z3.is_app(dom.mem) and dom.mem.decl().name() == "attr!Subset.members.0"

    def s_fl(ex):
        sd, g = fval(ex, "steps", "Steps"), fval(ex, "xgraph", "X")
        subs = fmap(ex, "task_subsets", "Label", "Subset")
        sc = ex.cell(subs)
        ex.assume(And(sd.t != V.none, g.t != V.none, All(x, Sel(sc.vals[0], x) != V.none, [Sel(sc.vals[0], x)])))
        ex.assume(And(INIT != TASK, All(x, NSI(NS(x)) == x, [NS(x)]), All([x, y], And(z3.Function("key_type", V, V)(mk(x, y)) == x, z3.Function("key_name", V, V)(mk(x, y)) == y), [mk(x, y)])))
        o = fobj(ex, PG, "PipelineGraph", dict(_task_subsets=subs, _step_definitions=sd, _xgraph=g, _tasks=Sym("val", obj_const("tasks"), "Tasks")))
        lab = ex.cell(ex.getattr(sd, "labels"))
        i, j = z3.Int("i!b"), z3.Int("j!b")
        at = lambda k: Sel(lab.ats[0], k)
        ex.assume(All([i, j], Implies(And(0 <= i, i < j, j < lab.n), at(i) != at(j)), [z3.MultiPattern(at(i), at(j))]))      # keys of a dict
        inn = lambda k, l: Sel(MEM(Sel(sc.vals[0], at(k))), l)

        rec = lambda e, l: e.getattr(Sym("val", NS(mk(TASK, l)), "State"), "step").t
        k_ = z3.Int("k!b")

        def hook(ex2, fr, dom, D_, cnt):
            dm = lambda n: ex2.as_set(fr[n]).mem
            if dom.sort == INT:
                so_far, tl = dm("inputs_so_far"), dm("task_labels_so_far")
                return [("labels", All(x, Sel(tl, x) == Any(i, And(D_(i), inn(i, x))), [Sel(tl, x)])), ("wanted", All(z, Sel(so_far, z) == Any([i, x], And(D_(i), inn(i, x), R(x, z))), [Sel(so_far, z)])),
                        *[(f"wanted {n}", All([i, x, z], Implies(And(D_(i), inn(i, x), Sel(DOM[n](task(x)), z)), Sel(so_far, z)), [z3.MultiPattern(inn(i, x), Sel(DOM[n](task(x)), z))])) for n in ("ins", "iins")],
                        ("recorded", All([i, x], Implies(And(D_(i), inn(i, x)), rec(ex2, x) == at(i)), [inn(i, x)])),
                        ("subsets", All(i, Implies(D_(i), Sel(sc.dom, at(i))))), ("apart", All([i, j, x], Implies(And(D_(i), D_(j), inn(i, x), inn(j, x)), i == j))),
                        *[(f"flow {a} {b}", All([i, j, x, y, z], Implies(And(D_(i), D_(j), i < j, inn(i, x), inn(j, y), Sel(DOM[a](task(x)), z)), Not(Sel(DOM[b](task(y)), z))), [z3.MultiPattern(inn(i, x), inn(j, y), Sel(DOM[a](task(x)), z), Sel(DOM[b](task(y)), z))]))
                          for a in ("ins", "iins") for b in ("outs", "iouts")]]
            if over_members(dom):
                want = dm("step_inputs")
                return [("recorded here", All(x, Implies(D_(x), rec(ex2, x) == ex2.box(fr["step_label"])), [rec(ex2, x)])),
                        ("recorded before", All([k_, i, x], Implies(And(at(k_) == ex2.box(fr["step_label"]), 0 <= i, i < k_, k_ < lab.n, inn(i, x)), rec(ex2, x) == at(i)), [z3.MultiPattern(at(k_), inn(i, x))])), ("wanted here", All(z, Sel(want, z) == Any(x, And(D_(x), R(x, z))), [Sel(want, z)])), *[(f"flow here {n}", All([y, z], Implies(And(D_(y), Sel(dm("inputs_so_far"), z)), Not(Sel(DOM[n](task(y)), z))), [Sel(DOM[n](task(y)), z)])) for n in ("outs", "iouts")]]
            return []
        c4.loop_hooks["_resolve_step_flow:for"] = hook
        return dict(self=o, args=[], lab=lab, sc=sc)

    def p_fl(ex, st, p):
        lab, sc = st["lab"], st["sc"]
        i, j = z3.Int("i!b"), z3.Int("j!b")
        at = lambda k: Sel(lab.ats[0], k)
        inn = lambda k, l: And(0 <= k, k < lab.n, Sel(MEM(Sel(sc.vals[0], at(k))), l))
        tasks = z3.Function("attr!Tasks.labels.0", V, VSET)(obj_const("tasks"))
        if p.kind == "raise":
            ok = [All(i, Implies(And(0 <= i, i < lab.n), Sel(sc.dom, at(i)))), All([i, j, x], Implies(And(inn(i, x), inn(j, x)), i == j)), All(x, Implies(Sel(tasks, x), Any(i, inn(i, x)))),
                  All([i, j, x, y, z], Implies(And(i < j, inn(i, x), inn(j, y), R(x, z)), Not(W(y, z))))]
            return [("refused only if one of these does not hold", And(p.value.cls == "InvalidStepsError", Not(And(*ok))))]
        return [("every step is a subset", All(i, Implies(And(0 <= i, i < lab.n), Sel(sc.dom, at(i))))),
                ("no task is in two steps", All([i, j, x], Implies(And(inn(i, x), inn(j, x)), i == j))),
                ("every task is in a step", Implies(lab.n > 0, All(x, Implies(Sel(tasks, x), Any(i, inn(i, x)))))),
                ("the step of every task is recorded", All([i, x], Implies(inn(i, x), ex.getattr(Sym("val", NS(mk(TASK, x)), "State"), "step").t == at(i)))),
                ("no step writes what an earlier step reads", All([i, j, x, y, z], Implies(And(i < j, inn(i, x), inn(j, y), R(x, z)), Not(W(y, z)))))]
    c4.loop_skip["_resolve_step_flow:for"] = lambda n, L: n.startswith(("flagkeep", "seq-", "fact", "origin-val")) or n.endswith(".1") or L.dom.sort == INT or over_members(L.dom)
    c4.loop_skip["extend"] = ("",)
    vc.function(c4, PG, "PipelineGraph._resolve_step_flow", s_fl, p_fl)
