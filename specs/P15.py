"""P15: a task selection expression selects exactly the tasks it denotes."""
from pyvc.spec import *
from pyvc.engine import PyRaise

PG = "pipeline_graph/_pipeline_graph.py"
x, y, z = q1("x!b"), q1("y!b"), q1("z!b")
mk = z3.Function("node_key", V, V, V)
NT, NM = z3.Function("attr!NodeKey.node_type.0", V, V), z3.Function("attr!NodeKey.name.0", V, V)
TASK, INIT, DST = (z3.Function(f"attr!NodeTypes.{n}.0", V, V)(obj_const("NodeType")) for n in ("TASK", "TASK_INIT", "DATASET_TYPE"))
anc = z3.Function("ancestors", V, V, BOOL)                   # (task, ancestor) in the task graph
desc = z3.Function("descendants", V, V, BOOL)
wr = z3.Function("written_by", V, V, BOOL)                   # (dataset type key, task or init key)
rd = z3.Function("read_by", V, V, BOOL)
node = z3.Function("in_graph", V, BOOL)
tasknode = z3.Function("in_task_graph", V, BOOL)
members = z3.Function("subset_members", V, VSET)
kind = z3.Function("expression_kind", V, INT)
value = z3.Function("denotes", V, V, BOOL)                   # sub-expression denotes task key
ident_is = z3.Function("is_key", V, BOOL)
ORDER = dict(IdentifierNode=0, DirectionNode=1, NotNode=2, UnionNode=3, IntersectionNode=4)


def make_ctx():
    ctx = Ctx()
    ctx.exc_parent["InvalidExpressionError"] = "Exception"
    for n in ("Label", "Kind", "Any_"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["NodeTypes"] = ClassInfo({"TASK": "Kind", "TASK_INIT": "Kind", "DATASET_TYPE": "Kind"})
    ctx.globals_["NodeType"] = Sym("val", obj_const("NodeType"), "NodeTypes")
    ctx.classes["NodeKey"] = ClassInfo({"node_type": "Kind", "name": "Label"})

    def key(ex, a, kw):
        t, n = ex.box(a[0]), ex.box(a[1])
        r = mk(t, n)
        ex.assume(And(NT(r) == t, NM(r) == n, r != V.none, ident_is(r)))
        return Sym("val", r, "NodeKey")
    ctx.constructors["NodeKey"] = key

    def edges(rel, first):
        def it(ex, a, kw):
            k = ex.box(a[1])
            s = ex.fresh_set("edges", lambda e: rel(k, e), ("val", "NodeKey"))
            ex.assume(All(z, Implies(rel(k, z), And(z != V.none, Sel(s.mem, z))), [rel(k, z)]))
            pair = (lambda e_, e: Tup([Sym("val", e, "NodeKey"), a[1]])) if first else (lambda e_, e: Tup([a[1], Sym("val", e, "NodeKey")]))
            return DomainVal(set_dom(ex, s.mem, ("val", "NodeKey"), elem=pair))
        return it
    ctx.classes["Nodes"] = ClassInfo({}, (), {"__contains__": lambda ex, a, kw: Sym("bool", node(ex.box(a[1])))})
    ctx.classes["X"] = ClassInfo({"nodes": "Nodes"}, (), {"in_edges": edges(wr, True), "out_edges": edges(rd, False)})
    tn = lambda ex, a, kw: ex.alloc(ex.fresh_set("task_graph", lambda e: tasknode(e), ("val", "NodeKey")))
    ctx.classes["TNodes"] = ClassInfo({}, (), {"keys": tn})
    ctx.classes["TX"] = ClassInfo({"nodes": "TNodes"})
    for n, f in (("ancestors", anc), ("descendants", desc)):
        def reach(ex, a, kw, f=f):
            k = ex.box(a[1])
            return ex.alloc(ex.fresh_set("reach", lambda e: f(k, e), ("val", "NodeKey")))
        for m in ("networkx.dag.", "networkx.algorithms.dag.", "networkx."):
            ctx.stubs[m + n] = reach
    ctx.classes["TaskSubset"] = ClassInfo({"members": "set[Label]"}, (), {})
    ctx.classes["Ident"] = ClassInfo({"node_type": "Kind", "name": "Label", "members": "set[Label]"})
    ctx.classes["Expr"] = ClassInfo({"operator": "str", "start": "IdExpr", "operand": "Expr", "lhs": "Expr", "rhs": "Expr", "qualifier": "Label", "label": "Label"})
    for n in ORDER:
        ctx.classes[n] = ctx.classes["Expr"]
    ctx.classes["IdExpr"] = ClassInfo({"qualifier": "Label", "label": "Label"})

    def isinst(ex, o, cls):
        if getattr(o, "ty", "") in ("Ident", "NodeKey", "TaskSubset") and cls in ("NodeKey", "TaskSubset"):
            return ident_is(o.t) if cls == "NodeKey" else Not(ident_is(o.t))
        if getattr(o, "ty", "") in ("Expr", *ORDER) and cls in ORDER:
            return kind(o.t) == ORDER[cls]
    ctx.isinstance_hook = isinst
    return ctx


def verify(vc):
    vc.assume_note("networkx.ancestors/descendants return exactly the nodes reachable backwards/forwards in the task graph; the task graph is the projection of the bipartite graph on tasks (bounded)",
                   "the PLY grammar (precedence, tokens) is covered by the bounded run")
    ctx = make_ctx()

    def graph(ex, **kw):
        g = fval(ex, "xgraph", "X")
        ex.assume(And(g.t != V.none, z3.Distinct(TASK, INIT, DST, V.none)))
        return fobj(ex, PG, "PipelineGraph", dict(_xgraph=g, **kw))

    def tx(ex):
        t = fval(ex, "task_xgraph", "TX")
        ex.assume(t.t != V.none)
        return t
    inset = lambda ex, r, e: ex.contains(r, Sym("val", e, "NodeKey"))

    # ---- searches from a task
    for fn, rel in (("_select_task_ancestors", anc), ("_select_task_descendants", desc)):
        def s_t(ex):
            k, inc = fval(ex, "start", "NodeKey"), Sym("bool", ex.fresh("inclusive", BOOL))
            ex.assume(k.t != V.none)
            return dict(self=graph(ex), args=[k, tx(ex)], kw=dict(inclusive=inc), k=k, inc=inc)

        def p_t(ex, st, p, rel=rel):
            if p.kind == "raise":
                return [("no failure", False)]
            return [("exactly the tasks reachable, and the start exactly if inclusive", All(x, inset(ex, p.value, x) == Or(rel(st["k"].t, x), And(st["inc"].t, x == st["k"].t))))]
        vc.function(ctx, PG, "PipelineGraph." + fn, s_t, p_t)

    # ---- searches from a dataset type
    for fn in ("_select_dataset_type_ancestors", "_select_dataset_type_descendants"):
        for i in ("", "2", "3"):
            ctx.loop_skip[f"{fn}:for{i}"] = ("flagkeep", "seq-into")
    def s_d(ex):
        k, inc = fval(ex, "start", "NodeKey"), Sym("bool", ex.fresh("inclusive", BOOL))
        ex.assume(k.t != V.none)
        return dict(self=graph(ex), args=[k, tx(ex)], kw=dict(inclusive=inc), k=k.t, inc=inc.t)

    def p_da(ex, st, p):
        k, inc = st["k"], st["inc"]
        if p.kind == "raise":
            return [("refused only for the output of a task's construction", And(p.value.cls == "InvalidExpressionError", Any(y, And(wr(k, y), NT(y) == INIT))))]
        return [("the producer's ancestors, and the producer exactly if inclusive", All(x, inset(ex, p.value, x) == Any(y, And(wr(k, y), Or(anc(y, x), And(inc, x == y)))))),
                ("outputs of a task's construction are refused", Not(Any(y, And(wr(k, y), NT(y) == INIT))))]
    vc.function(ctx, PG, "PipelineGraph._select_dataset_type_ancestors", s_d, p_da)

    def p_dd(ex, st, p):
        k, inc = st["k"], st["inc"]
        bad = And(inc, Any(y, And(wr(k, y), NT(y) == INIT)))
        if p.kind == "raise":
            return [("refused only when including the producer of a construction output", And(p.value.cls == "InvalidExpressionError", bad))]
        task = lambda c: If(NT(c) == TASK, c, mk(TASK, NM(c)))
        return [("the consumers, their descendants, and the producer exactly if inclusive", All(x, inset(ex, p.value, x) == Or(And(inc, wr(k, x)), Any(y, And(rd(k, y), Or(x == task(y), desc(task(y), x))))))), ("construction outputs are refused when inclusive", Not(bad))]
    vc.function(ctx, PG, "PipelineGraph._select_dataset_type_descendants", s_d, p_dd)

    # ---- identifiers
    def s_i(ex, qual):
        lab = fval(ex, "label", "Label")
        ex.assume(lab.t != V.none)
        subs = fmap(ex, "task_subsets", "Label", "TaskSubset")
        ex.assume(Not(And(node(mk(TASK, lab.t)), Sel(ex.cell(subs).dom, lab.t))))       # prohibited at construction
        ex.assume(All(x, And(Implies(Sel(ex.cell(subs).dom, x), Sel(ex.cell(subs).vals[0], x) != V.none), Not(ident_is(Sel(ex.cell(subs).vals[0], x)))), [Sel(ex.cell(subs).vals[0], x)]))
        return dict(self=graph(ex, _task_subsets=subs), args=[Const(qual), lab], lab=lab.t, subs=ex.cell(subs))

    def p_i(ex, st, p, qual):
        t, d, s = node(mk(TASK, st["lab"])), node(mk(DST, st["lab"])), Sel(st["subs"].dom, st["lab"])
        T, D_, S = mk(TASK, st["lab"]), mk(DST, st["lab"]), Sel(st["subs"].vals[0], st["lab"])
        ok = {None: z3.PbEq([(t, 1), (d, 1), (s, 1)], 1), "T": t, "D": d, "S": s}[qual]
        if p.kind == "raise":
            return [("refused exactly if it names nothing, or several things without a prefix", And(p.value.cls == "InvalidExpressionError", Not(ok)))]
        want = {None: If(t, T, If(d, D_, S)), "T": T, "D": D_, "S": S}[qual]
        return [("accepted exactly if it names one thing", ok), ("what the label names", ex.box(p.value) == want)]
    for qual in (None, "T", "D", "S"):
        vc.function(ctx, PG, "PipelineGraph._select_identifier", lambda ex, q=qual: s_i(ex, q), lambda ex, st, p, q=qual: p_i(ex, st, p, q), name=f"PipelineGraph._select_identifier ({qual or 'no'} prefix)")

    # ---- whole expressions, over the contracts above
    c2 = make_ctx()
    C = "PipelineGraph."

    def sub(ex, a, kw):
        e = ex.box(a[1])
        if ex.branch(ex.fresh("sub_refused", BOOL)):
            raise PyRaise(ExcVal("InvalidExpressionError", (), {"tag": Const("sub")}))
        return ex.alloc(ex.fresh_set("sub", lambda k: value(e, k), ("val", "NodeKey")))
    what = z3.Function("names", V, V, V)

    def ident(ex, a, kw):
        if ex.branch(ex.fresh("unknown_identifier", BOOL)):
            raise PyRaise(ExcVal("InvalidExpressionError", (), {"tag": Const("ident")}))
        r = what(ex.box(a[1]), ex.box(a[2]))
        ex.assume(And(r != V.none, Implies(ident_is(r), Or(NT(r) == TASK, NT(r) == DST))))
        return Sym("val", r, "Ident")
    c2.contracts[C + "_select_identifier"] = ident
    c2.contracts[C + "_select_expression"] = sub
    search = z3.Function("search", V, INT, BOOL, V, BOOL)    # (start, which, inclusive, task)
    for n, fn in enumerate(("_select_task_ancestors", "_select_task_descendants", "_select_dataset_type_ancestors", "_select_dataset_type_descendants")):
        def run(ex, a, kw, n=n):
            k, inc = ex.box(a[1]), ex.as_bool(kw["inclusive"] if "inclusive" in kw else a[3])
            if n > 1 and ex.branch(ex.fresh("search_refused", BOOL)):
                raise PyRaise(ExcVal("InvalidExpressionError", (), {"tag": Const("search")}))
            return ex.alloc(ex.fresh_set("found", lambda e: search(k, n, inc, e), ("val", "NodeKey")))
        c2.contracts[C + fn] = run
    subset_key = lambda s: Sel(z3.Function("attr!Ident.members.0", V, VSET)(s), x)
    c2.classes["Ident"].methods["__iter__"] = lambda ex, a, kw: ex.getattr(Sym("val", a[0].t, "Ident"), "members")
    c2.classes["TaskSubset"].methods["__iter__"] = c2.classes["Ident"].methods["__iter__"]

    EX = "pipeline_graph/expressions.py"

    def s_x(ex, k, op=None):
        node = next(n for n, i in ORDER.items() if i == k)
        sube = lambda n: fval(ex, n, "Expr")
        lab = lambda: dict(qualifier=fval(ex, "qualifier", "Label"), label=fval(ex, "label", "Label"))
        st = dict(e=sube("whole").t)
        if k == 0:
            f = st["start"] = lab()
        elif k == 1:
            st["start"] = lab()
            f = dict(operator=Const(op), start=fobj(ex, EX, "IdentifierNode", st["start"]))
        else:
            f = st["f"] = dict(operand=sube("operand")) if k == 2 else dict(lhs=sube("lhs"), rhs=sube("rhs"))
        return dict(self=graph(ex), args=[fobj(ex, EX, node, f), tx(ex)], **st)

    def p_x(ex, st, p, k, op=None):
        e = st["e"]
        if p.kind == "raise" and p.value.cls == "InvalidExpressionError" and "tag" in p.value.fields:
            return []
        if k == 0:
            w = what(st["start"]["qualifier"].t, st["start"]["label"].t)
            bad = And(ident_is(w), NT(w) == DST, Any(y, And(wr(w, y), NT(y) == INIT)))
            one = All([x, y], Implies(And(wr(w, x), wr(w, y)), x == y))
            if p.kind == "raise":
                return [("refused only for a construction output", And(p.value.cls == "InvalidExpressionError", bad))]
            want = If(ident_is(w), If(NT(w) == TASK, x == w, wr(w, x)), Any(y, And(Sel(z3.Function("attr!Ident.members.0", V, VSET)(w), y), x == mk(TASK, y))))
            return [("the task, the producer or the members of the subset named", Implies(one, All(x, inset(ex, p.value, x) == want))), ("construction outputs are refused", Implies(one, Not(bad)))]
        if k == 1:
            w = what(st["start"]["qualifier"].t, st["start"]["label"].t)
            if p.kind == "raise":
                return [("refused only from a subset", And(p.value.cls == "InvalidExpressionError", Not(ident_is(w))))]
            up, inc = op.startswith("<"), z3.BoolVal(op.endswith("="))
            return [("the search the operator asks for", All(x, inset(ex, p.value, x) == If(NT(w) == TASK, search(w, 0 if up else 1, inc, x), search(w, 2 if up else 3, inc, x)))), ("never from a subset", ident_is(w))]
        if p.kind == "raise":
            return [("no failure", False)]
        v = {n: value(t.t, x) for n, t in st["f"].items()}
        want = And(tasknode(x), Not(v["operand"])) if k == 2 else Or(v["lhs"], v["rhs"]) if k == 3 else And(v["lhs"], v["rhs"])
        return [(("the tasks not selected", "either", "both")[k - 2], All(x, inset(ex, p.value, x) == want))]
    for nm, k in ORDER.items():
        for op in ("<", "<=", ">", ">=") if k == 1 else (None,):
            vc.function(c2, PG, "PipelineGraph._select_expression", lambda ex, k=k, op=op: s_x(ex, k, op), lambda ex, st, p, k=k, op=op: p_x(ex, st, p, k, op), name=f"PipelineGraph._select_expression ({nm}{' ' + op if op else ''})")

    # ---- the tasks selected by the text of an expression
    c3 = make_ctx()
    c3.stubs["lsst.pipe.base.pipeline_graph.expressions.parse"] = lambda ex, a, kw: Sym("val", z3.Function("parsed", V, V)(ex.box(a[0])), "Expr")
    c3.globals_["expressions.parse"] = Stub(c3.stubs["lsst.pipe.base.pipeline_graph.expressions.parse"], "parse")
    c3.contracts["parse"] = c3.stubs["lsst.pipe.base.pipeline_graph.expressions.parse"]
    c3.contracts[C + "_make_task_xgraph_internal"] = lambda ex, a, kw: Sym("val", z3.Function("task_graph", BOOL, V)(ex.as_bool(kw["init"] if "init" in kw else a[1])), "TX")

    def whole(ex, a, kw):
        e, g = ex.box(a[1]), ex.box(a[2])
        if ex.branch(ex.fresh("refused", BOOL)):
            raise PyRaise(ExcVal("InvalidExpressionError", (), {"tag": Const("sub")}))
        return ex.alloc(ex.fresh_set("selected", lambda k: And(g == z3.Function("task_graph", BOOL, V)(z3.BoolVal(False)), value(e, k)), ("val", "NodeKey")))
    c3.contracts[C + "_select_expression"] = whole

    def s_s(ex):
        t = fval(ex, "text", "Label")
        ex.assume(t.t != V.none)
        return dict(self=graph(ex), args=[t], t=t.t)

    def p_s(ex, st, p):
        if p.kind == "raise":
            return [("refused only if the expression is", p.value.cls == "InvalidExpressionError" and "tag" in p.value.fields)]
        e = z3.Function("parsed", V, V)(st["t"])
        return [("exactly the labels of the tasks the expression denotes in the runtime task graph", All(x, inset(ex, p.value, x) == Any(y, And(value(e, y), x == NM(y)))))]
    vc.function(c3, PG, "PipelineGraph.select_tasks", s_s, p_s)
