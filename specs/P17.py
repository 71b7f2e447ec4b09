"""P17: resolving a pipeline graph gives every dataset type one definition that all of its connections agree with."""
from pyvc.spec import *
from pyvc.engine import PyRaise

EDGES, DTS = "pipeline_graph/_edges.py", "pipeline_graph/_dataset_types.py"
x, y = q1("x!b"), q1("y!b")
conform = z3.Function("conform", V, VSET, V)                 # (universe, names)
dtype = z3.Function("dataset_type", V, V, V, V, V)           # (name, dimensions, storage class, is calibration)
compat = z3.Function("is_compatible_with", V, V, BOOL)
convert = z3.Function("can_convert", V, V, BOOL)
factory = z3.Function("storage_class", V, V)
comps = z3.Function("all_components_fail", V, BOOL)


def make_ctx():
    ctx = Ctx()
    for n in ("Label", "Any_"):
        ctx.classes[n] = ClassInfo()
    ctx.exc_parent.update({n: "Exception" for n in ("MissingDatasetTypeError", "IncompatibleDatasetTypeError", "ConnectionTypeConsistencyError", "DuplicateOutputError", "DimensionsError")})
    ctx.classes["Dims"] = ClassInfo({"names": "set[Label]", "skypix": "set[Label]"})

    def _conform(ex, a, kw):
        if ex.branch(ex.fresh("unknown_dimensions", BOOL)):
            raise PyRaise(ExcVal("DimensionsError", (), {"tag": Const("conform")}))
        t = conform(a[0].t, ex.as_set(a[1]).mem)
        ex.assume(t != V.none)
        return Sym("val", t, "Dims")
    ctx.classes["Universe"] = ClassInfo({}, (), {"conform": _conform})

    def _dtype(ex, a, kw):
        if ex.branch(ex.fresh("bad_definition", BOOL)):
            raise PyRaise(ExcVal("ValueError", (), {"tag": Const("dtype")}))
        t = dtype(ex.box(a[0]), ex.box(a[1]), ex.box(a[2] if len(a) > 2 else kw["storageClass"]), ex.box(kw.get("isCalibration", FALSE)))
        ex.assume(t != V.none)
        return Sym("val", t, "DType")
    ctx.constructors["DatasetType"] = _dtype
    ctx.stubs["lsst.daf.butler.DatasetType"] = _dtype

    def components(ex, a, kw):
        if ex.branch(comps(a[0].t)):
            raise PyRaise(ExcVal("KeyError", (), {"tag": Const("components")}))
        return ex.getattr(a[0], "component_map")
    ctx.classes["SC"] = ClassInfo({"name": "Label", "component_map": "map[Label,SC]"}, (), {"allComponents": components, "can_convert": lambda ex, a, kw: Sym("bool", convert(a[0].t, ex.box(a[1])))})
    ctx.classes["Factory"] = ClassInfo({}, (), {"getStorageClass": lambda ex, a, kw: Sym("val", factory(ex.box(a[1])), "SC")})
    ctx.stubs["lsst.daf.butler.StorageClassFactory"] = lambda ex, a, kw: Sym("val", obj_const("StorageClassFactory"), "Factory")
    ctx.classes["DType"] = ClassInfo({"dimensions": "Dims", "storageClass": "SC", "storageClass_name": "Label", "name": "Label"}, (), {"is_compatible_with": lambda ex, a, kw: Sym("bool", compat(a[0].t, ex.box(a[1])))},
                                     truthy=lambda ex, v: v.t != V.none)
    return ctx


def edge(ex, cls, **kw):
    f = dict(parent=fval(ex, "parent_dataset_type_name", "Label"), name=fval(ex, "dataset_type_name", "Label"), label=fval(ex, "task_label", "Label"))
    fields = dict(storage_class_name=fval(ex, "storage_class_name", "Label"), connection_name=fval(ex, "connection_name", "Label"), is_calibration=Sym("bool", ex.fresh("is_calibration", BOOL)),
                  raw_dimensions=fset(ex, "raw_dimensions", "Label"), task_key=fval(ex, "task_key", "Key"), dataset_type_key=fval(ex, "dataset_type_key", "Key"), **kw)
    return fobj(ex, EDGES, cls, fields)


def verify(vc):
    vc.assume_note("DimensionUniverse.conform, DatasetType construction and comparison, is_compatible_with, allComponents and can_convert are arbitrary functions that may raise",
                   "visualization_only (which relaxes the checks for drawing) is not covered")
    ctx = make_ctx()
    ctx.classes["Key"] = ClassInfo({"name": "Label"})

    # ---- output connections
    def s_w(ex):
        o = edge(ex, "WriteEdge")
        cur = fval(ex, "current", "DType")
        u = fval(ex, "universe", "Universe")
        ex.assume(u.t != V.none)
        return dict(self=o, args=[cur, u], cur=cur, u=u)

    def own(ex, o, u, dims=None):
        g = lambda n: ex.heap[o.addr].fields[n]
        d = conform(u.t, ex.as_set(g("raw_dimensions")).mem) if dims is None else dims
        return dtype(ex.box(ex.getattr(o, "parent_dataset_type_name")), d, ex.box(g("storage_class_name")), ex.box(g("is_calibration")))

    def p_w(ex, st, p):
        cur = st["cur"].t
        mine = own(ex, st["self"], st["u"])
        if p.kind == "raise":
            if p.value.cls in ("DimensionsError", "ValueError"):
                return []
            return [("refused only if the registered definition is incompatible", And(p.value.cls == "IncompatibleDatasetTypeError", cur != V.none, Not(compat(cur, mine))))]
        r = ex.box(p.value)
        return [("the definition is the registered one, or else the connection's own", r == If(cur != V.none, cur, mine)),
                ("accepted only if the registered definition is compatible", Implies(cur != V.none, compat(cur, mine)))]
    vc.function(ctx, EDGES, "WriteEdge._resolve_dataset_type", s_w, p_w)

    # ---- input connections
    def s_r(ex, first):
        o = edge(ex, "ReadEdge", component=fval(ex, "component", "Label"), is_prerequisite=Sym("bool", ex.fresh("is_prerequisite", BOOL)), defer_query_constraint=Sym("bool", ex.fresh("defer_query_constraint", BOOL)))
        cur, u = fval(ex, "current", "DType"), fval(ex, "universe", "Universe")
        ex.assume(u.t != V.none)
        kw = dict(current=cur, is_initial_query_constraint=Sym("bool", ex.fresh("constraint_so_far", BOOL)), universe=u, producer=fval(ex, "producer", "Label"), consumers=fseq(ex, "consumers", "Label"),
                  is_registered=Sym("bool", ex.fresh("is_registered", BOOL)), visualization_only=FALSE)
        if first:
            kw["is_prerequisite"] = NONE
        else:
            kw["is_prerequisite"] = Sym("bool", ex.fresh("prerequisite_so_far", BOOL))
        return dict(self=o, args=[], kw=kw, **{k: v for k, v in kw.items()})

    def p_r(ex, st, p):
        g = lambda n: ex.heap[st["self"].addr].fields[n]
        cur, u = st["current"].t, st["universe"]
        dims = lambda d: z3.Function("attr!DType.dimensions.0", V, V)(d)
        names = lambda d: z3.Function("attr!Dims.names.0", V, VSET)(d)
        sky = lambda d: z3.Function("attr!Dims.skypix.0", V, VSET)(d)
        raw = ex.as_set(g("raw_dimensions")).mem
        placeholder = Sel(raw, str_const("skypix"))
        mine = own(ex, st["self"], u, If(placeholder, dims(cur), conform(u.t, raw)))
        comp, prod, reg = g("component").t, st["producer"].t, ex.as_bool(st["is_registered"])
        scname = ex.box(g("storage_class_name"))
        sc = z3.Function("attr!DType.storageClass.0", V, V)(cur)
        cdom, cmap = z3.Function("attr!SC.component_map.0", V, VSET)(sc), z3.Function("attr!SC.component_map.1", V, z3.ArraySort(V, V))(sc)
        cname = z3.Function("attr!SC.name.0", V, V)
        part = Sel(cmap, comp)
        part_ok = And(Sel(cdom, comp), Or(cname(part) == scname, convert(factory(scname), part)))
        same = Implies(cur != V.none, If(And(Not(reg), prod == V.none), mine == cur, compat(mine, cur)))
        ok_def = If(comp != V.none, And(cur != V.none, part_ok), same)
        rest = conform(u.t, z3.Store(raw, str_const("skypix"), z3.BoolVal(False)))
        rest_ok = And(cur != V.none, All(y, Sel(names(rest), y) == And(Sel(names(dims(cur)), y), Not(Sel(sky(dims(cur)), y)))))
        mp = ex.as_bool(g("is_prerequisite"))
        so_far = st["is_prerequisite"]
        agree = z3.BoolVal(True) if so_far is NONE else mp == ex.as_bool(so_far)
        if p.kind == "raise":
            c = p.value.cls
            if c in ("DimensionsError", "ValueError", "KeyError") and "tag" in p.value.fields:
                return []
            if c == "ConnectionTypeConsistencyError":
                return [("refused as inconsistent only if it is a prerequisite to some and a regular input or output to others", Not(agree))]
            return [("refused as missing or incompatible only if it is", And(c in ("MissingDatasetTypeError", "IncompatibleDatasetTypeError"), Or(And(placeholder, Not(rest_ok)), Not(ok_def))))]
        r = [ex.box(i) for i in p.value.items]
        return [("the definition so far is kept, or else the connection's own is used", r[0] == If(cur != V.none, cur, mine)),
                ("accepted only if compatible with that definition", ok_def), ("accepted only if all agree on being a prerequisite", agree),
                ("a placeholder needs a known definition that agrees otherwise", Implies(placeholder, rest_ok)),
                ("it can constrain the query exactly if nothing deferred it", ex.as_bool(p.value.items[1]) == And(ex.as_bool(st["is_initial_query_constraint"]), Not(ex.as_bool(g("defer_query_constraint"))))),
                ("it is a prerequisite exactly if this connection says so", ex.as_bool(p.value.items[2]) == mp)]
    for first in (True, False):
        vc.function(ctx, EDGES, "ReadEdge._resolve_dataset_type", lambda ex, f=first: s_r(ex, f), p_r, name="ReadEdge._resolve_dataset_type" + (" (first connection)" if first else ""))

    # ---- all connections of a dataset type
    isw = z3.Function("writes", V, V, BOOL)                  # (dataset type key, edge)
    isr = z3.Function("reads", V, V, BOOL)
    acc = z3.Function("accepts", V, V, BOOL, V, BOOL)        # (edge, definition, registered, producer): what ReadEdge._resolve_dataset_type accepts
    wdef = z3.Function("written_definition", V, V)           # the connection's own definition
    rdef = z3.Function("read_definition", V, V)
    wok = z3.Function("output_accepted", V, V, BOOL)
    PRE, DEF, COMP, TL = (z3.Function(f"attr!Edge.{n}.0", V, s) for n, s in (("is_prerequisite", BOOL), ("defer_query_constraint", BOOL), ("component", V), ("task_label", V)))
    c3 = make_ctx()
    c3.classes["Key"] = ClassInfo({"name": "Label"})
    c3.classes["Registered"] = ClassInfo()

    def resolve_edge(ex, a, kw):
        e = a[0].t
        if "current" in kw and "producer" in kw:
            cur, prod, reg = ex.box(kw["current"]), ex.box(kw["producer"]), ex.as_bool(kw["is_registered"])
            pre = kw["is_prerequisite"]
            same = z3.BoolVal(True) if pre is NONE else None
            pb = ex.box(pre)
            agree = Or(pb == V.none, pb == ex.box(Sym("bool", PRE(e))))
            new = If(cur != V.none, cur, rdef(e))
            if not ex.branch(And(agree, acc(e, new, reg, prod), Implies(COMP(e) != V.none, cur != V.none))):
                raise PyRaise(ExcVal("IncompatibleDatasetTypeError", (), {"tag": Const("read")}))
            ex.assume(rdef(e) != V.none)
            return Tup([Sym("val", new, "DType"), Sym("bool", And(ex.as_bool(kw["is_initial_query_constraint"]), Not(DEF(e)))), Sym("bool", PRE(e))])
        cur = ex.box(a[1] if len(a) > 1 else kw["current"])
        if not ex.branch(Or(cur == V.none, wok(e, cur))):
            raise PyRaise(ExcVal("IncompatibleDatasetTypeError", (), {"tag": Const("write")}))
        ex.assume(wdef(e) != V.none)
        return Sym("val", If(cur != V.none, cur, wdef(e)), "DType")
    c3.classes["Edge"] = ClassInfo({"is_prerequisite": "bool", "defer_query_constraint": "bool", "component": "Label", "task_label": "Label"}, (), {"_resolve_dataset_type": resolve_edge}, truthy=lambda ex, v: v.t != V.none)

    def edges(rel):
        def it(ex, a, kw):
            k = ex.box(a[1])
            s = ex.fresh_set("edges", lambda z: rel(k, z), ("val", "Edge"))
            ex.assume(All(z_, Implies(rel(k, z_), And(z_ != V.none, Sel(s.mem, z_))), [rel(k, z_)]))
            n = lambda e_, z: Tup([Sym("val", z3.Function("source", V, V)(z), "Key"), Sym("val", z3.Function("target", V, V)(z), "Key"), Sym("val", z, "Edge")])
            return DomainVal(set_dom(ex, s.mem, ("val", "Edge"), elem=n))
        return it
    z_ = q1("z!b")
    c3.classes["X"] = ClassInfo({}, (), {"in_edges": edges(isw), "out_edges": edges(isr)})
    c3.constructors["DatasetTypeNode"] = lambda ex, a, kw: Tup([kw[n] for n in ("dataset_type", "is_initial_query_constraint", "is_prerequisite", "producing_edge", "consuming_edges")])

    def s_f(ex):
        key, g, u = fval(ex, "key", "Key"), fval(ex, "xgraph", "X"), fval(ex, "universe", "Universe")
        reg = fval(ex, "registered", "DType")
        ex.assume(And(key.t != V.none, g.t != V.none, u.t != V.none, Any(x, Or(isw(key.t, x), isr(key.t, x)))))
        ex.assume(All(x, And(Implies(isw(key.t, x), x != V.none), Implies(isr(key.t, x), x != V.none)), [isw(key.t, x)]))
        ex.assume(All(x, TL(x) != V.none, [TL(x)]))
        j = z3.Int("j!b")

        def hook(ex2, fr, dom, D_, cnt):
            L = lambda n: ex2.box(fr[n])
            pe, dt, r = L("producing_edge"), L("dataset_type"), reg.t
            prod = L("producer")
            if dom.sort == V:
                seen = lambda e: And(D_(e), isw(key.t, e))
                return [("none yet", Implies(prod == V.none, And(pe == V.none, dt == r, L("is_initial_query_constraint") == ex2.box(TRUE), L("is_prerequisite") == V.none, All(x, Not(seen(x)), [isw(key.t, x)])))),
                        ("one", Implies(prod != V.none, And(prod == TL(pe), seen(pe), pe != V.none, dt == If(r != V.none, r, wdef(pe)), dt != V.none, Implies(r != V.none, wok(pe, r)), L("is_initial_query_constraint") == ex2.box(FALSE),
                                                            L("is_prerequisite") == ex2.box(FALSE), All(x, Implies(seen(x), x == pe), [isw(key.t, x)]))))]
            c = ex2.cell(fr["consuming_edges"])
            E_ = lambda i: Sel(c.ats[0], i)
            dt0 = If(r != V.none, r, If(pe != V.none, wdef(pe), V.none))
            pre0 = If(pe == V.none, V.none, ex2.box(FALSE))
            regd = ex2.as_bool(fr["is_registered"])
            B = lambda b: ex2.box(Sym("bool", b))
            pre = L("is_prerequisite")
            return [("definition", dt == If(dt0 != V.none, dt0, If(cnt == 0, V.none, rdef(E_(0))))), ("whole", Implies(And(dt0 == V.none, cnt > 0), And(COMP(E_(0)) == V.none, dt != V.none))),
                    ("constraint", Implies(L("is_initial_query_constraint") == ex2.box(TRUE), And(pe == V.none, All(j, Implies(D_(j), Not(DEF(E_(j)))), [E_(j)])))),
                    ("no constraint", Or(L("is_initial_query_constraint") == ex2.box(TRUE), And(L("is_initial_query_constraint") == ex2.box(FALSE), Or(pe != V.none, Any(j, And(D_(j), DEF(E_(j)))))))),
                    ("prerequisite", And(Implies(cnt == 0, pre == pre0), Implies(pre0 != V.none, pre == pre0))), ("prerequisites", And(Implies(cnt > 0, pre != V.none), All(j, Implies(D_(j), pre == B(PRE(E_(j)))), [E_(j)]))),
                    ("accepted", All(j, Implies(D_(j), acc(E_(j), dt, regd, prod)), [E_(j)]))]
        c3.loop_skip["_from_edges:for"] = ("origin", "flagkeep", "seq-into")
        c3.loop_hooks["_from_edges:for"] = hook
        got = Stub(lambda e, a, kw: reg, "get_registered")
        return dict(self=ClassVal("DatasetTypeNode", get_module(DTS), get_module(DTS).classes["DatasetTypeNode"]), args=[key, g, got, u, NONE], key=key, reg=reg)

    def p_f(ex, st, p):
        k, reg = st["key"].t, st["reg"].t
        if p.kind == "raise":
            if p.value.cls == "DuplicateOutputError":
                return [("refused only if two connections write it", Any([x, y], And(isw(k, x), isw(k, y), x != y)))]
            return [("no other failure", "tag" in p.value.fields)]
        dt, iic, pre, pe, ce = p.value.items
        dt, pe = ex.box(dt), ex.box(pe)
        prod = If(pe != V.none, TL(pe), V.none)
        out = [("at most one connection writes it, and that is the producing one", All(x, isw(k, x) == And(x == pe, x != V.none))),
               ("a registered definition is kept", Implies(reg != V.none, dt == reg)),
               ("else the producer's definition is used", Implies(And(reg == V.none, pe != V.none), dt == wdef(pe))),
               ("else it is the definition of a connection that reads it whole", Implies(And(reg == V.none, pe == V.none), Any(x, And(isr(k, x), COMP(x) == V.none, dt == rdef(x))))),
               ("every reading connection accepts the definition", All(x, Implies(isr(k, x), acc(x, dt, reg != V.none, prod)))),
               ("the producing connection accepts a registered definition", Implies(And(reg != V.none, pe != V.none), wok(pe, reg))),
               ("all agree on being a prerequisite", All(x, Implies(isr(k, x), PRE(x) == ex.as_bool(pre)))),
               ("what is produced is no prerequisite", Implies(pe != V.none, Not(ex.as_bool(pre)))),
               ("it constrains the query exactly if nothing produces it and no reader defers it", ex.as_bool(iic) == And(pe == V.none, All(x, Implies(isr(k, x), Not(DEF(x)))))),
               ("exactly the reading connections are listed", All(x, ex.contains(ce, Sym("val", x, "Edge")) == isr(k, x)))]
        return out
    vc.function(c3, DTS, "DatasetTypeNode._from_edges", s_f, p_f)

    # ---- looking up the producer before resolution, and what each connection sees
    PG = "pipeline_graph/_pipeline_graph.py"
    mkkey = z3.Function("dataset_type_key", V, V)
    c3.constructors["NodeKey"] = lambda ex, a, kw: Sym("val", mkkey(ex.box(a[1])), "Key")
    c3.globals_["NodeType"] = Sym("val", obj_const("NodeType"), "NodeTypes")
    c3.classes["NodeTypes"] = ClassInfo({"DATASET_TYPE": "Any_", "TASK": "Any_", "TASK_INIT": "Any_"})

    def s_p(ex):
        g, nm = fval(ex, "xgraph", "X"), fval(ex, "name", "Label")
        k = mkkey(nm.t)
        ex.assume(And(g.t != V.none, nm.t != V.none, All(x, And(Implies(isw(k, x), x != V.none), TL(x) != V.none), [isw(k, x)])))

        def hook(ex2, fr, dom, D_, cnt):
            if dom.sort != V:
                return []
            pe, prod = ex2.box(fr["producing_edge"]), ex2.box(fr["producer"])
            seen = lambda e: And(D_(e), isw(k, e))
            return [("at most one", Or(And(pe == V.none, prod == V.none, All(x, Not(seen(x)), [isw(k, x)])), And(pe != V.none, prod != V.none, seen(pe), All(x, Implies(seen(x), x == pe), [isw(k, x)]))))]
        c3.loop_hooks["producing_edge_of:for"] = hook
        return dict(self=fobj(ex, PG, "PipelineGraph", dict(_xgraph=g)), args=[nm], k=k)

    def p_p(ex, st, p):
        if p.kind == "raise":
            return [("refused only if two connections write it", And(p.value.cls == "DuplicateOutputError", Any([x, y], And(isw(st["k"], x), isw(st["k"], y), x != y))))]
        pe = ex.box(p.value)
        return [("the only connection that writes it, if any", All(x, isw(st["k"], x) == And(x == pe, x != V.none)))]
    vc.function(c3, PG, "PipelineGraph.producing_edge_of", s_p, p_p)

    def s_c(ex):
        st = s_p(ex)
        return st

    def p_c(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("exactly the connections that read it", All(x, ex.contains(p.value, Sym("val", x, "Edge")) == isr(st["k"], x)))]
    vc.function(c3, PG, "PipelineGraph.consuming_edges_of", s_c, p_c)

    over, part = z3.Function("override_storage_class", V, V, V), z3.Function("component", V, V, V)
    SCN, DTOF = z3.Function("attr!DType.storageClass_name.0", V, V), z3.Function("attr!DRef.datasetType.0", V, V)
    for c in (ctx,):
        c.classes["DType"].methods.update(overrideStorageClass=lambda ex, a, kw: Sym("val", over(a[0].t, ex.box(a[1])), "DType"), makeComponentDatasetType=lambda ex, a, kw: Sym("val", part(a[0].t, ex.box(a[1])), "DType"))
        c.classes["DRef"] = ClassInfo({"datasetType": "DType"}, (), {"overrideStorageClass": lambda ex, a, kw: Sym("val", over(a[0].t, ex.box(a[1])), "DRef"), "makeComponentRef": lambda ex, a, kw: Sym("val", part(a[0].t, ex.box(a[1])), "DRef"),
                                                                   "isComponent": lambda ex, a, kw: Sym("bool", z3.Function("is_component", V, BOOL)(a[0].t)), "makeCompositeRef": lambda ex, a, kw: Sym("val", z3.Function("composite", V, V)(a[0].t), "DRef")})

    for cls in ("ReadEdge", "WriteEdge"):
        for fn, ty in (("adapt_dataset_type", "DType"), ("adapt_dataset_ref", "DRef")):
            def s_a(ex, cls=cls, ty=ty):
                kw = dict(component=fval(ex, "component", "Label"), is_prerequisite=FALSE, defer_query_constraint=FALSE) if cls == "ReadEdge" else {}
                o, d = edge(ex, cls, **kw), fval(ex, "given", ty)
                ex.assume(d.t != V.none)
                return dict(self=o, args=[d], d=d, comp=kw.get("component", NONE))

            def p_a(ex, st, p, ty=ty):
                if p.kind == "raise":
                    return [("no failure", False)]
                d, comp, sc = st["d"].t, ex.box(st["comp"]), ex.box(ex.heap[st["self"].addr].fields["storage_class_name"])
                b = If(comp != V.none, part(d, comp), d)
                have = SCN(b) if ty == "DType" else SCN(DTOF(b))
                return [("the component asked for, in the connection's own storage class", ex.box(p.value) == If(have == sc, b, over(b, sc)))]
            vc.function(ctx, EDGES, f"{cls}.{fn}", s_a, p_a)

    def s_g(ex):
        dt, r = fval(ex, "dataset_type", "DType"), fval(ex, "ref", "DRef")
        ex.assume(And(dt.t != V.none, r.t != V.none))
        return dict(self=fobj(ex, DTS, "DatasetTypeNode", dict(dataset_type=dt)), args=[r], r=r, dt=dt)

    def p_g(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        b = If(z3.Function("is_component", V, BOOL)(st["r"].t), z3.Function("composite", V, V)(st["r"].t), st["r"].t)
        sc = SCN(st["dt"].t)
        return [("the whole dataset, in the graph's storage class", ex.box(p.value) == If(SCN(DTOF(b)) == sc, b, over(b, sc)))]
    vc.function(ctx, DTS, "DatasetTypeNode.generalize_ref", s_g, p_g)
