"""P19: the skeleton's task bookkeeping and its graph stay in step under every edit."""
from pyvc.spec import *

FILE = "quantum_graph_skeleton.py"
x, y, l, u, v = (q1(n + "!s") for n in "xyluv")
kind = z3.Function("key_kind", V, INT)                 # 0 quantum, 1 task init, 2 dataset, 3 prerequisite
LABEL = z3.Function("attr!Key.task_label.0", V, V)
ISTASK = z3.Function("attr!Key.is_task.0", V, BOOL)
pair = lambda a, b: tup_term([a, b])
e1, e2 = lambda t: tup_proj(t, 0), lambda t: tup_proj(t, 1)
qkey = z3.Function("quantum_key", V, V, V)
ikey = z3.Function("init_key", V, V)
dkey = z3.Function("dataset_key", V, V, V)
pkey = z3.Function("prereq_key", V, V, V)
nstate = z3.Function("node_state", V, V, V)
reach = z3.Function("reach", V, V, BOOL)               # a path of at least one edge in the graph as it was on entry
expanded = z3.Function("expanded_ref", V, V, V)
tally = z3.Function("quanta_of_label_in", V, VSET, INT)
isq = lambda k: kind(k) == 0
isinit = lambda k: kind(k) == 1
isds = lambda k: kind(k) >= 2


def make_ctx():
    ctx = Ctx()
    ctx.enum_as_set = True
    for n in ("Label", "Values", "DataId", "Id", "Bytes", "Val", "Any_"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Val"] = ClassInfo({}, (), {"expanded": lambda ex, a, kw: Sym("val", expanded(ex.box(a[0]), ex.box(a[1])), "Val")})
    ctx.classes["DataId"] = ClassInfo({"required_values": "Values"})
    ctx.classes["DType"] = ClassInfo({"name": "Label"})
    ctx.classes["Id"] = ClassInfo({"bytes": "Bytes"})
    ctx.classes["DRef"] = ClassInfo({"datasetType": "DType", "dataId": "DataId", "id": "Id"})
    ctx.classes["Key"] = ClassInfo({"task_label": "Label", "is_task": "bool", "is_prerequisite": "bool", "parent_dataset_type_name": "Label"})

    def nodes(ex, g):
        return Sel(ex.field_arrays("DiGraph", "node_set", D("set[Key]"))[0][0], g.t)

    def edges(ex, g):
        return Sel(ex.field_arrays("DiGraph", "edge_set", D("set[Pair]"))[0][0], g.t)
    ctx.nodes, ctx.edges = nodes, edges

    def put(ex, g, attr, ty, f):
        m = ex.fresh(attr, VSET)
        ex.assume(All(x, Sel(m, x) == f(x), [Sel(m, x)]))
        ex.write_field(g.t, "DiGraph", attr, ex.alloc(SetC(m, ("val", ty))), D(f"set[{ty}]"))

    def drop(ex, g, gone):
        n0, e0 = nodes(ex, g), edges(ex, g)
        put(ex, g, "node_set", "Key", lambda x: And(Sel(n0, x), Not(gone(x))))
        m = ex.fresh("edge_set", VSET)
        ex.assume(All(x, Implies(Sel(m, x), Sel(e0, x)), [Sel(m, x)]))
        for pat in (Sel(m, pair(u, v)), Sel(e0, pair(u, v))):
            ex.assume(All([u, v], Sel(m, pair(u, v)) == And(Sel(e0, pair(u, v)), Not(gone(u)), Not(gone(v))), [pat]))
        ex.write_field(g.t, "DiGraph", "edge_set", ex.alloc(SetC(m, ("val", "Pair"))), D("set[Pair]"))

    def need(ex, g, k):
        kt = ex.box(k)
        if not ex.branch(Sel(nodes(ex, g), kt)):
            ex.raise_("NetworkXError")
        return kt

    def succ(ex, a, kw):
        kt = need(ex, a[0], a[1])
        es = edges(ex, a[0])
        s = ex.fresh_set("succ", lambda x: Sel(es, pair(kt, x)), ("val", "Key"))
        return DomainVal(set_dom(ex, s.mem, ("val", "Key")))

    def pred(ex, a, kw):
        kt = need(ex, a[0], a[1])
        es = edges(ex, a[0])
        s = ex.fresh_set("pred", lambda x: Sel(es, pair(x, kt)), ("val", "Key"))
        ex.assume(All(x, Implies(Sel(es, pair(x, kt)), Sel(s.mem, x)), [Sel(es, pair(x, kt))]))
        return DomainVal(set_dom(ex, s.mem, ("val", "Key")))

    def remove_node(ex, a, kw):
        kt = need(ex, a[0], a[1])
        drop(ex, a[0], lambda x: x == kt)
        return NONE

    def remove_nodes_from(ex, a, kw):
        ks = ex.as_set(a[1]).mem
        drop(ex, a[0], lambda x: Sel(ks, x))
        return NONE

    def add_node(ex, a, kw):
        g, kt = a[0], ex.box(a[1])
        n0 = nodes(ex, g)
        ex.write_field(g.t, "DiGraph", "node_set", ex.alloc(SetC(z3.Store(n0, kt, z3.BoolVal(True)), ("val", "Key"))), D("set[Key]"))
        for k, val in kw.items():
            if k != "**":
                ex.setitem(attrs(g, kt), Const(k), val)
        return NONE

    def add_edge(ex, a, kw):
        g, p, q = a[0], ex.box(a[1]), ex.box(a[2])
        n0, e0 = nodes(ex, g), edges(ex, g)
        put(ex, g, "node_set", "Key", lambda x: Or(Sel(n0, x), x == p, x == q))
        put(ex, g, "edge_set", "Pair", lambda x: Or(Sel(e0, x), x == pair(p, q)))
        return NONE

    def remove_edge(ex, a, kw):
        g, p, q = a[0], ex.box(a[1]), ex.box(a[2])
        e0 = edges(ex, g)
        if not ex.branch(Sel(e0, pair(p, q))):
            ex.raise_("NetworkXError")
        put(ex, g, "edge_set", "Pair", lambda x: And(Sel(e0, x), x != pair(p, q)))
        return NONE

    def edge_terms(ex, a):
        return ex.as_set(a).mem

    def add_edges_from(ex, a, kw):
        g, es = a[0], edge_terms(ex, a[1])
        n0, e0 = nodes(ex, g), edges(ex, g)
        put(ex, g, "node_set", "Key", lambda x: Or(Sel(n0, x), Any(y, And(Sel(es, y), Or(x == e1(y), x == e2(y))))))
        put(ex, g, "edge_set", "Pair", lambda x: Or(Sel(e0, x), Sel(es, x)))
        return NONE

    def remove_edges_from(ex, a, kw):
        g, es = a[0], edge_terms(ex, a[1])
        e0 = edges(ex, g)
        put(ex, g, "edge_set", "Pair", lambda x: And(Sel(e0, x), Not(Sel(es, x))))
        return NONE

    def g_update(ex, a, kw):
        g, o = a
        n0, e0, n1, e1_ = nodes(ex, g), edges(ex, g), nodes(ex, o), edges(ex, o)
        put(ex, g, "node_set", "Key", lambda x: Or(Sel(n0, x), Sel(n1, x)))
        put(ex, g, "edge_set", "Pair", lambda x: Or(Sel(e0, x), Sel(e1_, x)))
        return NONE

    def attrs(g, kt):
        return Place(("field", "NodeState", "attrs"), nstate(g.t, kt), D("map[str,Val]"))
    ctx.attrs = attrs
    view = lambda a: Sym("val", a.t, "DiGraph")

    def v_get(ex, a, kw):
        g = view(a[0])
        kt = ex.box(a[1])
        if not ex.branch(Sel(nodes(ex, g), kt)):
            ex.raise_("KeyError")
        return attrs(g, kt)
    ctx.classes["NodeState"] = ClassInfo({"attrs": "map[str,Val]"}, "all")
    it = lambda ex, a, kw: DomainVal(set_dom(ex, nodes(ex, a[0]), ("val", "Key")))
    contains = lambda ex, a, kw: Sym("bool", Sel(nodes(ex, a[0]), ex.box(a[1])))
    ctx.classes["NodeView"] = ClassInfo({}, (), {"__contains__": contains, "__getitem__": v_get, "__iter__": it})
    ctx.classes["DiGraph"] = ClassInfo({"node_set": "set[Key]", "edge_set": "set[Pair]"}, "all", {
        "successors": succ, "predecessors": pred, "remove_node": remove_node, "remove_nodes_from": remove_nodes_from, "add_node": add_node, "add_edge": add_edge,
        "remove_edge": remove_edge, "add_edges_from": add_edges_from, "remove_edges_from": remove_edges_from, "update": g_update, "__iter__": it, "__contains__": contains})
    ctx.classes["Pair"] = ClassInfo()
    ctx.attr_hook = lambda ex, o, attr: Sym("val", o.t, "NodeView") if isinstance(o, Sym) and getattr(o, "ty", "") == "DiGraph" and attr == "nodes" else None

    def anc(ex, a, kw):
        kt = need(ex, a[0], a[1])
        return ex.fresh_set_ref("anc", lambda x: reach(x, kt), ("val", "Key"))

    def mkset(ex, name, f):
        m = ex.fresh(name, VSET)
        ex.assume(All(x, Sel(m, x) == f(x), [Sel(m, x)]))
        return ex.alloc(SetC(m, ("val", "Key")))
    for pre in ("networkx.", "networkx.dag.", "networkx.algorithms.", "networkx.algorithms.dag."):
        ctx.stubs[pre + "ancestors"] = lambda ex, a, kw: (lambda kt: mkset(ex, "anc", lambda x: reach(x, kt)))(need(ex, a[0], a[1]))
        ctx.stubs[pre + "descendants"] = lambda ex, a, kw: (lambda kt: mkset(ex, "desc", lambda x: reach(kt, x)))(need(ex, a[0], a[1]))

    def isolates(ex, a, kw):
        ns, es = nodes(ex, a[0]), edges(ex, a[0])
        s = ex.fresh_set("isolated", lambda x: And(Sel(ns, x), Not(Any(y, Or(Sel(es, pair(x, y)), Sel(es, pair(y, x)))))), ("val", "Key"))
        return DomainVal(set_dom(ex, s.mem, ("val", "Key")))
    ctx.stubs["networkx.isolates"] = isolates
    ctx.exc_parent["NetworkXError"] = "Exception"

    def mk(fn, names, kd):
        def make(ex, a, kw):
            vals = list(a) + [kw[n] for n in names[len(a):]]
            t = fn(*[ex.box(w) for w in vals])
            ex.assume(And(t != V.none, kind(t) == kd, ISTASK(t) == (kd < 2)))
            if kd < 2:
                ex.assume(LABEL(t) == ex.box(vals[0]))
            return Sym("val", t, "Key")
        return make
    ctx.constructors["QuantumKey"] = mk(qkey, ["task_label", "data_id_values"], 0)
    ctx.constructors["TaskInitKey"] = mk(ikey, ["task_label"], 1)
    ctx.constructors["DatasetKey"] = mk(dkey, ["parent_dataset_type_name", "data_id_values"], 2)
    ctx.constructors["PrerequisiteDatasetKey"] = mk(pkey, ["parent_dataset_type_name", "dataset_id_bytes"], 3)
    names = dict(QuantumKey=0, TaskInitKey=1, DatasetKey=2, PrerequisiteDatasetKey=3)

    def inst(ex, o, cls):
        if getattr(o, "ty", "") == "Key" and cls in names:
            return kind(o.t) == names[cls]
        return None
    ctx.isinstance_hook = inst
    return ctx


def parts(ctx, ex, o):
    f = ex.heap[o.addr].fields
    c = ex.cell(f["_tasks"])
    g = f["_xgraph"]
    return c.dom, c.vals[0], c.vals[1], ctx.nodes(ex, g), ctx.edges(ex, g), mem(ex, f["_global_init_outputs"])


def inv(ctx, ex, o):
    dom, init, quanta, N, E, G = parts(ctx, ex, o)
    return [
        ("every task has its init node", All(l, Implies(Sel(dom, l), And(Sel(init, l) == ikey(l), Sel(N, ikey(l)))))),
        ("the quanta of a task are exactly its quantum nodes", All([l, x], Implies(Sel(dom, l), Sel(Sel(quanta, l), x) == And(Sel(N, x), isq(x), LABEL(x) == l)), [Sel(Sel(quanta, l), x)])),
        ("every quantum node belongs to a known task", All(x, Implies(And(Sel(N, x), isq(x)), And(Sel(dom, LABEL(x)), Sel(Sel(quanta, LABEL(x)), x))))),
        ("every init node belongs to a known task", All(x, Implies(And(Sel(N, x), isinit(x)), And(Sel(dom, LABEL(x)), x == ikey(LABEL(x)))))),
        ("edges join a task-like node and a dataset node", All([u, v], Implies(Sel(E, pair(u, v)), And(Sel(N, u), Sel(N, v), isds(u) != isds(v))), [Sel(E, pair(u, v))])),
    ]


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("networkx.DiGraph is a set of nodes, a set of edges and a dict per node; ancestors/descendants/isolates by their definitions",
                   "no path leads from a quantum to a task-init node (init-inputs are never outputs of quanta), and only dataset nodes are passed where dataset nodes are declared",
                   "keys are equal exactly if class and fields are equal (frozen dataclasses)",
                   "remove_unanchored_quanta and extract_overall_inputs are covered by the bounded run only")

    def axioms(ex):
        ex.assume(All(x, And(ISTASK(x) == (kind(x) < 2), kind(x) >= 0, kind(x) <= 3), [kind(x)]))
        ex.assume(All(x, And(ISTASK(x) == (kind(x) < 2)), [ISTASK(x)]))
        ex.assume(All(l, And(kind(ikey(l)) == 1, LABEL(ikey(l)) == l, ikey(l) != V.none), [ikey(l)]))
        ex.assume(All([u, v], And(kind(qkey(u, v)) == 0, LABEL(qkey(u, v)) == u), [qkey(u, v)]))
        ex.assume(All([u, v], And(kind(dkey(u, v)) == 2), [dkey(u, v)]))
        ex.assume(All([u, v], And(kind(pkey(u, v)) == 3), [pkey(u, v)]))

    def base(ex, invariant=True):
        axioms(ex)
        g = Sym("val", z3.Const("the_graph", V), "DiGraph")
        ex.assume(g.t != V.none)
        o = fobj(ex, FILE, "QuantumGraphSkeleton", dict(_xgraph=g, _tasks=fmap(ex, "tasks", "Label", "tup[Key,set[Key]]"), _global_init_outputs=fset(ex, "globals", "Key"),
                                                        _dimension_data=fmap(ex, "dimdata", "Name_", "RecSet")))
        N, E = ctx.nodes(ex, g), ctx.edges(ex, g)
        ex.field_arrays("NodeState", "attrs", D("map[str,Val]"))
        ex.assume(All(x, Implies(Sel(E, x), x == pair(e1(x), e2(x))), [Sel(E, x)]))
        if invariant:
            for _, f in inv(ctx, ex, o):
                ex.assume(f)
        return o, dict(self=o, g=g, old_parts=parts(ctx, ex, o))

    def quanta_of(q, l):
        return Sel(q, l)

    def frame_globals(ex, st):
        G0, G = st["old_parts"][5], parts(ctx, ex, st["self"])[5]
        N = parts(ctx, ex, st["self"])[3]
        return [("what is left of the global init-outputs is unchanged", All(x, Implies(Sel(N, x), Sel(G, x) == Sel(G0, x))))]

    def tasks_same(ex, st):
        d0, d = st["old_parts"][0], parts(ctx, ex, st["self"])[0]
        return [("the set of tasks is unchanged", All(l, Sel(d, l) == Sel(d0, l)))]

    def gone(ex, st, pred):
        """Exactly the nodes satisfying pred, and the edges touching them, are gone."""
        N0, E0 = st["old_parts"][3:5]
        N, E = parts(ctx, ex, st["self"])[3:5]
        return [("exactly the intended nodes are removed", All(x, Sel(N, x) == And(Sel(N0, x), Not(pred(x))))),
                ("exactly the edges of removed nodes are removed", All([u, v], Sel(E, pair(u, v)) == And(Sel(E0, pair(u, v)), Not(pred(u)), Not(pred(v)))))]

    def ok(ex, st, p, goals):
        if p.kind == "raise":
            return [("no failure", False)]
        return inv(ctx, ex, st["self"]) + goals

    # ---- adding
    def s_addq(ex):
        o, st = base(ex)
        lab, did = fval(ex, "label", "Label"), fval(ex, "data_id", "DataId")
        ex.assume(lab.t != V.none)
        return dict(st, args=[lab, did], lab=lab, did=did)

    def p_addq(ex, st, p):
        d0, i0, q0, N0, E0, G0 = st["old_parts"]
        if p.kind == "raise":
            return [("fails only for an unknown task", And(p.value.cls == "KeyError", Not(Sel(d0, st["lab"].t))))]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        k = qkey(st["lab"].t, ex.box(ex.getattr(st["did"], "required_values")))
        return ok(ex, st, p, [("the key identifies label and data ID", ex.box(p.value) == k), ("exactly one node is added", All(x, Sel(N, x) == Or(Sel(N0, x), x == k))),
                              ("no edge changes", All(x, Sel(E, x) == Sel(E0, x))),
                              ("the data ID is attached", ex.box(ex.getitem(ctx.attrs(st["g"], k), Const("data_id"))) == st["did"].t)] + tasks_same(ex, st) + frame_globals(ex, st))
    vc.function(ctx, FILE, "QuantumGraphSkeleton.add_quantum_node", s_addq, p_addq)

    def s_addd(glob):
        def s(ex):
            o, st = base(ex)
            n, did = fval(ex, "name", "Label"), fval(ex, "data_id", "DataId")
            return dict(st, args=[n, did], kw=dict(is_global_init_output=Sym("bool", z3.BoolVal(glob))), n=n, did=did, glob=glob)
        return s

    def p_addd(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        d0, i0, q0, N0, E0, G0 = st["old_parts"]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        k = dkey(st["n"].t, ex.box(ex.getattr(st["did"], "required_values")))
        return ok(ex, st, p, [("the key identifies dataset type and data ID", ex.box(p.value) == k), ("exactly one node is added", All(x, Sel(N, x) == Or(Sel(N0, x), x == k))),
                              ("no edge changes", All(x, Sel(E, x) == Sel(E0, x))), ("global only on request", All(x, Sel(G, x) == Or(Sel(G0, x), And(x == k, st["glob"]))))] + tasks_same(ex, st))
    for gl in (False, True):
        vc.function(ctx, FILE, "QuantumGraphSkeleton.add_dataset_node", s_addd(gl), p_addd, name=f"QuantumGraphSkeleton.add_dataset_node({gl})")

    def s_edge(kd_first):
        def s(ex):
            o, st = base(ex)
            a, b = fval(ex, "task_key", "Key"), fval(ex, "dataset_key", "Key")
            ex.assume(And(a.t != V.none, b.t != V.none, Not(isds(a.t)), isds(b.t)))
            kw = {}
            if kd_first == "maybe":
                kw = dict(ignore_unrecognized_quanta=Const(True))
            elif kd_first == "in":
                ex.assume(Sel(st["old_parts"][3], a.t))
            return dict(st, args=[a, b], kw=kw, a=a, b=b, k=kd_first)
        return s

    def p_edge(ex, st, p):
        d0, i0, q0, N0, E0, G0 = st["old_parts"]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        a, b = st["a"].t, st["b"].t
        if p.kind == "raise":
            return [("fails only if a node is missing, changing nothing", And(st["k"] == "out", Not(And(Sel(N0, a), Sel(N0, b))), All(x, Sel(N, x) == Sel(N0, x)), All(x, Sel(E, x) == Sel(E0, x))))]
        e = pair(a, b) if st["k"] == "out" else pair(b, a)
        added = True if st["k"] != "maybe" else Sel(N0, a)
        return ok(ex, st, p, [("exactly that edge is added", All(x, Sel(E, x) == Or(Sel(E0, x), And(added, x == e)))), ("no node but the dataset is added", All(x, Sel(N, x) == Or(Sel(N0, x), And(added, x == b)))),
                              ("the answer tells whether it was added", True if st["k"] == "out" else ex.as_bool(p.value) == added)] + tasks_same(ex, st) + frame_globals(ex, st))
    vc.function(ctx, FILE, "QuantumGraphSkeleton.add_input_edge", s_edge("in"), p_edge)
    vc.function(ctx, FILE, "QuantumGraphSkeleton.add_input_edge", s_edge("maybe"), p_edge, name="QuantumGraphSkeleton.add_input_edge(ignore unrecognized)")
    vc.function(ctx, FILE, "QuantumGraphSkeleton.add_output_edge", s_edge("out"), p_edge)

    def s_edges(must):
        def s(ex):
            o, st = base(ex)
            a, ks = fval(ex, "task_key", "Key"), fseq(ex, "dataset_keys", "Key")
            c = ex.cell(ks)
            ex.assume(And(a.t != V.none, Not(isds(a.t))))
            j = z3.Int("j!s")
            ex.assume(All(j, Implies(And(0 <= j, j < c.n), And(Sel(c.ats[0], j) != V.none, isds(Sel(c.ats[0], j)))), [Sel(c.ats[0], j)]))
            if not must:
                ex.assume(Sel(st["old_parts"][3], a.t))
            return dict(st, args=[a, ks], a=a, ks=ex.as_set(ks).mem, add=must)
        return s

    def p_edges(ex, st, p):
        d0, i0, q0, N0, E0, G0 = st["old_parts"]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        a, ks = st["a"].t, st["ks"]
        if p.kind == "raise":
            return [("fails only if the node is missing, changing nothing", And(st["add"], Not(Sel(N0, a)), All(x, Sel(N, x) == Sel(N0, x)), All(x, Sel(E, x) == Sel(E0, x))))]
        touched = lambda u, v: And(v == a, Sel(ks, u))
        if st["add"]:
            g = [("exactly the given edges are added", All([u, v], Sel(E, pair(u, v)) == Or(Sel(E0, pair(u, v)), touched(u, v)))), ("only the given datasets are added", All(x, Sel(N, x) == Or(Sel(N0, x), Sel(ks, x))))]
        else:
            g = [("exactly the given edges are removed", All([u, v], Sel(E, pair(u, v)) == And(Sel(E0, pair(u, v)), Not(touched(u, v))))), ("no node is removed", All(x, Sel(N, x) == Sel(N0, x)))]
        return ok(ex, st, p, g + tasks_same(ex, st) + frame_globals(ex, st))
    vc.function(ctx, FILE, "QuantumGraphSkeleton.add_input_edges", s_edges(True), p_edges)
    vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_input_edges", s_edges(False), p_edges)

    def s_rmout(ex):
        o, st = base(ex)
        k, prod = fval(ex, "dataset_key", "Key"), fval(ex, "producer", "Key")
        N0, E0 = st["old_parts"][3:5]
        ex.assume(And(k.t != V.none, isds(k.t), Sel(N0, k.t), prod.t != V.none))
        ex.assume(And(Sel(E0, pair(prod.t, k.t)), All(u, Sel(E0, pair(u, k.t)) == (u == prod.t), [Sel(E0, pair(u, k.t))])))
        return dict(st, args=[k], k=k.t, prod=prod.t)

    def p_rmout(ex, st, p):
        N0, E0 = st["old_parts"][3:5]
        N, E = parts(ctx, ex, st["self"])[3:5]
        if p.kind == "raise":
            return [("no failure", False)]
        return ok(ex, st, p, [("exactly the producer's edge is removed", All([u, v], Sel(E, pair(u, v)) == And(Sel(E0, pair(u, v)), v != st["k"]))), ("no node is removed", All(x, Sel(N, x) == Sel(N0, x)))]
                  + tasks_same(ex, st) + frame_globals(ex, st))
    vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_output_edge", s_rmout, p_rmout)

    # ---- construction and merging
    def s_new(ex):
        axioms(ex)
        ctx.new_graph = z3.Const("the_graph", V)
        o = fobj(ex, FILE, "QuantumGraphSkeleton", {})
        ls = fseq(ex, "task_labels", "Label")
        return dict(self=o, args=[ls], ls=ex.as_set(ls).mem)

    def p_new(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        return inv(ctx, ex, st["self"]) + [("exactly the given tasks", All(l, Sel(d, l) == Sel(st["ls"], l))), ("no quanta or datasets yet", All(x, Implies(Sel(N, x), isinit(x)))), ("no edges yet", All(x, Not(Sel(E, x)))),
                                           ("no global init-outputs yet", All(x, Not(Sel(G, x))))]

    def new_graph(ex, a, kw):
        g = Sym("val", ex.fresh("new_graph", V), "DiGraph")
        ex.assume(g.t != V.none)
        ex.write_field(g.t, "DiGraph", "node_set", ex.alloc(SetC(FALSE_SET, ("val", "Key"))), D("set[Key]"))
        ex.write_field(g.t, "DiGraph", "edge_set", ex.alloc(SetC(FALSE_SET, ("val", "Pair"))), D("set[Pair]"))
        return g
    ctx.stubs["networkx.DiGraph"] = new_graph
    ctx.ann_types["_tasks"] = D("map[Label,tup[Key,set[Key]]]")
    vc.function(ctx, FILE, "QuantumGraphSkeleton.__init__", s_new, p_new)

    def s_upd(ex):
        o, st = base(ex)
        g2 = Sym("val", z3.Const("other_graph", V), "DiGraph")
        ex.assume(And(g2.t != V.none, g2.t != st["g"].t))
        other = fobj(ex, FILE, "QuantumGraphSkeleton", dict(_xgraph=g2, _tasks=fmap(ex, "other_tasks", "Label", "tup[Key,set[Key]]"), _global_init_outputs=fset(ex, "other_globals", "Key"),
                                                            _dimension_data=fmap(ex, "other_dimdata", "Name_", "RecSet")))
        E = ctx.edges(ex, g2)
        ex.assume(All(x, Implies(Sel(E, x), x == pair(e1(x), e2(x))), [Sel(E, x)]))
        for _, f in inv(ctx, ex, other):
            ex.assume(f)
        op = parts(ctx, ex, other)
        ex.assume(All(l, Implies(Sel(op[0], l), Sel(st["old_parts"][0], l)), [Sel(op[0], l)]))
        return dict(st, args=[other], op=op)

    def p_upd(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        N0, E0 = st["old_parts"][3:5]
        N1, E1 = st["op"][3:5]
        d, i, q, N, E, G = parts(ctx, ex, st["self"])
        return ok(ex, st, p, [("nodes of both", All(x, Sel(N, x) == Or(Sel(N0, x), Sel(N1, x)))), ("edges of both", All(x, Sel(E, x) == Or(Sel(E0, x), Sel(E1, x))))] + tasks_same(ex, st))
    ctx.classes["RecSet"] = ClassInfo({"element": "Elem"}, (), {"update": lambda ex, a, kw: NONE})
    ctx.classes["Elem"] = ClassInfo({"name": "Name_"})
    ctx.classes["Name_"] = ClassInfo()
    ctx.stubs["lsst.daf.butler.DimensionRecordSet"] = lambda ex, a, kw: Sym("val", ex.fresh("recset", V), "RecSet")
    vc.function(ctx, FILE, "QuantumGraphSkeleton.update", s_upd, p_upd)

    # ---- removing
    def s_rmq(outs):
        def s(ex):
            o, st = base(ex)
            k = fval(ex, "key", "Key")
            ex.assume(And(k.t != V.none, isq(k.t), Sel(st["old_parts"][3], k.t)))
            return dict(st, args=[k], kw=dict(remove_outputs=Const(outs)), k=k, outs=outs)
        return s

    def p_rmq(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        k, E0 = st["k"].t, st["old_parts"][4]
        pred = (lambda x: Or(x == k, Sel(E0, pair(k, x)))) if st["outs"] else (lambda x: x == k)
        return ok(ex, st, p, gone(ex, st, pred) + tasks_same(ex, st) + frame_globals(ex, st))
    for outs in (True, False):
        vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_quantum_node", s_rmq(outs), p_rmq, name=f"QuantumGraphSkeleton.remove_quantum_node(remove_outputs={outs})")

    def s_rmd(ex):
        o, st = base(ex)
        ks = fseq(ex, "keys", "Key")
        c = ex.cell(ks)
        j = z3.Int("j!s")
        ex.assume(All(j, Implies(And(0 <= j, j < c.n), And(Sel(c.ats[0], j) != V.none, isds(Sel(c.ats[0], j)))), [Sel(c.ats[0], j)]))
        return dict(st, args=[ks], ks=ex.as_set(ks).mem)

    def p_rmd(ex, st, p):
        return ok(ex, st, p, gone(ex, st, lambda x: Sel(st["ks"], x)) + tasks_same(ex, st) + frame_globals(ex, st) if p.kind != "raise" else [])
    vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_dataset_nodes", s_rmd, p_rmd)

    def s_rmt(ex):
        o, st = base(ex)
        lab = fval(ex, "label", "Label")
        return dict(st, args=[lab], lab=lab)

    def p_rmt(ex, st, p):
        d0, i0, q0, N0, E0, G0 = st["old_parts"]
        lab = st["lab"].t
        if p.kind == "raise":
            return [("refused only for an unknown task or one with quanta or init-outputs", Or(Not(Sel(d0, lab)), Any(x, Sel(Sel(q0, lab), x)), Any(x, Sel(E0, pair(ikey(lab), x)))))]
        d = parts(ctx, ex, st["self"])[0]
        return ok(ex, st, p, gone(ex, st, lambda x: x == ikey(lab)) + [("only that task is dropped", All(l, Sel(d, l) == And(Sel(d0, l), l != lab)))] + frame_globals(ex, st))
    vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_task", s_rmt, p_rmt)

    def s_orph(ex):
        o, st = base(ex)
        d0, i0, q0, N0, E0, G0 = st["old_parts"]

        def hook(ex2, fr, dom, D_, cnt):
            N, E = parts(ctx, ex2, o)[3:5]
            j = z3.Int("j!o")
            keep = lambda x: Not(And(Sel(N0, x), isds(x), Not(Sel(G0, x)), Not(Any(y, Or(Sel(E0, pair(x, y)), Sel(E0, pair(y, x)))))))
            out = [("only orphans removed", All(x, Implies(And(Sel(N0, x), keep(x)), Sel(N, x)), [Sel(N, x)])), ("nothing appears", All(x, Implies(Sel(N, x), Sel(N0, x)), [Sel(N, x)])),
                   ("edges stay", All([u, v], Sel(E, pair(u, v)) == Sel(E0, pair(u, v)), [Sel(E, pair(u, v))]))]
            if dom.sort == V:
                out += [("visited are gone", All(x, Implies(And(D_(x), isds(x), Not(Sel(G0, x))), Not(Sel(N, x))), [Sel(N, x)])),
                        ("unvisited are there", All(x, Implies(And(Sel(N0, x), Not(D_(x))), Sel(N, x)), [Sel(N, x)]))]
            return out
        ctx.loop_hooks["remove_orphan_datasets:for"] = hook
        return dict(st, args=[])

    def p_orph(ex, st, p):
        N0, E0, G0 = st["old_parts"][3:]
        return ok(ex, st, p, gone(ex, st, lambda x: And(Sel(N0, x), isds(x), Not(Sel(G0, x)), Not(Any(y, Or(Sel(E0, pair(x, y)), Sel(E0, pair(y, x))))))) + tasks_same(ex, st) + frame_globals(ex, st) if p.kind != "raise" else [])
    vc.function(ctx, FILE, "QuantumGraphSkeleton.remove_orphan_datasets", s_orph, p_orph)

    # ---- node state
    def s_did(ex):
        o, st = base(ex)
        k, did = fval(ex, "key", "Key"), fval(ex, "data_id", "Val")
        ex.assume(And(k.t != V.none, did.t != V.none, Sel(st["old_parts"][3], k.t)))
        pl = ctx.attrs(st["g"], k.t)
        arrs = ex.field_arrays("NodeState", "attrs", D("map[str,Val]"))[0]
        d0, v0 = arrs[0], arrs[1]
        ex.assume(All([x, y], Implies(Sel(Sel(d0, x), y), Sel(Sel(v0, x), y) != V.none)))
        ex.assume(All([x, y], expanded(x, y) != V.none, [expanded(x, y)]))
        return dict(st, args=[k, did], k=k, did=did, d0=d0, v0=v0)

    def p_did(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        me = nstate(st["g"].t, st["k"].t)
        arrs = ex.field_arrays("NodeState", "attrs", D("map[str,Val]"))[0]
        d, vv = arrs[0], arrs[1]
        d0, v0 = st["d0"], st["v0"]
        names = [str_const(n) for n in ("ref", "output_for_skip", "output_in_the_way")]
        isn = lambda y: Or(*[y == n for n in names])
        D_, V_ = lambda a, s, n: Sel(Sel(a, s), n), lambda a, s, n: Sel(Sel(a, s), n)
        dd = str_const("data_id")
        return [("the data ID is replaced", And(D_(d, me, dd), V_(vv, me, dd) == st["did"].t)),
                ("every ref held for the node moves to the new data ID", All(y, Implies(And(isn(y), D_(d0, me, y)), And(D_(d, me, y), V_(vv, me, y) == expanded(V_(v0, me, y), st["did"].t))))),
                ("no ref appears", All(y, Implies(And(isn(y), Not(D_(d0, me, y))), Not(D_(d, me, y))))),
                ("other attributes stay", All(y, Implies(And(Not(isn(y)), y != dd), And(D_(d, me, y) == D_(d0, me, y), Implies(D_(d, me, y), V_(vv, me, y) == V_(v0, me, y)))))),
                ("other nodes stay", All([x, y], Implies(x != me, And(D_(d, x, y) == D_(d0, x, y), Implies(D_(d, x, y), V_(vv, x, y) == V_(v0, x, y))))))]
    vc.function(ctx, FILE, "QuantumGraphSkeleton.set_data_id", s_did, p_did)
