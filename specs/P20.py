"""P20: which quanta are skipped, re-run or refused because outputs already exist."""
from pyvc.spec import *

FILE = "quantum_graph_builder.py"
x, y, l, p_, d_ = (q1(n + "!b") for n in "xylpd")
kind = z3.Function("key_kind", V, INT)                      # 0 quantum, 1 task init, 2 dataset, 3 prerequisite
TYPE = z3.Function("attr!Key.parent_dataset_type_name.0", V, V)
VALUES = z3.Function("attr!Key.data_id_values.0", V, V)
PRE = z3.Function("attr!Key.is_prerequisite.0", V, BOOL)
REFID = z3.Function("attr!DRef.dataId.0", V, V)
inp = z3.Function("graph_input", V, V, BOOL)                # (quantum, dataset): edges on entry
out = z3.Function("graph_output", V, V, BOOL)
producer = z3.Function("producer", V, V)
dkey = z3.Function("dataset_key", V, V, V)
isq = lambda k: kind(k) == 0
newref = z3.Function("new_ref", V, V, V, V)                 # (dataset type, data ID, run)
dtype_of = z3.Function("pipeline_dataset_type", V, V)
dataid = z3.Function("node_data_id", V, V)
needs = z3.Function("needs_rerun_of", V, V, BOOL)           # (consumer, producer)


def make_ctx():
    ctx = Ctx()
    ctx.enum_as_set = True
    for n in ("Label", "Values", "DataId", "DType", "Bounds", "Any_"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["DRef"] = ClassInfo({"dataId": "DataId"}, truthy=lambda ex, v: v.t != V.none)
    ctx.classes["Key"] = ClassInfo({"task_label": "Label", "data_id_values": "Values", "is_prerequisite": "bool", "parent_dataset_type_name": "Label"})
    names = dict(QuantumKey=0, TaskInitKey=1, DatasetKey=2, PrerequisiteDatasetKey=3)
    ctx.isinstance_hook = lambda ex, o, cls: And(o.t != V.none, kind(o.t) == names[cls]) if getattr(o, "ty", "") == "Key" and cls in names else None

    def mk(ex, a, kw):
        vals = list(a) + [kw[n] for n in ["parent_dataset_type_name", "data_id_values"][len(a):]]
        return Sym("val", dkey(*[ex.box(w) for w in vals]), "Key")
    ctx.constructors["DatasetKey"] = mk

    # --- the skeleton, by the contracts P19 establishes
    def fld(ex, attr, d="map[Key,DRef]"):
        return ex.field_arrays("Skel", attr, D(d))[0]

    def gone(ex, s):
        return Sel(fld(ex, "removed", "set[Key]")[0], s.t)
    ctx.gone = gone

    def look(ex, s, attr, k):
        a = fld(ex, attr)
        return If(Sel(Sel(a[0], s.t), k), Sel(Sel(a[1], s.t), k), V.none)
    ctx.look = look
    ctx.fld = fld

    def getter(attr):
        return lambda ex, a, kw: Sym("val", look(ex, a[0], attr, ex.box(a[1])), "DRef")

    def add(ex, s, attr, k, ty="Key"):
        cur = Sel(fld(ex, attr, f"set[{ty}]")[0], s.t)
        ex.write_field(s.t, "Skel", attr, ex.alloc(SetC(z3.Store(cur, ex.box(k), z3.BoolVal(True)), ("val", ty))), D(f"set[{ty}]"))

    def set_ref(ex, a, kw):
        key = a[2] if len(a) > 2 else kw.get("key")
        if key is None:
            raise Unsupported("set_dataset_ref without key")
        ex.setitem(Place(("field", "Skel", "ref"), a[0].t, D("map[Key,DRef]")), key, a[1])
        return NONE

    def discard(ex, a, kw):
        ex.call(ex.getattr(Place(("field", "Skel", "in_way"), a[0].t, D("map[Key,DRef]")), "pop"), [a[1], NONE], {})
        return NONE

    def remove(ex, a, kw):
        c = ex.cell(a[1]) if isinstance(a[1], (Ref, Place)) else None
        if c is None or c.kind != "list":
            raise Unsupported("removal of a computed set of nodes")
        for k in c.items:
            add(ex, a[0], "removed", k)
        return NONE

    def edges_of(rel):
        def it(ex, a, kw):
            q, g = ex.box(a[1]), gone(ex, a[0])
            s = ex.fresh_set("edges", lambda x: And(rel(q, x), Not(Sel(g, x))), ("val", "Key"))
            return DomainVal(set_dom(ex, s.mem, ("val", "Key")))
        return it

    def quanta(ex, a, kw):
        arr = fld(ex, "quanta", "map[Label,set[Key]]")
        return ex.getitem(Place(("field", "Skel", "quanta"), a[0].t, D("map[Label,set[Key]]")), a[1])

    def rmq(ex, a, kw):
        flag = kw.get("remove_outputs", a[2] if len(a) > 2 else None)
        if not isinstance(flag, Const):
            raise Unsupported("remove_outputs computed")
        add(ex, a[0], "removed_quanta" if flag.v is False else "removed_with_outputs", a[1])
        return NONE

    def getitem(ex, a, kw):
        return Sym("val", z3.Function("node_state", V, V)(ex.box(a[1])), "State")
    ctx.classes["State"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", ex.fresh("state_item", V), "DataId")})

    def prereq(ex, a, kw):
        return Sym("val", z3.Function("prereq_key", V, V)(ex.box(a[1])), "Key")
    ctx.classes["Skel"] = ClassInfo({"ref": "map[Key,DRef]", "for_skip": "map[Key,DRef]", "in_way": "map[Key,DRef]", "removed": "set[Key]", "removed_quanta": "set[Key]", "removed_with_outputs": "set[Key]",
                                     "quanta": "map[Label,set[Key]]", "applied": "set[Key]", "updated": "set[Key]"}, "all", {
        "get_output_for_skip": getter("for_skip"), "get_output_in_the_way": getter("in_way"), "get_dataset_ref": getter("ref"), "set_dataset_ref": set_ref, "discard_output_in_the_way": discard,
        "remove_dataset_nodes": remove, "iter_outputs_of": edges_of(out), "iter_inputs_of": edges_of(inp), "get_producer_of": lambda ex, a, kw: Sym("val", producer(ex.box(a[1])), "Key"),
        "get_quanta": quanta, "remove_quantum_node": rmq, "__getitem__": getitem, "get_data_id": lambda ex, a, kw: Sym("val", dataid(ex.box(a[1])), "DataId"),
        "add_prerequisite_node": prereq, "add_input_edges": lambda ex, a, kw: NONE})
    ctx.classes["Edge"] = ClassInfo({"parent_dataset_type_name": "Label"})
    ctx.classes["TaskNode"] = ClassInfo({"label": "Label", "metadata_output": "Edge"})

    # --- worklists: the set of elements; popping leaves other copies of the element
    def deque(ex, a, kw):
        w = Sym("val", ex.fresh("worklist", V), "Work")
        ex.assume(w.t != V.none)
        m = ex.as_set(a[0]).mem if a else FALSE_SET
        ex.write_field(w.t, "Work", "items", ex.alloc(SetC(m, ("val", "Key"))), D("set[Key]"))
        ex.ghost["work"] = w
        return w
    items = lambda ex, w: Sel(ex.field_arrays("Work", "items", D("set[Key]"))[0][0], w.t)
    ctx.items = items

    def pop(ex, a, kw):
        m = items(ex, a[0])
        k = ex.fresh("popped", V)
        if not ex.branch(Any(x, Sel(m, x))):
            ex.raise_("IndexError")
        ex.assume(Sel(m, k))
        left = ex.fresh("copies_left", BOOL)
        ex.write_field(a[0].t, "Work", "items", ex.alloc(SetC(z3.Store(m, k, left), ("val", "Key"))), D("set[Key]"))
        return Sym("val", k, "Key")

    def push(ex, a, kw):
        m = items(ex, a[0])
        ex.write_field(a[0].t, "Work", "items", ex.alloc(SetC(z3.Store(m, ex.box(a[1]), z3.BoolVal(True)), ("val", "Key"))), D("set[Key]"))
        return NONE
    ctx.classes["Work"] = ClassInfo({"items": "set[Key]"}, "all", {"popleft": pop, "pop": pop, "append": push, "appendleft": push,
                                                                   "__iter__": lambda ex, a, kw: DomainVal(set_dom(ex, items(ex, a[0]), ("val", "Key")))},
                                    truthy=lambda ex, v: Any(x, Sel(items(ex, v), x)))
    ctx.stubs["collections.deque"] = deque

    # --- the rest of the world
    def dataset_ref(ex, a, kw):
        return Sym("val", newref(ex.box(a[0]), ex.box(a[1]), ex.box(kw["run"] if "run" in kw else a[2])), "DRef")
    ctx.stubs["lsst.daf.butler.DatasetRef"] = dataset_ref
    ctx.classes["DTNode"] = ClassInfo({"dataset_type": "DType"})
    ctx.classes["DTMap"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("dataset_type_node", V, V)(ex.box(a[1])), "DTNode")})
    ctx.classes["PGraph"] = ClassInfo({"dataset_types": "DTMap"})
    ctx.classes["Builder"] = ClassInfo({}, (), {"handle_dataset": lambda ex, a, kw: NONE, "finish": lambda ex, a, kw: Sym("val", ex.fresh("bounds", V), "Bounds")})
    ctx.classes["BoundsB"] = ClassInfo({}, (), {n: (lambda ex, a, kw: Sym("val", ex.fresh("builder", V), "Builder")) for n in ("make_skypix_bounds_builder", "make_timespan_builder")})

    def find(ex, a, kw):
        return DomainVal(set_dom(ex, ex.fresh("found", VSET), ("val", "DRef")))
    ctx.classes["Finder"] = ClassInfo({}, (), {"find": find})
    ctx.classes["PInfo"] = ClassInfo({"bounds": "BoundsB", "finders": "map[Label,Finder]"}, (), {"update_bounds": lambda ex, a, kw: NONE})
    return ctx


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("QuantumGraphSkeleton by its contract (see P19); get_producer_of gives the only producer", "the pipeline is processed in topological order (PipelineGraph.sort)",
                   "prerequisite finders and spatial/temporal bounds do not touch outputs or regular inputs", "the number returned by _unskip_ancestors is covered by the bounded run only",
                   "a collections.deque is a multiset whose next element is arbitrary (sound for results that do not depend on the order)")

    def base(ex):
        s = Sym("val", z3.Const("the_skeleton", V), "Skel")
        ex.assume(s.t != V.none)
        ex.assume(All([x, y], And(kind(dkey(x, y)) == 2, dkey(x, y) != V.none), [dkey(x, y)]))
        ex.assume(All([x, y], Implies(Or(inp(x, y), out(x, y)), And(y != V.none, kind(y) >= 2)), [inp(x, y)]))
        ex.assume(All([x, y], Implies(out(x, y), And(y != V.none, kind(y) == 2)), [out(x, y)]))
        ex.assume(All(y, PRE(y) == (kind(y) == 3), [PRE(y)]))
        for a in ("ref", "for_skip", "in_way"):
            arr = ctx.fld(ex, a)
            ex.assume(All(x, Implies(Sel(Sel(arr[0], s.t), x), Sel(Sel(arr[1], s.t), x) != V.none), [Sel(Sel(arr[1], s.t), x)]))
        g = ctx.gone(ex, s)
        ex.assume(All(x, Not(Sel(g, x)), [Sel(g, x)]))
        for a in ("removed_quanta", "removed_with_outputs", "applied", "updated"):
            m = Sel(ctx.fld(ex, a, "set[Key]")[0], s.t)
            ex.assume(All(x, Not(Sel(m, x)), [Sel(m, x)]))
        o = fobj(ex, FILE, "QuantumGraphBuilder", dict(_pipeline_graph=fval(ex, "pipeline_graph", "PGraph"), output_run=fval(ex, "output_run", "Label"), clobber=Sym("bool", ex.fresh("clobber", BOOL)),
                                                       butler=fval(ex, "butler", "Any_"), input_collections=fval(ex, "inputs", "Any_"), prerequisite_info=fmap(ex, "pinfo", "Label", "PInfo"), log=Noop()))
        q = fval(ex, "quantum_key", "Key")
        ex.assume(And(q.t != V.none, isq(q.t)))
        t = fval(ex, "task_node", "TaskNode")
        return dict(self=o, s=s, q=q, t=t)

    # --- a quantum is skipped exactly if its metadata exists among the outputs to skip for
    def s_c(ex):
        st = base(ex)
        return dict(st, args=[st["t"], st["q"], st["s"]])

    def p_c(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        meta = dkey(ex.box(ex.getattr(ex.getattr(st["t"], "metadata_output"), "parent_dataset_type_name")), VALUES(st["q"].t))
        return [("skipped exactly if its metadata exists", ex.as_bool(p.value) == (ctx.look(ex, st["s"], "for_skip", meta) != V.none))]
    vc.function(ctx, FILE, "QuantumGraphBuilder._compute_skip_decision", s_c, p_c)

    # --- applying a skip
    def s_a(ex):
        st = base(ex)
        s, q = st["s"], st["q"].t
        L = lambda a: ctx.fld(ex, a)
        v0 = {a: (Sel(L(a)[0], s.t), Sel(L(a)[1], s.t)) for a in ("ref", "for_skip", "in_way")}
        lk = lambda a, k: If(Sel(v0[a][0], k), Sel(v0[a][1], k), V.none)

        def hook(ex2, fr, dom, D_, cnt):
            if dom.sort != V:
                return []
            now = lambda a, k: ctx.look(ex2, s, a, k)
            g = ctx.gone(ex2, s)
            done = lambda k: And(D_(k), out(q, k))
            arr = ctx.fld(ex2, "ref")
            return [("removed", All(x, Sel(g, x) == And(done(x), lk("for_skip", x) == V.none), [Sel(g, x)])),
                    ("refs", All(x, now("ref", x) == If(And(done(x), lk("for_skip", x) != V.none), lk("for_skip", x), lk("ref", x)), [Sel(Sel(arr[0], s.t), x)])),
                    ("way", All(x, now("in_way", x) == If(done(x), V.none, lk("in_way", x)), [Sel(Sel(ctx.fld(ex2, "in_way")[0], s.t), x)]))]
        ctx.loop_hooks["_apply_skip_decision:for"] = hook
        return dict(st, args=[st["t"], st["q"], s], lk=lk)

    def p_a(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        s, q, lk = st["s"], st["q"].t, st["lk"]
        now = lambda a, k: ctx.look(ex, s, a, k)
        g = ctx.gone(ex, s)
        return [("predicted outputs that do not exist disappear, nothing else does", All(x, Sel(g, x) == And(out(q, x), lk("for_skip", x) == V.none))),
                ("existing outputs are used as they are", All(x, Implies(And(out(q, x), lk("for_skip", x) != V.none), now("ref", x) == lk("for_skip", x)))),
                ("no other dataset is resolved", All(x, Implies(Not(out(q, x)), now("ref", x) == lk("ref", x)))),
                ("outputs of a skipped quantum are not in the way", All(x, now("in_way", x) == If(out(q, x), V.none, lk("in_way", x))))]
    vc.function(ctx, FILE, "QuantumGraphBuilder._apply_skip_decision", s_a, p_a)

    # --- quanta that must be re-run because what they made is not retained
    def s_u(ex):
        st = base(ex)
        dec, ret = fmap(ex, "skip_decisions", "Key", "bool"), fset(ex, "retained", "Label")
        c = ex.cell(dec)
        R = mem(ex, ret)
        skip0 = lambda k: And(Sel(c.dom, k), Sel(c.vals[0], k))
        run0 = lambda k: And(Sel(c.dom, k), Not(Sel(c.vals[0], k)))
        via = lambda q, d: And(inp(q, d), Not(PRE(d)), Not(Sel(R, TYPE(d))), producer(d) != V.none, isq(producer(d)))
        ex.assume(All([x, y], needs(x, y) == Any(d_, And(via(x, d_), producer(d_) == y)), [needs(x, y)]))
        ex.assume(All([x, d_], Implies(via(x, d_), needs(x, producer(d_))), [inp(x, d_)]))
        ex.assume(All(x, Implies(Sel(c.dom, x), And(x != V.none, isq(x))), [Sel(c.dom, x)]))
        st["dec"] = dec

        def cur(ex2):
            m = ex2.cell(dec)
            return (lambda k: And(Sel(m.dom, k), Sel(m.vals[0], k))), (lambda k: And(Sel(m.dom, k), Not(Sel(m.vals[0], k)))), m

        def sets(ex2, fr):
            return [ex2.heap[w.addr].mem for w in fr.values() if isinstance(w, Ref) and w.addr in ex2.heap and ex2.heap[w.addr].kind == "set" and w.addr != ret.addr]

        def common(ex2, fr):
            skip, run, m = cur(ex2)
            W = ctx.items(ex2, ex2.ghost["work"])
            o = [("keys stay", All(x, Sel(m.dom, x) == Sel(c.dom, x), [Sel(m.dom, x)])), ("only un-skipping", All(x, Implies(skip(x), skip0(x)), [Sel(m.vals[0], x)])),
                 ("queued quanta run", All(x, Implies(Sel(W, x), run(x)), [Sel(W, x)])),
                 ("un-skipped for a reason", All(x, Implies(And(skip0(x), run(x)), Any(y, And(run(y), needs(y, x)))), [Sel(m.vals[0], x)]))]
            for n, S in enumerate(sets(ex2, fr)):
                o += [(f"visited {n} are not skipped", All(x, Implies(Sel(S, x), Not(skip(x))), [Sel(S, x)]))]
            return o, skip, run, W

        def winv(ex2, fr, phase):
            if "work" not in ex2.ghost:
                raise Unsupported("the worklist is not a deque any more")
            o, skip, run, W = common(ex2, fr)
            return o + [("closed", All([x, y], Implies(And(run(x), Not(Sel(W, x)), needs(x, y)), Not(skip(y))), [needs(x, y)]))]

        def hook(ex2, fr, dom, D_, cnt):
            if "work" not in ex2.ghost or dom.sort != V:
                return []
            o, skip, run, W = common(ex2, fr)
            me = [w.t for n, w in fr.items() if isinstance(w, Sym) and getattr(w, "ty", "") == "Key" and str(w.t).startswith("popped")]
            for k in me[:1]:
                o += [("closed but for the current one", All([x, y], Implies(And(run(x), Not(Sel(W, x)), x != k, needs(x, y)), Not(skip(y))), [needs(x, y)])),
                      ("current one partly closed", All(d_, Implies(And(D_(d_), via(k, d_)), Not(skip(producer(d_)))), [inp(k, d_)])), ("current one runs", run(k))]
            return o
        ctx.while_invs["_unskip_ancestors"] = winv
        ctx.loop_hooks["_unskip_ancestors:for"] = hook
        return dict(st, args=[st["s"], dec, ret], dec=dec, cur=cur, skip0=skip0, run0=run0, c=c)

    def p_u(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        skip, run, m = st["cur"](ex)
        return [("no quantum that runs lacks an input because its producer is skipped", All([x, y], Implies(And(run(x), needs(x, y)), Not(skip(y))))),
                ("a quantum is re-run only to make a missing input of one that runs", All(x, Implies(And(st["skip0"](x), run(x)), Any(y, And(run(y), needs(y, x)))))),
                ("no quantum becomes skipped", All(x, Implies(st["run0"](x), run(x)))), ("a decision remains for exactly the same quanta", All(x, Sel(m.dom, x) == Sel(st["c"].dom, x)))]
    vc.function(ctx, FILE, "QuantumGraphBuilder._unskip_ancestors", s_u, p_u)

    # --- all quanta of a task
    skipc = z3.Function("computed_skip", V, BOOL)

    def addto(attr):
        def f(ex, a, kw):
            s = ex.ghost["skel"]
            k = a[2] if attr == "applied" else a[1]
            cur = Sel(ctx.fld(ex, attr, "set[Key]")[0], s.t)
            ex.write_field(s.t, "Skel", attr, ex.alloc(SetC(z3.Store(cur, ex.box(k), z3.BoolVal(True)), ("val", "Key"))), D("set[Key]"))
            return NONE
        return f

    def s_r(given):
        def s_(ex):
            st = base(ex)
            ctx.contracts["QuantumGraphBuilder._compute_skip_decision"] = lambda ex, a, kw: Sym("bool", skipc(ex.box(a[2])))
            ctx.contracts["QuantumGraphBuilder._apply_skip_decision"] = addto("applied")
            ctx.contracts["QuantumGraphBuilder._update_quantum_for_adjust"] = addto("updated")
            ex.ghost["skel"] = st["s"]
            lab = ex.box(ex.getattr(st["t"], "label"))
            arr = ctx.fld(ex, "quanta", "map[Label,set[Key]]")
            Q = Sel(Sel(arr[1], st["s"].t), lab)
            ex.assume(Sel(Sel(arr[0], st["s"].t), lab))
            ex.assume(All(x, Implies(Sel(Q, x), And(x != V.none, isq(x))), [Sel(Q, x)]))
            pi = ex.cell(ex.heap[st["self"].addr].fields["prerequisite_info"])
            ex.assume(And(Sel(pi.dom, lab), Sel(pi.vals[0], lab) != V.none))
            ctx.default_list_desc = ("val", "Key")
            kw = {}
            skip = skipc
            if given:
                dec = fmap(ex, "skip_decisions", "Key", "bool")
                kw = dict(skip_decisions=dec)
                c = ex.cell(dec)
                skip = lambda k: And(Sel(c.dom, k), Sel(c.vals[0], k))
            return dict(st, args=[st["t"], st["s"]], kw=kw, Q=Q, skip=skip)
        return s_

    def p_r(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        F = lambda a: Sel(ctx.fld(ex, a, "set[Key]")[0], st["s"].t)
        Q, skip = st["Q"], st["skip"]
        res = ex.as_set(p.value).mem
        return [("exactly the quanta decided on are reported skipped", All(x, Sel(res, x) == And(Sel(Q, x), skip(x)))), ("skips are applied to exactly those", All(x, Sel(F("applied"), x) == And(Sel(Q, x), skip(x)))),
                ("exactly those leave the graph, keeping their outputs", All(x, And(Sel(F("removed_quanta"), x) == And(Sel(Q, x), skip(x)), Not(Sel(F("removed_with_outputs"), x))))),
                ("every other quantum is prepared to run", All(x, Sel(F("updated"), x) == And(Sel(Q, x), Not(skip(x)))))]
    for given in (True, False):
        def one(given=given):
            vc.function(ctx, FILE, "QuantumGraphBuilder._resolve_task_quanta", s_r(given), p_r, name=f"QuantumGraphBuilder._resolve_task_quanta({'given' if given else 'own'} decisions)")
        one()

    # --- a quantum that will run
    def s_w(ex):
        ctx.contracts.clear()
        st = base(ex)
        s, q = st["s"], st["q"].t
        L = lambda a: ctx.fld(ex, a)
        v0 = {a: (Sel(L(a)[0], s.t), Sel(L(a)[1], s.t)) for a in ("ref", "for_skip", "in_way")}
        lk = lambda a, k: If(Sel(v0[a][0], k), Sel(v0[a][1], k), V.none)
        f = ex.heap[st["self"].addr].fields
        run, clob = ex.box(f["output_run"]), f["clobber"].t
        ex.assume(All([x, y, l], newref(x, y, l) != V.none, [newref(x, y, l)]))
        ex.assume(All(x, Not(And(inp(q, x), out(q, x))), [inp(q, x)]))
        node = z3.Function("dataset_type_node", V, V)
        dt = z3.Function("attr!DTNode.dataset_type.0", V, V)
        want = lambda d: If(lk("in_way", d) != V.none, lk("in_way", d), newref(dt(node(TYPE(d))), dataid(d), run))

        def hook(ex2, fr, dom, D_, cnt):
            if dom.sort != V:
                return []
            now = lambda k: ctx.look(ex2, s, "ref", k)
            g = ctx.gone(ex2, s)
            arr = ctx.fld(ex2, "ref")
            return [("outputs so far", All(x, Implies(And(D_(x), out(q, x)), And(now(x) == want(x), Or(clob, lk("in_way", x) == V.none))), [Sel(Sel(arr[0], s.t), x)])),
                    ("others", All(x, Implies(Not(out(q, x)), now(x) == lk("ref", x)), [Sel(Sel(arr[0], s.t), x)])),
                    ("removals so far", All(x, Sel(g, x) == And(D_(x), inp(q, x), lk("ref", x) == V.none), [Sel(g, x)]))]
        ctx.loop_hooks["_update_quantum_for_adjust:for"] = hook
        pinfo, b1, b2 = fval(ex, "pinfo", "PInfo"), fval(ex, "skypix", "Builder"), fval(ex, "timespan", "Builder")
        return dict(st, args=[st["q"], s, pinfo, b1, b2], lk=lk, want=want, clob=clob)

    def p_w(ex, st, p):
        q, lk, s = st["q"].t, st["lk"], st["s"]
        if p.kind == "raise":
            return [("refused only if an output exists and clobbering was not asked for", And(p.value.cls == "OutputExistsError", Not(st["clob"]), Any(x, And(out(q, x), lk("in_way", x) != V.none))))]
        now = lambda k: ctx.look(ex, s, "ref", k)
        g = ctx.gone(ex, s)
        return [("existing outputs are only replaced if clobbering was asked for", All(x, Implies(And(out(q, x), lk("in_way", x) != V.none), st["clob"]))),
                ("every output gets its ref in the output run", All(x, Implies(out(q, x), now(x) == st["want"](x)))),
                ("inputs that will not exist are dropped, and only those", All(x, Sel(g, x) == And(inp(q, x), lk("ref", x) == V.none))),
                ("no other dataset is resolved", All(x, Implies(Not(out(q, x)), now(x) == lk("ref", x))))]
    vc.function(ctx, FILE, "QuantumGraphBuilder._update_quantum_for_adjust", s_w, p_w)
