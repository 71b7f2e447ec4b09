"""P08: a task only reads inputs and writes outputs of its own quantum, and gets what it asked for."""
from pyvc.spec import *

FILE = "_quantumContext.py"
x = q1("x!q")
i = z3.Int("i!q")
DTA, DIA, IDA = (z3.Function(f"attr!Ref.{n}.0", V, V) for n in ("datasetType", "dataId", "id"))
INNER = z3.Function("attr!Ref.datasetRef.0", V, V)
NAME = z3.Function("attr!DatasetType.name.0", V, V)
isdef = z3.Function("is_deferred", V, BOOL)
content = z3.Function("stored_content", V, V)
handle = z3.Function("deferred_handle", V, V)
ends = z3.Function("name_endswith", V, V, BOOL)
islist = z3.Function("is_list", V, BOOL)


def key(r):
    return tup_term([DTA(r), DIA(r), IDA(r)])


def target(r):
    return If(isdef(r), INNER(r), r)


def answer(r):
    return If(r == V.none, V.none, If(isdef(r), handle(INNER(r)), content(r)))


def make_ctx():
    ctx = Ctx()
    ctx.classes["Name"] = ClassInfo({}, (), {"endswith": lambda ex, a, kw: Sym("bool", ends(ex.box(a[0]), ex.box(a[1])))})
    ctx.classes["DatasetType"] = ClassInfo({"name": "Name"})
    ctx.classes["Ref"] = ClassInfo({"datasetType": "DatasetType", "dataId": "DataId", "id": "Id", "datasetRef": "Ref"})
    for n in ("DataId", "Id", "Obj_", "Resources"):
        ctx.classes[n] = ClassInfo()

    def fld(ex, ty, attr, d, owner):
        return Sel(ex.field_arrays(ty, attr, D(d))[0][0], owner)
    ctx.read = lambda ex: fld(ex, "Butler", "read", "set[Ref]", ctx.b.t)
    ctx.written = lambda ex: (fld(ex, "Butler", "written", "set[Ref]", ctx.b.t), Sel(ex.field_arrays("Butler", "value", D("map[Ref,Obj_]"))[0][1], ctx.b.t))
    ctx.unl = lambda ex: fld(ex, "Butler", "unlabelled", "set[Ref]", ctx.b.t)
    ctx.prov = lambda ex: fld(ex, "Provenance", "inputs", "set[Ref]", ctx.p.t)

    def add(ex, ty, attr, owner, elem, cur):
        ex.write_field(owner, ty, attr, ex.alloc(SetC(z3.Store(cur, elem, z3.BoolVal(True)), ("val", "Ref"))), D("set[Ref]"))

    def b_get(ex, a, kw):
        if ex.choose():
            ex.raise_("FileNotFoundError")
        add(ex, "Butler", "read", ctx.b.t, a[1].t, ctx.read(ex))
        return Sym("val", content(a[1].t), "Obj_")

    def b_def(ex, a, kw):
        add(ex, "Butler", "read", ctx.b.t, a[1].t, ctx.read(ex))
        return Sym("val", handle(a[1].t), "Obj_")

    def b_put(ex, a, kw):
        if ex.choose():
            ex.raise_("OSError")
        add(ex, "Butler", "written", ctx.b.t, a[2].t, ctx.written(ex)[0])
        ex.setitem(Place(("field", "Butler", "value"), ctx.b.t, D("map[Ref,Obj_]")), a[2], a[1])
        if ex.branch(ex.box(kw.get("provenance", NONE)) != ctx.p.t):
            add(ex, "Butler", "unlabelled", ctx.b.t, a[2].t, ctx.unl(ex))
        return a[2]
    ctx.classes["Butler"] = ClassInfo({"read": "set[Ref]", "unlabelled": "set[Ref]", "written": "set[Ref]", "value": "map[Ref,Obj_]"}, "all", {"get": b_get, "getDeferred": b_def, "put": b_put})

    def add_input(ex, a, kw):
        add(ex, "Provenance", "inputs", ctx.p.t, a[1].t, ctx.prov(ex))
        return NONE
    ctx.classes["Provenance"] = ClassInfo({"inputs": "set[Ref]"}, "all", {"add_input": add_input})
    ctx.classes["Periodic"] = ClassInfo({"num_issued": "int"}, (), {"log": lambda ex, a, kw: NONE})
    ctx.stubs["lsst.utils.logging.PeriodicLogger"] = lambda ex, a, kw: Sym("val", ex.fresh("periodic", V), "Periodic")
    ctx.constructors["ExecutionResources"] = lambda ex, a, kw: Sym("val", ex.fresh("resources", V), "Resources")

    def prov(ex, a, kw):
        ex.ghost["quantum_id"] = kw.get("quantum_id", NONE)
        return ctx.p
    ctx.stubs["lsst.daf.butler.DatasetProvenance"] = prov
    ctx.classes["Quantum"] = ClassInfo({"inputs": "map[DatasetType,seq[Ref]]", "outputs": "map[DatasetType,seq[Ref]]"})

    def inst(ex, v, cls):
        ty = getattr(v, "ty", "")
        if ty == "Ref":
            if cls == "DeferredDatasetRef":
                return And(v.t != V.none, isdef(v.t))
            if cls == "DatasetRef":
                return And(v.t != V.none, Not(isdef(v.t)))
            return z3.BoolVal(False)
        if isinstance(v, Ref):
            k = ex.heap[v.addr].kind
            if cls in ("list", "tuple", "Sequence"):
                return z3.BoolVal(k in ("seq", "list") and cls != "tuple")
            return z3.BoolVal(False)
        return None
    ctx.isinstance_hook = inst
    return ctx


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("LimitedButler.get/getDeferred/put and DatasetProvenance.add_input by contract: a read returns the stored content and records nothing else; a put stores or fails",
                   "PeriodicLogger and logging calls have no effect on the result",
                   "iterating a quantized connection (the connection-wise form of get/put) is covered by the bounded run only")

    def base(ex, self=True):
        ctx.b = Sym("val", z3.Const("the_butler", V), "Butler")
        ctx.p = Sym("val", z3.Const("the_provenance", V), "Provenance")
        ex.assume(And(ctx.b.t != V.none, ctx.p.t != V.none))
        ctx.read(ex), ctx.written(ex), ctx.prov(ex)
        # the inner ref of a deferred ref is a plain ref
        ex.assume(All(x, Implies(isdef(x), And(Not(isdef(INNER(x))), INNER(x) != V.none)), [isdef(x)]))
        if not self:
            return None
        return fobj(ex, FILE, "QuantumContext", dict(_QuantumContext__butler=ctx.b, __butler=ctx.b, dataset_provenance=ctx.p, allInputs=fset(ex, "allInputs", "tup[DatasetType,DataId,Id]"),
                                                     allOutputs=fset(ex, "allOutputs", "tup[DatasetType,DataId,Id]"), outputsPut=fset(ex, "outputsPut", "tup[DatasetType,DataId,Id]")))

    def setup_init(ex):
        base(ex, False)
        q = Sym("val", ex.fresh("quantum", V), "Quantum")
        qid = fval(ex, "quantum_id", "Id")
        o = ex.alloc(ObjC(ClassVal("QuantumContext", get_module(FILE), get_module(FILE).classes["QuantumContext"]), {}))
        res = fval(ex, "resources", "Resources")
        return dict(self=o, args=[ctx.b, q], kw=dict(resources=res, quantum_id=qid), q=q, res=res, qid=qid)

    def post_init(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        o = ex.heap[st["self"].addr].fields
        q = st["q"].t
        d = D("map[DatasetType,seq[Ref]]")

        def parts(attr):
            c = cell_from_terms(d, [z3.Function(f"attr!Quantum.{attr}.{n}", V, s)(q) for n, s in enumerate(comps(d))])
            return c
        ci, co = parts("inputs"), parts("outputs")
        t, r, k = q1("t!q"), q1("r!q"), q1("k!q")
        inn = mem(ex, o["allInputs"])
        out = mem(ex, o["allOutputs"])
        auto = lambda t: Or(ends(NAME(t), str_const("_metadata")), ends(NAME(t), str_const("_log")))
        at = lambda c, t, j: Sel(Sel(c.vals[1], t), j)
        num = lambda c, t: Sel(c.vals[0], t)
        rng = lambda c, t: And(Sel(c.dom, t), 0 <= i, i < num(c, t))
        return [("every input of the quantum is readable", All([t, i], Implies(rng(ci, t), Sel(inn, key(at(ci, t, i)))))),
                ("nothing but the quantum's inputs is readable", All(k, Implies(Sel(inn, k), Any([t, i], And(rng(ci, t), k == key(at(ci, t, i))))))),
                ("every regular output of the quantum is writeable", All([t, i], Implies(And(rng(co, t), Not(auto(t))), Sel(out, key(at(co, t, i)))))),
                ("nothing but the quantum's regular outputs is writeable", All(k, Implies(Sel(out, k), Any([t, i], And(rng(co, t), Not(auto(t)), k == key(at(co, t, i))))))),
                ("nothing is recorded as written yet", All(k, Not(Sel(mem(ex, o["outputsPut"]), k)))),
                ("the provenance carries the quantum id", ex.box(ex.ghost["quantum_id"]) == st["qid"].t if "quantum_id" in ex.ghost else False),
                ("the given resources are used", Implies(st["res"].t != V.none, ex.box(o["resources"]) == st["res"].t))]
    vc.function(ctx, FILE, "QuantumContext.__init__", setup_init, post_init)

    def frame(ex, st, wrote=False, read=False):
        """What can be observed from outside after any path, successful or not."""
        f = ex.heap[st["self"].addr].fields
        old = st["old"]
        of = old.heap[st["self"].addr].fields
        inn, out = old.heap[of["allInputs"].addr].mem, old.heap[of["allOutputs"].addr].mem
        k = q1("k!q")
        return [("only inputs of the quantum are read", All(x, Implies(And(Sel(ctx.read(ex), x), Not(Sel(st["read0"], x))), Sel(inn, key(x))))),
                ("what is read is recorded as provenance", All(x, Implies(And(Sel(ctx.read(ex), x), Not(Sel(st["read0"], x))), Sel(ctx.prov(ex), x)))),
                ("provenance names only inputs of the quantum", All(x, Implies(And(Sel(ctx.prov(ex), x), Not(Sel(st["prov0"], x))), Sel(inn, key(x))))),
                ("only outputs of the quantum are written", All(x, Implies(And(Sel(ctx.written(ex)[0], x), Not(Sel(st["wr0"], x))), Sel(out, key(x))))),
                ("outputsPut lists what was written, before or now", All(x, Implies(And(Sel(ctx.written(ex)[0], x), Not(Sel(st["wr0"], x))), Sel(mem(ex, f["outputsPut"]), key(x))))),
                ("outputsPut only grows by what was written", All(k, Implies(And(Sel(mem(ex, f["outputsPut"]), k), Not(Sel(old.heap[of["outputsPut"].addr].mem, k))), Any(x, And(Sel(ctx.written(ex)[0], x), key(x) == k))))),
                ("the sets of allowed datasets stay as they are", All(k, And(Sel(mem(ex, f["allInputs"]), k) == Sel(inn, k), Sel(mem(ex, f["allOutputs"]), k) == Sel(out, k)))),
                ("written datasets carry the provenance of this quantum", All(x, Implies(Sel(ctx.unl(ex), x), Sel(st["unl0"], x))))]

    def st0(ex, o, **kw):
        return dict(self=o, read0=ctx.read(ex), prov0=ctx.prov(ex), unl0=ctx.unl(ex), wr0=ctx.written(ex)[0], **kw)

    def setup_get1(ex):
        o = base(ex)
        r = fval(ex, "dataset", "Ref")
        return st0(ex, o, args=[r], r=r)

    def post_get1(ex, st, p):
        r = st["r"].t
        of = st["old"].heap[st["self"].addr].fields
        inn = st["old"].heap[of["allInputs"].addr].mem
        if p.kind == "raise":
            return frame(ex, st) + [("refused only if not an input of the quantum", Or(p.value.cls == "FileNotFoundError", And(p.value.cls == "ValueError", r != V.none, Not(Sel(inn, key(target(r)))))))]
        return frame(ex, st) + [("the answer is the butler's", ex.box(p.value) == answer(r)), ("allowed", Or(r == V.none, Sel(inn, key(target(r))))),
                                ("read through the butler", Or(r == V.none, Sel(ctx.read(ex), target(r))))]
    vc.function(ctx, FILE, "QuantumContext.get", setup_get1, post_get1, name="get(one dataset)", min_paths=4)

    def setup_getn(ex):
        o = base(ex)
        rs = fseq(ex, "datasets", "Ref")
        ctx.default_list_desc = ("val", "Obj_")
        return st0(ex, o, args=[rs], rs=rs)

    def post_getn(ex, st, p):
        c = st["old"].heap[st["rs"].addr]
        rs, n = c.ats[0], c.n
        if p.kind == "raise":
            return frame(ex, st)
        v = ex.cell(p.value)
        if v.kind == "list":
            v = ex.symbolize(v, ("seq", ("val", "Obj_")))
        return frame(ex, st) + [("one answer per dataset", v.n == n), ("answers in the order of the request", All(i, Implies(And(0 <= i, i < n), Sel(v.ats[0], i) == answer(Sel(rs, i)))))]
    vc.function(ctx, FILE, "QuantumContext.get", setup_getn, post_getn, name="get(list of datasets)", min_paths=2)

    def setup_put1(ex):
        o = base(ex)
        r = fval(ex, "dataset", "Ref")
        ex.assume(And(r.t != V.none, Not(isdef(r.t))))
        v = fval(ex, "value", "Obj_")
        return st0(ex, o, args=[v, r], r=r, v=v)

    def post_put1(ex, st, p):
        of = st["old"].heap[st["self"].addr].fields
        out = st["old"].heap[of["allOutputs"].addr].mem
        if p.kind == "raise":
            return frame(ex, st) + [("refused only if not an output of the quantum", Or(p.value.cls == "OSError", And(p.value.cls == "ValueError", Not(Sel(out, key(st["r"].t)))))),
                                    ("a failed put writes nothing", All(x, Sel(ctx.written(ex)[0], x) == Sel(st["wr0"], x)))]
        w, val = ctx.written(ex)
        return frame(ex, st) + [("stored", And(Sel(w, st["r"].t), Sel(val, st["r"].t) == st["v"].t)), ("nothing else is written", All(x, Sel(w, x) == Or(Sel(st["wr0"], x), x == st["r"].t)))]
    vc.function(ctx, FILE, "QuantumContext.put", setup_put1, post_put1, name="put(one dataset)", min_paths=3)

    def setup_putn(ex):
        o = base(ex)
        rs, vs = fseq(ex, "datasets", "Ref"), fseq(ex, "values", "Obj_")
        c = ex.cell(rs)
        ex.assume(All(i, Implies(And(0 <= i, i < c.n), And(Sel(c.ats[0], i) != V.none, Not(isdef(Sel(c.ats[0], i))))), [Sel(c.ats[0], i)]))
        j = z3.Int("j!q")
        ex.assume(All([i, j], Implies(And(0 <= i, i < j, j < c.n), Sel(c.ats[0], i) != Sel(c.ats[0], j))))
        return st0(ex, o, args=[vs, rs], rs=rs, vs=vs)

    def post_putn(ex, st, p):
        h = st["old"].heap
        rs, vs = h[st["rs"].addr], h[st["vs"].addr]
        w, val = ctx.written(ex)
        if p.kind == "raise":
            return frame(ex, st) + [("different lengths write nothing", Implies(rs.n != vs.n, All(x, Sel(w, x) == Sel(st["wr0"], x))))]
        return frame(ex, st) + [("lengths agree", rs.n == vs.n),
                                ("value i goes to dataset i", All(i, Implies(And(0 <= i, i < rs.n), And(Sel(w, Sel(rs.ats[0], i)), Sel(val, Sel(rs.ats[0], i)) == Sel(vs.ats[0], i)))))]
    vc.function(ctx, FILE, "QuantumContext.put", setup_putn, post_putn, name="put(list of datasets)", min_paths=2)
