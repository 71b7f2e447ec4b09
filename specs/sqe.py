"""Contracts shared by P06 and P07: the execution of one quantum."""
from pyvc.spec import *

FILE = "single_quantum_executor.py"
x, y, n_ = q1("x!b"), q1("y!b"), q1("n!b")
BITS = ("ALL_OUTPUTS_MISSING", "ANY_OUTPUTS_MISSING", "NO_WORK", "PARTIAL_OUTPUTS_ERROR", "ADJUST_QUANTUM_RAISED", "UNPROCESSED", "ANNOTATED")


def make_ctx():
    ctx = Ctx()
    for n in ("Label", "Id", "Any_", "Meta", "Result_", "Report"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Ref"] = ClassInfo({"id": "Id"}, truthy=lambda ex, v: v.t != V.none)
    ctx.classes["Conn"] = ClassInfo({"dataset_type_name": "Label"}, truthy=lambda ex, v: v.t != V.none)
    ctx.classes["TaskNode"] = ClassInfo({"label": "Label", "metadata_output": "Conn", "log_output": "Conn"})
    ctx.classes["Quantum"] = ClassInfo({"outputs": "map[Label,set[Ref]]", "inputs": "map[Label,set[Ref]]", "dataId": "Any_", "taskName": "Any_", "taskClass": "Any_", "initInputs": "Any_"})
    ctx.exc_parent.update({"NoWorkFound": "BaseException", "AnnotatedPartialOutputsError": "Exception", "RepeatableQuantumError": "Exception", "InvalidQuantumError": "Exception"})

    def have(ex, b):
        return Sel(ex.field_arrays("LB", "have", D("set[Ref]"))[0][0], b.t)
    ctx.have = have

    def stored_many(ex, a, kw):
        s = ex.as_set(a[1]).mem
        h = have(ex, a[0])
        c = ex.fresh("stored_many", z3.ArraySort(V, BOOL))
        ex.assume(All(x, Sel(c, x) == Sel(h, x), [Sel(c, x)]))
        return ex.alloc(MapC(s, [c], ("val", "Ref"), ("bool",)))

    def prune(ex, a, kw):
        s = ex.as_set(a[1]).mem
        h = have(ex, a[0])
        for k in ("disassociate", "unstore", "purge"):
            if not (isinstance(kw.get(k), Const) and kw[k].v is True):
                raise Unsupported("pruneDatasets with other flags")
        new = ex.fresh_set("left", lambda z: And(Sel(h, z), Not(Sel(s, z))), ("val", "Ref"))
        ex.write_field(a[0].t, "LB", "have", ex.alloc(new), D("set[Ref]"))
        return NONE
    ctx.classes["LB"] = ClassInfo({"have": "set[Ref]"}, "all", {"stored": lambda ex, a, kw: Sym("bool", Sel(have(ex, a[0]), ex.box(a[1]))), "stored_many": stored_many, "pruneDatasets": prune,
                                                               "get": lambda ex, a, kw: Sym("val", z3.Function("content", V, V)(ex.box(a[1])), "Any_")})

    def attach(ex, a, kw):
        ex.ghost["attached"] = ex.box(a[1])
        return NONE
    ctx.classes["Extra"] = ClassInfo({}, (), {"attach_previous_attempt": attach})
    return ctx


def executor(ex, **kw):
    b = lambda n: Sym("bool", ex.fresh(n, BOOL))
    return fobj(ex, FILE, "SingleQuantumExecutor", dict(dict(_assume_no_existing_outputs=b("assume_none"), _skip_existing=b("skip_existing"), _clobber_outputs=b("clobber"), _raise_on_partial_outputs=b("raise_on_partial"),
                                                             _enable_lsst_debug=Const(False), _resources=NONE, _job_metadata=fval(ex, "job_metadata", "Meta"), _previous_process_quanta=ex.alloc(ListC([]))), **kw))


def quantum(ex, ctx):
    q, t, b = fval(ex, "quantum", "Quantum"), fval(ex, "task_node", "TaskNode"), fval(ex, "butler", "LB")
    ex.assume(And(q.t != V.none, t.t != V.none, b.t != V.none))
    ctx.have(ex, b)
    out = ex.cell(ex.getattr(q, "outputs"))
    meta = ex.getattr(t, "metadata_output")
    ex.assume(meta.t != V.none)
    m, log = q1("metadata_ref"), ex.getattr(t, "log_output")
    mn, ln = ex.box(ex.getattr(meta, "dataset_type_name")), z3.Function("attr!Conn.dataset_type_name.0", V, V)(log.t)
    l = q1("log_ref")
    A = out.vals[0]
    one = lambda nm, r: And(Sel(out.dom, nm), r != V.none, All(x, Sel(Sel(A, nm), x) == (x == r), [Sel(Sel(A, nm), x)]), card(Sel(A, nm)) == 1)
    ex.assume(one(mn, m))
    ex.assume(Implies(log.t != V.none, one(ln, l)))
    O = lambda r: Any(n_, And(Sel(out.dom, n_), Sel(Sel(A, n_), r)))
    return q, t, b, m, l, log, O
