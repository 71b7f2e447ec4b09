"""P07: every execution of a quantum ends in one of the documented ways, with inputs, metadata and failure recorded accordingly."""
from pyvc.spec import *
from pyvc import engine as E
from pyvc.engine import PyRaise
from specs.sqe import *

has = z3.Function("flag", V, V, BOOL)
bit = lambda n: str_const(n)


def verify(vc):
    vc.assume_note("the task, the task factory, the butler and adjustQuantum are arbitrary: each call may succeed or raise any Exception, with any effect on the butler",
                   "capture_logging runs the body once and stores the log at the end exactly if its store flag is set then (its own contract is checked by the bounded run)")

    # ------------------------------------------------------------------ the whole execution
    ctx = make_ctx()
    ev = lambda ex, *e: ex.ghost.__setitem__("events", ex.ghost["events"] + (e,))

    def fail(ex, tag, cls="TaskError"):
        raise PyRaise(ExcVal(cls, (), {"tag": Const(tag)}))
    ctx.exc_parent["TaskError"] = "Exception"

    def choose(ex, what):
        return ex.branch(ex.fresh(what, BOOL))

    def check(ex, a, kw):
        if choose(ex, "check_fails"):
            ev(ex, "check", "refuse")
            fail(ex, "check", "RuntimeError")
        r = choose(ex, "check_skips")
        ev(ex, "check", "skip" if r else "go")
        return Const(r)

    def update(ex, a, kw):
        if choose(ex, "no_work"):
            ev(ex, "update", "nowork")
            fail(ex, "nowork", "NoWorkFound")
        if choose(ex, "update_fails"):
            ev(ex, "update", "error")
            fail(ex, "update")
        ev(ex, "update", "ok")
        q = Sym("val", ex.fresh("updated_quantum", V), "Quantum")
        ex.assume(q.t != V.none)
        ex.ghost["updated"] = q.t
        return q

    def make(ex, a, kw):
        if choose(ex, "make_fails"):
            ev(ex, "make", "error")
            fail(ex, "make")
        ev(ex, "make", "ok")
        t = Sym("val", ex.fresh("task", V), "Task")
        ex.assume(t.t != V.none)
        return t

    def run(ex, a, kw):
        ids = fseq(ex, "ids", "Id")
        ex.call(ex.getattr(kw["ids_put"] if "ids_put" in kw else a[6], "extend"), [ids], {})
        if choose(ex, "run_fails"):
            ev(ex, "run", "error", a[2].t)
            fail(ex, "run")
        ev(ex, "run", "ok", a[2].t)
        return Sym("val", ex.fresh("caveats", V), "Flags")

    def write(ex, a, kw):
        if choose(ex, "write_fails"):
            ev(ex, "write", "error")
            fail(ex, "write")
        ev(ex, "write", "ok", a[1].t, a[2].t)
        return NONE
    C = "SingleQuantumExecutor."
    for n, f in (("_check_existing_outputs", check), ("_updated_quantum_inputs", update), ("_run_quantum", run), ("_write_metadata", write)):
        ctx.contracts[C + n] = f
    ctx.classes["Flags"] = ClassInfo({"value": "Any_"})
    ctx.classes["Factory"] = ClassInfo({}, (), {"makeTask": make})
    new = lambda ty: lambda ex, a, kw: (lambda v: (ex.assume(v.t != V.none), v)[1])(Sym("val", ex.fresh(ty, V), ty))

    def setitem(ex, a, kw):
        k, v = a[1], a[2]
        if isinstance(v, (Ref, Place, Tup)):
            v = Sym("val", ex.fresh("container", V), "Any_")
        ex.setitem(Place(("field", "Meta", "entries"), a[0].t, D("map[Label,Any_]")), k if not isinstance(k, Const) else Sym("val", ex.box(k), "Label"), v)
        return NONE
    ctx.classes["Meta"] = ClassInfo({"entries": "map[Label,Any_]"}, "all", {"__setitem__": setitem})
    ctx.classes["Task"] = ClassInfo({}, (), {"getFullMetadata": new("Meta")})
    ctx.classes["Config"] = ClassInfo({}, (), {"freeze": lambda ex, a, kw: NONE})
    ctx.classes["TaskNode"].attrs["config"] = D("Config")
    ctx.classes["Quantum"].attrs["initInputs"] = D("map[Label,Ref]")
    ctx.globals_["_TASK_METADATA_TYPE"] = Stub(new("Meta"), "TaskMetadata")
    ctx.globals_["_TASK_FULL_METADATA_TYPE"] = Stub(new("Meta"), "TaskMetadata")
    ctx.globals_["logInfo"] = Stub(lambda ex, a, kw: NONE, "logInfo")
    ctx.constructors["QuantumReport"] = new("Report")
    ctx.constructors["ExceptionInfo"] = new("Any_")
    ctx.constructors["GcMetrics"] = lambda ex, a, kw: E.ContextManager(lambda e: new("Metrics")(e, [], {}))
    ctx.classes["Metrics"] = ClassInfo({}, (), {"model_dump": new("Any_")})
    ctx.classes["LB"].methods["record_metrics"] = lambda ex, a, kw: E.ContextManager(lambda e: new("Metrics")(e, [], {}))
    ctx.globals_["get_full_type_name"] = Stub(new("Any_"), "get_full_type_name")
    ctx.globals_["time"] = Noop()
    ctx.globals_["QuantumSuccessCaveats"] = Sym("val", obj_const("QuantumSuccessCaveats"), "Caveats")
    ctx.classes["Caveats"] = ClassInfo({}, (), {"from_adjust_quantum_no_work": new("Flags")})
    ctx.constructors["QuantumExecutionResult"] = lambda ex, a, kw: Tup([a[0], a[1], kw["skipped_existing"], kw["adjusted_no_work"], kw.get("task_metadata", NONE)])
    ctx.classes["Extra"] = ClassInfo({"exception": "Any_", "metadata": "Meta", "previous_process_quanta": "seq[Id]"}, "all", {})
    ctx.classes["CapCtx"] = ClassInfo({"store": "bool", "extra": "Extra"}, ("store",))

    def capture(ex, a, kw):
        c = new("CapCtx")(ex, [], {})
        ex.ghost["cap"] = c
        x_ = ex.getattr(c, "extra")
        ex.assume(x_.t != V.none)
        ex.setattr(c, "store", TRUE)
        ex.setattr(x_, "exception", NONE)

        def leave(e, exc):
            ev(e, "leave")
            return False
        return E.ContextManager(lambda e: c, leave)
    ctx.classes["Capture"] = ClassInfo({}, (), {"capture_logging": capture})
    for n in ("from_full", "from_limited"):
        ctx.contracts["LogCapture." + n] = new("Capture")

    def s_x(ex):
        q, t, b, m, l, log, O = quantum(ex, ctx)
        ex.assume(ex.getattr(t, "config").t != V.none)
        ex.assume(ex.box(ex.getattr(q, "dataId")) != V.none)
        ex.ghost["events"] = ()
        fac = fval(ex, "factory", "Factory")
        ex.assume(fac.t != V.none)
        o = executor(ex, _task_factory=fac, _butler=fval(ex, "full_butler", "LB"), _previous_process_quanta=fseq(ex, "previous", "Id"))
        job = ex.heap[o.addr].fields["_job_metadata"]
        qid = fval(ex, "quantum_id", "Id")
        return dict(self=o, args=[t, b], kw=dict(quantum=q, quantum_id=qid), q=q, job=job)

    def p_x(ex, st, p):
        e = ex.ghost["events"]
        what = {k[0]: k for k in e}
        names = [k[0] for k in e]
        cap = ex.ghost["cap"]
        store = ex.as_bool(ex.getattr(cap, "store"))
        exc = ex.getattr(ex.getattr(cap, "extra"), "exception")
        out = [("each step happens at most once and the log is closed", all(names.count(k) == 1 for k in names) and names.count("leave") == 1)]
        outcome = lambda k: what[k][1] if k in what else None
        bad = next((k for k in ("check", "update", "make", "run", "write") if outcome(k) in ("refuse", "error")), None)
        if bad:
            out += [("a failure reaches the caller as it was raised", p.kind == "raise" and isinstance(p.value.fields.get("tag"), Const) and p.value.fields["tag"].v == bad),
                    ("metadata is written for successes only", not (outcome("write") == "ok"))]
            if bad in ("make", "run"):
                out += [("the failure is recorded for the log", ex.box(exc) != V.none), ("the log of a failure is stored", store)]
            if bad == "check":
                out += [("nothing runs and no log is stored over old outputs", And(Not(store), set(names) == {"check", "leave"}))]
            return out
        if p.kind == "raise":
            return out + [("no failure of its own", False)]
        r = p.value.items
        flags = [ex.as_bool(r[2]), ex.as_bool(r[3])]
        if outcome("check") == "skip":
            return out + [("reported as skipped", And(flags[0], Not(flags[1]))), ("nothing runs, no log is stored", And(Not(store), set(names) == {"check", "leave"})), ("the quantum as given", ex.box(r[0]) == st["q"].t)]
        out += [("not reported as skipped", Not(flags[0])), ("the log is stored", store), ("metadata is written", outcome("write") == "ok")]
        if outcome("write") != "ok":
            return out
        w = what["write"]
        ent = ex.field_arrays("Meta", "entries", D("map[Label,Any_]"))[0]
        has_ = lambda k: Sel(Sel(ent[0], w[3]), ex.box(Const(k)))
        at = lambda k: Sel(Sel(ent[1], w[3]), ex.box(Const(k)))
        job = st["job"].t
        out += [("the metadata reported is the metadata written", ex.box(r[4]) == w[3]), ("it includes the quantum's own", has_("quantum")), ("job metadata is added", Implies(job != V.none, And(has_("job"), at("job") == job)))]
        if outcome("update") == "nowork":
            return out + [("reported as no work, without running", And(flags[1], "run" not in what and "make" not in what)), ("written for the quantum as given", w[2] == st["q"].t)]
        return out + [("reported as run", And(Not(flags[1]), outcome("run") == "ok")),
                      ("run with the inputs that exist", And(what["run"][2] == ex.ghost["updated"], w[2] == ex.ghost["updated"], ex.box(r[0]) == ex.ghost["updated"]) if "run" in what else False)]
    vc.function(ctx, FILE, C + "_execute_with_limited_butler", s_x, p_x)

    # ------------------------------------------------------------------ running the task
    c2 = make_ctx()
    c2.exc_parent["TaskError"] = "Exception"
    FL = ("NO_CAVEATS", "ALL_OUTPUTS_MISSING", "ANY_OUTPUTS_MISSING")
    c2.classes["Flags"] = ClassInfo()
    c2.classes["Caveats"] = ClassInfo({n: "Flags" for n in FL})
    c2.globals_["QuantumSuccessCaveats"] = Sym("val", obj_const("QuantumSuccessCaveats"), "Caveats")

    def bor(ex, op, a, b):
        if isinstance(op, E.ast.BitOr) and getattr(a, "ty", None) == "Flags":
            r = Sym("val", ex.fresh("flags", V), "Flags")
            ex.assume(All(x, has(r.t, x) == Or(has(a.t, x), has(b.t, x)), [has(r.t, x)]))
            return r
    c2.binop_hook = bor
    PUT = "set[tup[Label,Any_,Id]]"

    def put(ex, o, attr="outputsPut"):
        return Sel(ex.field_arrays("QC", attr, D(PUT))[0][0], o.t)

    def run_quantum(ex, a, kw):
        c = a[1]
        ex.write_field(c.t, "QC", "outputsPut", fset(ex, "put", "tup[Label,Any_,Id]"), D(PUT))
        k = 0
        for i, n in enumerate(("NoWorkFound", "AnnotatedPartialOutputsError", "TaskError")):
            if ex.branch(ex.fresh("raises_" + n, BOOL)):
                ex.ghost["outcome"] = n
                f = Sym("val", ex.fresh("exc_flags", V), "Flags")
                ex.ghost["flags"] = f.t
                fields = {"tag": Const(n), "FLAGS": f}
                if n == "AnnotatedPartialOutputsError" and ex.branch(ex.fresh("has_cause", BOOL)):
                    ex.ghost["outcome"] = "cause"
                    fields["__cause__"] = ExcVal("TaskError", (), {"tag": Const("cause")})
                raise PyRaise(ExcVal(n, (), fields))
        ex.ghost["outcome"] = "ok"
        return NONE
    c2.classes["QC"] = ClassInfo({"outputsPut": PUT, "allOutputs": PUT}, "all", {})

    def mkqc(ex, a, kw):
        c = new("QC")(ex, [], {})
        ex.write_field(c.t, "QC", "outputsPut", ex.alloc(SetC(FALSE_SET, D(PUT)[1])), D(PUT))
        ex.ghost["qc"] = c
        ex.ghost["of"] = (ex.box(a[0]), ex.box(a[1]))
        return c
    c2.constructors["QuantumContext"] = mkqc
    c2.classes["Task"] = ClassInfo({}, (), {"runQuantum": run_quantum})
    c2.classes["Connections"] = ClassInfo({}, (), {"buildDatasetRefs": lambda ex, a, kw: Tup([new("Any_")(ex, [], {}), new("Any_")(ex, [], {})])})
    c2.classes["TaskNode"].methods["get_connections"] = new("Connections")

    def s_r(ex):
        q, t, b, m, l, log, O = quantum(ex, c2)
        cav = c2.globals_["QuantumSuccessCaveats"]
        for n in FL:
            f = ex.getattr(cav, n)
            ex.assume(All(x, has(f.t, x) == (x == bit(n) if n != "NO_CAVEATS" else z3.BoolVal(False)), [has(f.t, x)]))
        ids = fseq(ex, "ids_put", "Id")
        task = new("Task")(ex, [], {})
        o = executor(ex)
        return dict(self=o, args=[task, q, t, b], kw=dict(quantum_id=fval(ex, "qid", "Id"), ids_put=ids), ids=ids, ids0=ex.as_set(ids).mem, n0=ex.cell(ids).n, q=q, b=b,
                    partial=ex.heap[o.addr].fields["_raise_on_partial_outputs"].t)

    def p_r(ex, st, p):
        oc, qc = ex.ghost["outcome"], ex.ghost["qc"]
        P, A = put(ex, qc), put(ex, qc, "allOutputs")
        now = ex.as_set(st["ids"]).mem
        t = q1("t!o")
        idof = lambda t: ex.box(ex.unbox(D("tup[Label,Any_,Id]"), t).items[2])
        out = [("what was written is reported, whatever happens", All(t, Implies(Sel(P, t), Sel(now, idof(t))), [Sel(P, t)])), ("the task reads and writes through this quantum's context", And(ex.ghost["of"][0] == st["b"].t, ex.ghost["of"][1] == st["q"].t))]
        err = {"TaskError": "TaskError", "cause": "cause", "AnnotatedPartialOutputsError": "AnnotatedPartialOutputsError"}.get(oc)
        if p.kind == "raise":
            tag = p.value.fields.get("tag")
            return out + [("a failure reaches the caller as it was raised, a partial one as its cause", isinstance(tag, Const) and tag.v == err), ("partial outputs fail only if asked", Implies(oc != "TaskError", st["partial"]))]
        f = ex.box(p.value)
        out += [("no failure is hidden", oc != "TaskError"), ("partial outputs are a failure if asked", Implies(oc in ("cause", "AnnotatedPartialOutputsError"), Not(st["partial"])))]
        none, some = All(t, Not(Sel(P, t))), P != A
        base = ex.ghost["flags"] if oc != "ok" else None
        want = lambda b_: Or(has(base, b_) if base is not None else z3.BoolVal(False), And(b_ == bit("ALL_OUTPUTS_MISSING"), none), And(b_ == bit("ANY_OUTPUTS_MISSING"), some))
        return out + [("the caveats are exactly those that apply", All(x, has(f, x) == want(x), [has(f, x)]))]
    vc.function(c2, FILE, C + "_run_quantum", s_r, p_r)

    # ------------------------------------------------------------------ writing metadata
    c3 = make_ctx()

    def b_put(ex, a, kw):
        ex.ghost["puts"] = ex.ghost["puts"] + ((ex.box(a[1]), ex.box(a[2])),)
        return NONE
    c3.classes["LB"].methods["put"] = b_put

    def s_w(ex):
        q, t, b, m, l, log, O = quantum(ex, c3)
        ex.ghost["puts"] = ()
        md = new("Meta")(ex, [], {})
        return dict(self=executor(ex), args=[q, md, t, b], md=md, m=m)

    def p_w(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        w = ex.ghost["puts"]
        return [("the metadata is written once, as the quantum's metadata output", And(w[0][0] == st["md"].t, w[0][1] == st["m"]) if len(w) == 1 else False)]
    vc.function(c3, FILE, C + "_write_metadata", s_w, p_w)

    # ------------------------------------------------------------------ the butler used
    c4 = make_ctx()
    c4.exc_parent["TaskError"] = "Exception"

    def inner(ex, a, kw):
        ex.ghost["used"] = ex.box(a[2])
        if ex.branch(ex.fresh("fails", BOOL)):
            raise PyRaise(ExcVal("TaskError", (), {"tag": Const("run")}))
        ex.ghost["res"] = ex.fresh("result", V)
        return Sym("val", ex.ghost["res"], "Result_")
    c4.contracts[C + "_execute_with_limited_butler"] = inner

    def close(ex, a, kw):
        ex.ghost["closed"] = ex.ghost["closed"] + (a[0].t,)
        return NONE
    c4.classes["LB"].methods["close"] = close

    def s_e(ex):
        q, t, b, m, l, log, O = quantum(ex, c4)
        full, lim = fval(ex, "full", "LB"), fval(ex, "limited", "LB")
        made = ex.fresh("made", V)
        ex.ghost["closed"], ex.ghost["made"] = (), False

        def factory(ex, a, kw):
            ex.ghost["made"] = True
            return Sym("val", made, "LB")
        o = executor(ex, _butler=full, _limited_butler=lim, _limited_butler_factory=Stub(factory, "factory"))
        ex.assume(made != V.none)
        return dict(self=o, args=[t], kw=dict(quantum=q, quantum_id=fval(ex, "qid", "Id")), full=full.t, lim=lim.t, made=made)

    def p_e(ex, st, p):
        need = And(st["full"] == V.none, st["lim"] == V.none)
        out = [("the executor's own butler is used if there is one", ex.ghost["used"] == If(st["full"] != V.none, st["full"], If(st["lim"] != V.none, st["lim"], st["made"])))]
        if ex.ghost["made"]:
            out += [("a butler is made only if needed", need), ("a butler made for the quantum is closed, and no other", ex.ghost["closed"][0] == st["made"] if len(ex.ghost["closed"]) == 1 else False)]
        else:
            out += [("the executor's own butler stays open", len(ex.ghost["closed"]) == 0)]
        if p.kind == "raise":
            return out + [("a failure reaches the caller as it was raised", isinstance(p.value.fields.get("tag"), Const))]
        return out + [("the result is passed on", ex.box(p.value) == ex.ghost["res"])]
    vc.function(c4, FILE, C + "_execute", s_e, p_e)

    # ------------------------------------------------------------------ which inputs are assumed to exist
    c5 = make_ctx()
    c5.classes["Records"] = ClassInfo({"records": "map[Id,Any_]"})
    c5.classes["Quantum"].attrs["datastore_records"] = D("map[Label,Records]")

    def s_s(ex):
        q, t, b, m, l, log, O = quantum(ex, c5)
        r = new("Ref")(ex, [], {})
        return dict(self=executor(ex), args=[q, r], q=q, r=r)

    def p_s(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        rec = ex.cell(ex.getattr(st["q"], "datastore_records"))
        inner_ = z3.Function("attr!Records.records.0", V, VSET)
        known = Any(n_, And(Sel(rec.dom, n_), Sel(inner_(Sel(rec.vals[0], n_)), ex.box(ex.getattr(st["r"], "id")))))
        return [("assumed to exist exactly if the graph has its datastore records", ex.truth(p.value) == known)]
    vc.function(c5, FILE, C + "_should_assume_exists", s_s, p_s)
