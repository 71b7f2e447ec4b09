"""P02: the multiprocessing job list starts each quantum once, only when its predecessors succeeded, and resolves every quantum once."""
from pyvc.spec import *

FILE = "mp_graph_executor.py"
x, y, p = q1("x!q"), q1("y!q"), q1("p!q")
JS = lambda n: enum_const("JobState." + n)
SETS = ("pending", "running", "finished", "failed", "timed_out")


def make_ctx():
    ctx = Ctx()
    edge = z3.Function("edge", V, V, BOOL)
    desc = z3.Function("downstream", V, V, BOOL)
    ctx.edge, ctx.desc = edge, desc
    ctx.classes["Job"] = ClassInfo({"quantum_id": "Qid", "_state": "JobState", "quantum": "Quantum", "task_node": "TaskNode", "process": "Proc", "terminated_": "bool"}, ("_state", "process", "terminated_"),
                                   {"start": start, "report": None}, repo=(FILE, "_Job"))
    ctx.classes["Job"].methods.pop("report")
    for n in ("Qid", "Quantum", "TaskNode", "Proc"):
        ctx.classes[n] = ClassInfo()
    W = {"ready": "set[Qid]", "active": "set[Qid]", "incomplete": "set[Qid]"}
    ctx.classes["Walker"] = ClassInfo(W, "all", {"__next__": lambda ex, a, kw: w_next(ctx, ex, a[0]), "finish": lambda ex, a, kw: w_finish(ctx, ex, *a), "fail": lambda ex, a, kw: w_fail(ctx, ex, *a)})
    return ctx


def start(ex, a, kw):
    """_Job.start: the process is started and the state becomes RUNNING."""
    ex.setattr(a[0], "_state", Sym("val", JS("RUNNING"), "JobState"))
    return NONE


def wf(ex, w, n):
    return Sel(ex.field_arrays("Walker", n, D("set[Qid]"))[0][0], w.t)


def wset(ex, w, n, newset):
    r = ex.alloc(SetC(newset, ("val", "Qid")))
    ex.write_field(w.t, "Walker", n, r, D("set[Qid]"))


def w_inv(ctx, R, A, I):
    """Contract of GraphWalker (proved in P01)."""
    return [All(x, Implies(Sel(R, x), And(Sel(I, x), Not(Sel(A, x))))), All(x, Implies(Sel(A, x), And(Sel(I, x), Not(Sel(R, x))))),
            All([x, p], Implies(And(Or(Sel(R, x), Sel(A, x)), Sel(I, p)), Not(ctx.edge(p, x))), [ctx.edge(p, x)])]


def w_havoc(ctx, ex, w, names):
    out = {}
    for n in names:
        t = ex.fresh("w_" + n, VSET)
        wset(ex, w, n, t)
        out[n] = t
    return out


def w_next(ctx, ex, w):
    R, A, I = (wf(ex, w, n) for n in ("ready", "active", "incomplete"))
    if not ex.branch(Any(x, Sel(I, x))):
        ex.raise_("StopIteration")
    n = w_havoc(ctx, ex, w, ("ready", "active"))
    ex.assume(All(x, And(Not(Sel(n["ready"], x)), Sel(n["active"], x) == Or(Sel(A, x), Sel(R, x)))))
    ex.ghost.setdefault("yielded", []).append(R)
    return ex.alloc(SetC(R, ("val", "Qid")))


def w_finish(ctx, ex, w, k):
    R, A, I = (wf(ex, w, n) for n in ("ready", "active", "incomplete"))
    k = ex.box(k)
    if not ex.branch(Sel(I, k)):
        ex.raise_("KeyError")
    n = w_havoc(ctx, ex, w, ("ready", "active", "incomplete"))
    R2, A2, I2 = n["ready"], n["active"], n["incomplete"]
    ex.assume(All(x, And(Sel(I2, x) == And(Sel(I, x), x != k), Sel(A2, x) == And(Sel(A, x), x != k), Implies(And(Sel(R, x), x != k), Sel(R2, x)))))
    for f in w_inv(ctx, R2, A2, I2):
        ex.assume(f)
    return NONE


def w_fail(ctx, ex, w, k):
    R, A, I = (wf(ex, w, n) for n in ("ready", "active", "incomplete"))
    k = ex.box(k)
    if not ex.branch(Sel(I, k)):
        ex.raise_("KeyError")
    d = ex.fresh("blocked", VSET)
    n = w_havoc(ctx, ex, w, ("ready", "active", "incomplete"))
    out = Or(x == k, Sel(d, x))
    ex.assume(All(x, And(*[Sel(n[m], x) == And(Sel(o, x), Not(out)) for m, o in (("ready", R), ("active", A), ("incomplete", I))])))
    ex.assume(All(x, Implies(Sel(d, x), And(ctx.desc(k, x), x != k, Sel(I, x)))))
    ex.assume(All(x, Implies(And(ctx.desc(k, x), Sel(I, x), x != k), Sel(d, x))))
    # a walker never has a blocked node handed out (P01: only unblocked nodes are scheduled, k itself was incomplete)
    ex.assume(All(x, Implies(Sel(d, x), Not(Sel(A, x)))))
    for f in w_inv(ctx, n["ready"], n["active"], n["incomplete"]):
        ex.assume(f)
    ex.ghost["blocked"] = d
    r = fseq(ex, "blocked_list", "Qid")
    c = ex.cell(r)
    i, j = z3.Ints("i!b j!b")
    ex.assume(All(i, Implies(And(0 <= i, i < c.n), Sel(d, Sel(c.ats[0], i)))))
    pos = ex.fresh_fn("pos", V, INT)
    ex.assume(All(x, Implies(Sel(d, x), And(0 <= pos(x), pos(x) < c.n, Sel(c.ats[0], pos(x)) == x)), [Sel(d, x)]))
    ex.assume(All(i, Implies(And(0 <= i, i < c.n), pos(Sel(c.ats[0], i)) == i)))
    return r


class View:
    def __init__(self, ctx, ex, w, snap=None):
        heap = snap.heap if snap else ex.heap
        f = heap[w.addr].fields
        for n in SETS:
            c = heap[f[n].addr]
            setattr(self, n, c.mem if c.kind == "set" else FALSE_SET)
        self.jobs = heap[f["jobs"].addr]
        wk = f["walker"]
        fields = snap.fields if snap else None
        g = lambda n: Sel(fields[("Walker", n)][0][0], wk.t) if fields is not None and ("Walker", n) in fields else wf(ex, wk, n)
        self.R, self.A, self.I = g("ready"), g("active"), g("incomplete")
        st = fields[("Job", "_state")][0][0] if fields is not None and ("Job", "_state") in fields else ex.field_arrays("Job", "_state", D("JobState"))[0][0]
        self.job = lambda k: Sel(self.jobs.vals[0], k)
        self.state = lambda k: Sel(st, Sel(self.jobs.vals[0], k))
        self.qid = lambda j: ex.box(ex.getattr(Sym("val", j, "Job"), "quantum_id"))


def inv(ctx, v):
    s = v.state
    dom = v.jobs.dom
    isst = lambda k, n: s(k) == JS(n)
    return [
        ("every id has its own job", All(x, Implies(Sel(dom, x), And(v.qid(v.job(x)) == x, v.job(x) != V.none)))),
        ("pending jobs are handed-out, not started", All(x, Implies(Sel(v.pending, x), And(Sel(dom, x), isst(x, "PENDING"), Sel(v.A, x))))),
        ("running jobs are started, unresolved", All(x, Sel(v.running, x) == And(Sel(dom, x), isst(x, "RUNNING")))),
        ("running jobs were handed out", All(x, Implies(Sel(v.running, x), Sel(v.A, x)))),
        ("handed-out jobs are pending or running", All(x, Implies(Sel(v.A, x), Or(Sel(v.pending, x), Sel(v.running, x))))),
        ("finished set", All(x, Sel(v.finished, x) == And(Sel(dom, x), isst(x, "FINISHED")))),
        ("timed-out set", All(x, Sel(v.timed_out, x) == And(Sel(dom, x), isst(x, "TIMED_OUT")))),
        ("failed set", All(x, Sel(v.failed, x) == And(Sel(dom, x), Or(isst(x, "FAILED"), isst(x, "TIMED_OUT"), isst(x, "FAILED_DEP"))))),
        ("unresolved jobs are exactly the walker's incomplete nodes", All(x, Sel(v.I, x) == And(Sel(dom, x), Or(isst(x, "PENDING"), isst(x, "RUNNING"))))),
        ("ready nodes are always collected", All(x, Not(Sel(v.R, x)))),
        ("nothing started before its predecessors are resolved", All([x, p], Implies(And(Or(Sel(v.pending, x), Sel(v.running, x)), Sel(v.I, p)), Not(ctx.edge(p, x))))),
    ]


def setup_state(ctx, ex):
    W = Sym("val", ex.fresh("walker", V), "Walker")
    ex.assume(W.t != V.none)
    f = {n: fset(ex, n, "Qid") for n in SETS}
    f["jobs"] = fmap(ex, "jobs", "Qid", "Job")
    f["walker"] = W
    w = fobj(ex, FILE, "_JobList", f)
    v = View(ctx, ex, w)
    for g in w_inv(ctx, v.R, v.A, v.I):
        ex.assume(g)
    for _, g in inv(ctx, v):
        ex.assume(g)
    return w, v


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("GraphWalker satisfies its P01 contract", "_Job.start sets the state to RUNNING (process creation itself is outside the verifier; covered by the bounded run)")

    def setup_submit(ex):
        w, v = setup_state(ctx, ex)
        return dict(self=w, args=[fval(ex, "qe", "Any"), fval(ex, "sm", "Any")], v=v)

    def post_submit(ex, st, path):
        o, v = View(ctx, ex, st["self"], st["old"]), View(ctx, ex, st["self"])
        if path.kind == "raise":
            return [("fails only if nothing is pending", And(path.value.cls == "KeyError", All(x, Not(Sel(o.pending, x)))))]
        j = ex.box(path.value)
        k = v.qid(j)
        return inv(ctx, v) + [("a pending job is started", Sel(o.pending, k)), ("it runs", And(Sel(v.running, k), Not(Sel(v.pending, k)), v.job(k) == j)),
                              ("nothing else changes", All(x, Implies(x != k, And(*[Sel(getattr(v, n), x) == Sel(getattr(o, n), x) for n in SETS], Implies(Sel(o.jobs.dom, x), v.state(x) == o.state(x))))))]
    vc.function(ctx, FILE, "_JobList.submit", setup_submit, post_submit)

    def setup_set(ex):
        w, v = setup_state(ctx, ex)
        k = fval(ex, "qid", "Qid")
        ex.assume(Or(Sel(v.running, k.t), Sel(v.pending, k.t)))
        s = fval(ex, "state", "JobState")
        return dict(self=w, args=[Sym("val", v.job(k.t), "Job"), s], k=k.t, s=s.t)

    def post_set(ex, st, path):
        o, v = View(ctx, ex, st["self"], st["old"]), View(ctx, ex, st["self"])
        k, s = st["k"], st["s"]
        allowed = Or(s == JS("FINISHED"), s == JS("FAILED"), s == JS("TIMED_OUT"))
        if path.kind == "raise":
            return [("only final states are accepted", And(path.value.cls == "AssertionError", Not(allowed)))]
        d = ex.ghost.get("blocked")
        d = d if d is not None else FALSE_SET
        r = ex.as_set(path.value).mem
        bad = Or(s == JS("FAILED"), s == JS("TIMED_OUT"))
        return inv(ctx, v) + [
            ("a success blocks nothing", Implies(s == JS("FINISHED"), And(All(x, Not(Sel(d, x))), All(y, Not(Sel(r, y)))))),
            ("a failure blocks exactly the unresolved downstream jobs", Implies(bad, All(x, Implies(Sel(o.jobs.dom, x), Sel(d, x) == And(ctx.desc(k, x), x != k, Or(o.state(x) == JS("PENDING"), o.state(x) == JS("RUNNING"))))))),
            ("the blocked jobs are returned", All(x, Implies(Sel(o.jobs.dom, x), Sel(r, o.job(x)) == Sel(d, x)))),
            ("the job gets the given state", v.state(k) == s),
            ("blocked jobs become FAILED_DEP", All(x, Implies(Sel(d, x), v.state(x) == JS("FAILED_DEP")))),
            ("every other job keeps its state", All(x, Implies(And(Sel(o.jobs.dom, x), x != k, Not(Sel(d, x))), v.state(x) == o.state(x)))),
        ]
    vc.function(ctx, FILE, "_JobList.setJobState", setup_set, post_set, min_paths=4)

    # ------------------------------------------------------------------ construction
    nodes = z3.Const("graph_nodes", VSET)
    ctx.classes["Graph"] = ClassInfo({}, (), {
        "__iter__": lambda ex, a, kw: DomainVal(set_dom(ex, nodes, ("val", "Qid"))), "copy": lambda ex, a, kw: a[0],
        "nodes": None})
    ctx.classes["Graph"].methods.pop("nodes")
    ctx.classes["Graph"].attrs["nodes"] = D("NodeView")
    ctx.classes["NodeView"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("node_info", V, V)(ex.box(a[1])), "Info")})
    ctx.classes["Info"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("info_" + a[1].v, V, V)(ex.box(a[0])), "Any")})
    mkjob = z3.Function("job_for", V, V)

    def new_job(ex, a, kw):
        """_Job.__init__: a new PENDING job carrying the given id (one object per call)."""
        k = ex.box(kw["quantum_id"] if "quantum_id" in kw else a[0])
        j = Sym("val", mkjob(k), "Job")
        ex.assume(And(j.t != V.none, ex.box(ex.getattr(j, "quantum_id")) == k))
        ex.assume(Sel(ex.field_arrays("Job", "_state", D("JobState"))[0][0], j.t) == JS("PENDING"))
        return j
    ctx.constructors["_Job"] = new_job

    def new_walker(ex, a, kw):
        w = Sym("val", ex.fresh("walker", V), "Walker")
        ex.assume(w.t != V.none)
        R, A, I = (wf(ex, w, n) for n in ("ready", "active", "incomplete"))
        ex.assume(All(x, And(Sel(I, x) == Sel(nodes, x), Not(Sel(A, x)), Sel(R, x) == And(Sel(nodes, x), Not(Any(y, And(Sel(nodes, y), ctx.edge(y, x))))))))
        return w
    ctx.constructors["GraphWalker"] = new_walker

    def setup_init(ex):
        w = fobj(ex, FILE, "_JobList", {})
        ex.field_arrays("Job", "_state", D("JobState"))
        return dict(self=w, args=[fval(ex, "g", "Graph")])

    def post_init(ex, st, path):
        if path.kind == "raise":
            return [("construction succeeds", False)]
        v = View(ctx, ex, st["self"])
        return inv(ctx, v) + [("one job per node", All(x, Sel(v.jobs.dom, x) == Sel(nodes, x))),
                              ("exactly the nodes without predecessors are pending", All(x, Sel(v.pending, x) == And(Sel(nodes, x), Not(Any(y, And(Sel(nodes, y), ctx.edge(y, x))))))),
                              ("all jobs start pending", All(x, Implies(Sel(nodes, x), v.state(x) == JS("PENDING"))))]
    vc.function(ctx, FILE, "_JobList.__init__", setup_init, post_init)
