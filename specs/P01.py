"""P01: graph walker scheduling."""
from pyvc.spec import *

FILE = "graph_walker.py"


def make_ctx():
    ctx = Ctx()
    edge = z3.Function("edge", V, V, BOOL)

    def nodes(ex, g):
        return Sel(ex.field_arrays("DiGraph", "nodes", D("set[Node]"))[0][0], g.t)

    def succ(ex, a, kw):
        g, k = a
        kt = ex.box(k)
        ns = nodes(ex, g)
        if not ex.branch(Sel(ns, kt)):
            ex.raise_("NetworkXError")
        s = ex.fresh_set("succ", lambda x: And(Sel(ns, x), edge(kt, x)), ("val", "Node"))
        return DomainVal(set_dom(ex, s.mem, ("val", "Node")))

    def pred(ex, a, kw):
        g, k = a
        kt = ex.box(k)
        ns = nodes(ex, g)
        if not ex.branch(Sel(ns, kt)):
            ex.raise_("NetworkXError")
        s = ex.fresh_set("pred", lambda x: And(Sel(ns, x), edge(x, kt)), ("val", "Node"))
        return DomainVal(set_dom(ex, s.mem, ("val", "Node")))

    def remove_node(ex, a, kw):
        g, k = a
        ns = nodes(ex, g)
        kt = ex.box(k)
        if not ex.branch(Sel(ns, kt)):
            ex.raise_("NetworkXError")
        ex.call(ex.getattr(Place(("field", "DiGraph", "nodes"), g.t, D("set[Node]")), "discard"), [k], {})
        return NONE

    def remove_nodes_from(ex, a, kw):
        g, ks = a
        ex.call(ex.getattr(Place(("field", "DiGraph", "nodes"), g.t, D("set[Node]")), "difference_update"), [ks], {})
        return NONE

    def it(ex, a, kw):
        ns = nodes(ex, a[0])
        return DomainVal(set_dom(ex, ns, ("val", "Node")))

    def contains(ex, a, kw):
        return Sym("bool", Sel(nodes(ex, a[0]), ex.box(a[1])))

    def descendants(ex, a, kw):
        g, k = a
        ns, kt = nodes(ex, g), ex.box(k)
        if not ex.branch(Sel(ns, kt)):
            ex.raise_("NetworkXError")
        d = ex.fresh("desc", VSET)
        via = ex.fresh_fn("via", V, V)
        x, y = q1("x!d"), q1("y!d")
        ex.assume(All(x, Implies(Sel(d, x), And(Sel(ns, x), x != kt, Sel(ns, via(x)), edge(via(x), x), Or(via(x) == kt, Sel(d, via(x))))), [Sel(d, x)]))
        ex.assume(All([x, y], Implies(And(Or(x == kt, Sel(d, x)), edge(x, y), Sel(ns, y)), Sel(d, y)), [edge(x, y)]))
        ex.assume(Not(Sel(d, kt)))
        return ex.alloc(SetC(d, ("val", "Node")))

    def topo(ex, a, kw):
        """topological_generations: an iterator whose first item (if any node exists) is the set of nodes without predecessors."""
        ns = nodes(ex, a[0])
        x, y = q1("x!t"), q1("y!t")
        first = ex.fresh_set("gen0", lambda x: And(Sel(ns, x), Not(Any(y, And(Sel(ns, y), edge(y, x))))), ("val", "Node"))
        n = ex.fresh("ngen", INT)
        ex.assume(n >= 0)
        ex.assume((n > 0) == Any(x, Sel(ns, x)))
        arr = ex.fresh("gens", z3.ArraySort(INT, VSET))
        ex.assume(Sel(arr, 0) == first.mem)
        r = ex.alloc(SeqC(n, [arr], D("set[Node]")))
        return r
    ctx.classes["DiGraph"] = ClassInfo({"nodes": "set[Node]"}, "all", {
        "successors": succ, "predecessors": pred, "remove_node": remove_node, "remove_nodes_from": remove_nodes_from, "__iter__": it,
        "__contains__": contains})
    ctx.classes["Node"] = ClassInfo()
    ctx.stubs["networkx.dag.descendants"] = descendants
    ctx.stubs["networkx.descendants"] = descendants
    ctx.stubs["networkx.dag.topological_generations"] = topo
    ctx.stubs["networkx.topological_generations"] = topo
    ctx.exc_parent["NetworkXError"] = "Exception"
    ctx.edge = edge
    ctx.nodes = nodes
    return ctx


def state(ctx):
    def setup(ex):
        g = Sym("val", ex.fresh("g", V), "DiGraph")
        ex.assume(g.t != V.none)
        r, a, i = (fset(ex, n, "Node") for n in ("ready", "active", "incomplete"))
        w = fobj(ex, FILE, "GraphWalker", dict(_xgraph=g, _ready=r, _active=a, _incomplete=i))
        for _, f in inv(ctx, ex, w):
            ex.assume(f)
        k = Sym("val", ex.fresh("key", V), "Node")
        return dict(self=w, args=[k], key=k, g=g)
    return setup


def parts(ctx, ex, w):
    f = ex.heap[w.addr].fields
    return mem(ex, f["_ready"]), mem(ex, f["_active"]), mem(ex, f["_incomplete"]), ctx.nodes(ex, f["_xgraph"])


def inv(ctx, ex, w):
    R, A, I, N = parts(ctx, ex, w)
    return inv_terms(ctx, R, A, I, N)


def inv_terms(ctx, R, A, I, N):
    x, p = q1("x!i"), q1("p!i")
    return [
        ("ready-incomplete", All(x, Implies(Sel(R, x), And(Sel(I, x), Not(Sel(A, x)))))),
        ("active-incomplete", All(x, Implies(Sel(A, x), And(Sel(I, x), Not(Sel(R, x)))))),
        ("incomplete-nodes", All(x, Implies(Sel(I, x), Sel(N, x)))),
        ("only-unblocked-scheduled", All([x, p], Implies(And(Or(Sel(R, x), Sel(A, x)), Sel(N, p), ctx.edge(p, x)), Not(Sel(I, p))), [ctx.edge(p, x)])),
        ("unblocked-is-scheduled", All(x, Implies(And(Sel(I, x), All(p, Implies(And(Sel(N, p), ctx.edge(p, x)), Not(Sel(I, p))), [ctx.edge(p, x)])),
                                                  Or(Sel(R, x), Sel(A, x))))),
    ]


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("networkx.DiGraph successors/predecessors/remove_node(s)/iteration, networkx.dag.descendants and topological_generations have the assumed set contracts",
                   "the input graph is acyclic (networkx raises otherwise)")
    x = q1("x!p")
    p = q1("p!p")

    def post_init(ex, st, path):
        if path.kind != "return" and path.kind != "ok":
            return [("no exception", False)]
        R, A, I, N = parts(ctx, ex, st["self"])
        return inv(ctx, ex, st["self"]) + [("nothing-yielded", All(x, Not(Sel(A, x)))), ("all-incomplete", All(x, Sel(I, x) == Sel(N, x)))]

    def setup_init(ex):
        g = Sym("val", ex.fresh("g", V), "DiGraph")
        ex.assume(g.t != V.none)
        w = fobj(ex, FILE, "GraphWalker", {})
        return dict(self=w, args=[g])
    vc.function(ctx, FILE, "GraphWalker.__init__", setup_init, post_init)

    def setup_next(ex):
        st = state(ctx)(ex)
        st["args"] = []
        return st

    def post_next(ex, st, path):
        old = st["old"]
        of = old.heap[st["self"].addr].fields
        oR, oA, oI = (old.heap[of[n].addr].mem for n in ("_ready", "_active", "_incomplete"))
        R, A, I, N = parts(ctx, ex, st["self"])
        if path.kind == "raise":
            return [("stops only via StopIteration", path.value.cls == "StopIteration"), ("stop iff all finished or failed", All(x, Not(Sel(oI, x)))),
                    ("nothing pending", All(x, And(Not(Sel(oR, x)), Not(Sel(oA, x)))))]
        y = ex.as_set(path.value).mem
        return inv(ctx, ex, st["self"]) + [
            ("continues while work remains", Any(x, Sel(oI, x))),
            ("yields every ready node", All(x, Sel(y, x) == Sel(oR, x))),
            ("yielded nodes are unfinished and all predecessors finished", All([x, p], Implies(And(Sel(y, x), Sel(N, p), ctx.edge(p, x)), Not(Sel(oI, p))))),
            ("yielded were never handed out before", All(x, Implies(Sel(y, x), And(Not(Sel(oA, x)), Sel(oI, x))))),
            ("yielded become active, ready emptied", All(x, And(Sel(A, x) == Or(Sel(oA, x), Sel(y, x)), Not(Sel(R, x))))),
            ("incomplete unchanged", All(x, Sel(I, x) == Sel(oI, x))),
            ("progress: if nothing is active, something is yielded or all remaining wait on an unfinished predecessor",
             All(x, Implies(And(Sel(oI, x), Not(Sel(A, x))), Any(p, And(Sel(N, p), ctx.edge(p, x), Sel(oI, p)))))),
        ]
    vc.function(ctx, FILE, "GraphWalker.__next__", setup_next, post_next, min_paths=2)

    def post_finish(ex, st, path):
        old = st["old"]
        of = old.heap[st["self"].addr].fields
        oR, oA, oI = (old.heap[of[n].addr].mem for n in ("_ready", "_active", "_incomplete"))
        R, A, I, N = parts(ctx, ex, st["self"])
        k = st["key"].t
        if path.kind == "raise":
            return [("only unknown/finished nodes are rejected", And(path.value.cls == "KeyError", Not(Sel(oI, k)))),
                    ("state unchanged on rejection", All(x, And(Sel(R, x) == Sel(oR, x), Sel(A, x) == Sel(oA, x), Sel(I, x) == Sel(oI, x))))]
        return inv(ctx, ex, st["self"]) + [
            ("exactly the key leaves", All(x, Sel(I, x) == And(Sel(oI, x), x != k))),
            ("key no longer scheduled", And(Not(Sel(R, k)), Not(Sel(A, k)))),
            ("active set otherwise unchanged", All(x, Sel(A, x) == And(Sel(oA, x), x != k))),
            ("ready never loses another node", All(x, Implies(And(Sel(oR, x), x != k), Sel(R, x)))),
            ("finished nodes never become ready again", All(x, Implies(Sel(R, x), Sel(oI, x)))),
        ]
    vc.function(ctx, FILE, "GraphWalker.finish", state(ctx), post_finish, min_paths=2)

    def post_fail(ex, st, path):
        old = st["old"]
        of = old.heap[st["self"].addr].fields
        oR, oA, oI = (old.heap[of[n].addr].mem for n in ("_ready", "_active", "_incomplete"))
        oN = Sel(old.fields[("DiGraph", "nodes")][0][0], st["g"].t)
        R, A, I, N = parts(ctx, ex, st["self"])
        k = st["key"].t
        if path.kind == "raise":
            return [("only unknown/finished nodes are rejected", And(path.value.cls == "KeyError", Not(Sel(oI, k))))]
        d = ex.as_set(path.value).mem
        y = q1("y!p")
        return inv(ctx, ex, st["self"]) + [
            ("blocked list closed under successors", All([x, y], Implies(And(Or(x == k, Sel(d, x)), ctx.edge(x, y), Sel(oN, y)), Sel(d, y)))),
            ("blocked list contains only downstream nodes", All(x, Implies(Sel(d, x), And(Sel(oN, x), x != k, Any(y, And(ctx.edge(y, x), Or(y == k, Sel(d, y)))))))),
            ("failed node and blocked nodes can never be yielded", All(x, Implies(Or(x == k, Sel(d, x)), And(Not(Sel(R, x)), Not(Sel(A, x)), Not(Sel(I, x)), Not(Sel(N, x)))))),
            ("everything else unaffected", All(x, Implies(Not(Or(x == k, Sel(d, x))), And(Sel(R, x) == Sel(oR, x), Sel(A, x) == Sel(oA, x), Sel(I, x) == Sel(oI, x), Sel(N, x) == Sel(oN, x))))),
        ]
    vc.function(ctx, FILE, "GraphWalker.fail", state(ctx), post_fail, min_paths=2)
