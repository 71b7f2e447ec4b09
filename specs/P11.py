"""P11: TaskMetadata is a mapping in which every key lives in exactly one slot."""
from pyvc.spec import *

FILE = "_task_metadata.py"
head = z3.Function("key_head", V, V)
tail = z3.Function("key_tail", V, V)
leaf = z3.Function("key_is_leaf", V, BOOL)
x = q1("x!q")
i = z3.Int("i!q")


def make_ctx():
    ctx = Ctx()

    def get_keys(ex, a, kw):
        key = ex.box(a[-1])
        if ex.branch(leaf(key)):
            ex.assume(head(key) == key)
            return ex.alloc(ListC([Sym("val", head(key), "str")]))
        return ex.alloc(ListC([Sym("val", head(key), "str"), Sym("val", tail(key), "str")]))
    ctx.contracts["TaskMetadata._getKeys"] = get_keys

    def join(ex, a, kw):
        c = ex.cell(a[1])
        if c.kind == "list" and len(c.items) == 1:
            return c.items[0]
        raise Unsupported("join")
    ctx.stubs["str.join"] = join

    def validate(ex, a, kw):
        v = a[-1]
        if ex.choose():
            ex.ghost["validated"] = (z3.IntVal(1), lambda j: conv(ex.box(v)))
            return Tup([Const("scalar"), Sym("val", conv(ex.box(v)), "prim")])
        if ex.choose():
            r = fseq(ex, "list", "prim")
            ats = ex.cell(r).ats[0]
            ex.ghost["validated"] = (ex.cell(r).n, lambda j: Sel(ats, j))
            return Tup([Const("array"), r])
        if ex.choose():
            return Tup([Const("metadata"), Sym("val", conv(ex.box(v)), "Child")])
        ex.raise_("ValueError")
    conv = z3.Function("validated", V, V)
    ctx.conv = conv
    ctx.contracts["TaskMetadata._validate_value"] = validate

    # a child TaskMetadata: abstract content, methods by their own contracts (structural induction on nesting)
    put = z3.Function("child_put", INT, V, V, INT)
    ctx.put = put
    val = z3.Function("child_get", INT, V, V)
    has = z3.Function("child_has", INT, V, BOOL)
    arr = z3.Function("child_arr", INT, V, V)
    dele = z3.Function("child_del", INT, V, INT)
    addf = z3.Function("child_add", INT, V, V, INT)
    ctx.val, ctx.has, ctx.arr, ctx.dele, ctx.addf = val, has, arr, dele, addf

    def st(ex, c):
        return Sel(ex.field_arrays("Child", "content", ("int",))[0][0], ex.box(c))

    def setst(ex, c, v):
        ex.write_field(ex.box(c), "Child", "content", Sym("int", v), ("int",))

    def c_set(ex, a, kw):
        if ex.choose():
            ex.raise_("ValueError")
        setst(ex, a[0], put(st(ex, a[0]), ex.box(a[1]), ex.box(a[2])))
        return NONE

    def c_add(ex, a, kw):
        if ex.choose():
            ex.raise_("ValueError")
        setst(ex, a[0], addf(st(ex, a[0]), ex.box(a[1]), ex.box(a[2])))
        return NONE

    def c_get(ex, a, kw):
        if not ex.branch(has(st(ex, a[0]), ex.box(a[1]))):
            ex.raise_("KeyError")
        return Sym("val", val(st(ex, a[0]), ex.box(a[1])), "?")

    def c_arr(ex, a, kw):
        if not ex.branch(has(st(ex, a[0]), ex.box(a[1]))):
            ex.raise_("KeyError")
        return Sym("val", arr(st(ex, a[0]), ex.box(a[1])), "?")

    def c_del(ex, a, kw):
        if not ex.branch(has(st(ex, a[0]), ex.box(a[1]))):
            ex.raise_("KeyError")
        setst(ex, a[0], dele(st(ex, a[0]), ex.box(a[1])))
        return NONE

    def c_has(ex, a, kw):
        return Sym("bool", has(st(ex, a[0]), ex.box(a[1])))
    ctx.classes["Child"] = ClassInfo({"content": "int"}, "all", {"__setitem__": c_set, "__getitem__": c_get, "getArray": c_arr, "__delitem__": c_del, "__contains__": c_has, "add": c_add})
    empty = z3.Int("child_empty")
    ctx.empty = empty

    def mk(ex, a, kw):
        t = V.vobj(ex.fresh("newchild", smt.Obj))
        ex.assume_new(t, "Child")
        setst(ex, Sym("val", t, "Child"), empty)
        return Sym("val", t, "Child")
    ctx.constructors["TaskMetadata"] = mk
    ctx.classes["prim"] = ClassInfo()
    ty = z3.Function("type_of", V, V)

    def type_(ex, a, kw):
        return Sym("val", ty(ex.box(a[0])), "type")
    ctx.constructors["type"] = type_
    ctx.ty = ty
    ctx.st = st
    return ctx


def maps(ex, w):
    f = ex.heap[w.addr].fields
    return [ex.cell(f[n]) for n in ("scalars", "arrays", "metadata")]


def inv(S, A, M):
    return All(x, And(Not(And(Sel(S.dom, x), Sel(A.dom, x))), Not(And(Sel(S.dom, x), Sel(M.dom, x))), Not(And(Sel(A.dom, x), Sel(M.dom, x)))))


def same(m, o, but=None):
    """m and o agree (except at key but)."""
    body = And(Sel(m.dom, x) == Sel(o.dom, x), Implies(Sel(m.dom, x), And(*[Sel(p, x) == Sel(q, x) for p, q in zip(m.vals, o.vals)])))
    return All(x, body if but is None else Implies(x != but, body))


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("keys are split at '.' into a head and a remainder (str.split/join assumed)",
                   "a nested TaskMetadata satisfies the same contracts (structural induction on the nesting depth)",
                   "_validate_value's type conversions are checked by the bounded run only")

    def mk(args):
        def setup(ex):
            w = fobj(ex, FILE, "TaskMetadata", dict(scalars=fmap(ex, "scalars", "str", "prim"), arrays=fmap(ex, "arrays", "str", "seq[prim]"), metadata=fmap(ex, "metadata", "str", "Child")))
            S, A, M = maps(ex, w)
            ex.assume(inv(S, A, M))
            ex.assume(All(x, Sel(A.vals[0], x) >= 0))
            ex.assume(All(x, Implies(Sel(M.dom, x), Sel(M.vals[0], x) != V.none)))
            key = fval(ex, "key", "str")
            ex.assume(Implies(leaf(key.t), head(key.t) == key.t))
            a = [key] + ([fval(ex, "item", "Any")] if args == 2 else [])
            return dict(self=w, args=a, key=key.t, item=a[1].t if args == 2 else None)
        return setup

    def olds(st):
        o = st["old"]
        f = o.heap[st["self"].addr].fields
        return [o.heap[f[n].addr] for n in ("scalars", "arrays", "metadata")]

    def ost(st, c):
        fa = st["old"].fields.get(("Child", "content"))
        return Sel(fa[0][0] if fa else z3.Const("fld!Child.content.0", z3.ArraySort(V, INT)), c)

    def unchanged(ex, st):
        S, A, M = maps(ex, st["self"])
        oS, oA, oM = olds(st)
        c = q1("c!q")
        return [("no slot changes", And(same(S, oS), same(A, oA), same(M, oM))),
                ("no nested metadata changes", All(x, Implies(Sel(oM.dom, x), ctx.st(ex, Sym("val", Sel(oM.vals[0], x), "Child")) == ost(st, Sel(oM.vals[0], x)))))]

    def post_set(ex, st, p):
        S, A, M = maps(ex, st["self"])
        oS, oA, oM = olds(st)
        k = head(st["key"])
        if p.kind == "raise":
            return [("rejected only by value validation", p.value.cls == "ValueError")] + [("rejected assignment: " + n, g) for n, g in unchanged(ex, st)]
        n = st["item"]
        child = Sel(M.vals[0], k)
        r = [("each key in one slot", inv(S, A, M)), ("other keys unchanged", And(same(S, oS, k), same(A, oA, k), same(M, oM, k))),
             ("the key is present", Or(Sel(S.dom, k), Sel(A.dom, k), Sel(M.dom, k)))]
        r.append(("scalar value stored as given", Implies(Sel(S.dom, k), Sel(S.vals[0], k) == ctx.conv(n))))
        nv, ev = ex.ghost.get("validated", (z3.IntVal(0), None))
        r.append(("array stored as given", Implies(Sel(A.dom, k), And(Sel(A.vals[0], k) == nv, All(i, Implies(And(0 <= i, i < nv), Sel(Sel(A.vals[1], k), i) == ev(i))) if ev else True))))
        r.append(("dotted key goes into nested metadata", Implies(Not(leaf(st["key"])), And(Sel(M.dom, k), ctx.st(ex, Sym("val", child, "Child")) == ctx.put(
            If(Sel(oM.dom, k), ost(st, Sel(oM.vals[0], k)), ctx.empty), tail(st["key"]), n)))))
        r.append(("existing nested metadata is kept", Implies(And(Not(leaf(st["key"])), Sel(oM.dom, k)), child == Sel(oM.vals[0], k))))
        return r
    vc.function(ctx, FILE, "TaskMetadata.__setitem__", mk(2), post_set, min_paths=5)

    def post_get(ex, st, p):
        S, A, M = maps(ex, st["self"])
        key, k = st["key"], head(st["key"])
        c = ctx.st(ex, Sym("val", Sel(M.vals[0], k), "Child"))
        here = Or(Sel(S.dom, k), Sel(M.dom, k), And(Sel(A.dom, k), Sel(A.vals[0], k) > 0))
        present = If(leaf(key), here, And(Sel(M.dom, k), ctx.has(c, tail(key))))
        if p.kind == "raise":
            return [("missing keys raise KeyError, present ones never", And(p.value.cls == "KeyError", Not(present)))]
        return [("present", present), ("the value is the stored scalar, the last array element or the nested value", ex.box(p.value) == If(
            leaf(key), If(Sel(S.dom, k), Sel(S.vals[0], k), If(Sel(M.dom, k), Sel(M.vals[0], k), Sel(Sel(A.vals[1], k), Sel(A.vals[0], k) - 1))), ctx.val(c, tail(key))))] + unchanged(ex, st)
    vc.function(ctx, FILE, "TaskMetadata.__getitem__", mk(1), post_get, min_paths=5)

    def post_has(ex, st, p):
        S, A, M = maps(ex, st["self"])
        key, k = st["key"], head(st["key"])
        c = ctx.st(ex, Sym("val", Sel(M.vals[0], k), "Child"))
        return [("membership", And(p.kind == "ok", ex.as_bool(p.value) == If(leaf(key), Or(Sel(S.dom, k), Sel(M.dom, k), Sel(A.dom, k)), And(Sel(M.dom, k), ctx.has(c, tail(key))))))]
    vc.function(ctx, FILE, "TaskMetadata.__contains__", mk(1), post_has, min_paths=2)

    def post_del(ex, st, p):
        S, A, M = maps(ex, st["self"])
        oS, oA, oM = olds(st)
        key, k = st["key"], head(st["key"])
        c0 = ost(st, Sel(oM.vals[0], k))
        present = If(leaf(key), Or(Sel(oS.dom, k), Sel(oM.dom, k), Sel(oA.dom, k)), And(Sel(oM.dom, k), ctx.has(c0, tail(key))))
        if p.kind == "raise":
            return [("only missing keys are rejected", And(p.value.cls == "KeyError", Not(present)))] + unchanged(ex, st)
        return [("present", present), ("each key in one slot", inv(S, A, M)), ("other keys unchanged", And(same(S, oS, k), same(A, oA, k), same(M, oM, k))),
                ("the key is gone", Implies(leaf(key), Not(Or(Sel(S.dom, k), Sel(M.dom, k), Sel(A.dom, k))))),
                ("nested deletion", Implies(Not(leaf(key)), And(Sel(M.dom, k), Sel(M.vals[0], k) == Sel(oM.vals[0], k), ctx.st(ex, Sym("val", Sel(M.vals[0], k), "Child")) == ctx.dele(c0, tail(key)))))]
    vc.function(ctx, FILE, "TaskMetadata.__delitem__", mk(1), post_del, min_paths=4)

    def post_add(ex, st, p):
        S, A, M = maps(ex, st["self"])
        oS, oA, oM = olds(st)
        key, k = st["key"], head(st["key"])
        if p.kind == "raise":
            return [("kind of rejection", p.value.cls in ("ValueError", "KeyError"))] + [("rejected add: " + n, g) for n, g in unchanged(ex, st)]
        n0 = If(Sel(oS.dom, k), 1, If(Sel(oA.dom, k), Sel(oA.vals[0], k), 0))
        e0 = lambda j: If(Sel(oS.dom, k), Sel(oS.vals[0], k), Sel(Sel(oA.vals[1], k), j))
        nv, ev = ex.ghost.get("validated", (z3.IntVal(0), None))
        return [("each key in one slot", inv(S, A, M)), ("other keys unchanged", And(same(S, oS, k), same(A, oA, k), same(M, oM, k))),
                ("exactly the given values are appended", Implies(leaf(key), And(Sel(A.vals[0], k) == n0 + nv, All(i, Implies(And(0 <= i, i < nv), Sel(Sel(A.vals[1], k), n0 + i) == ev(i))) if ev else True))),
                ("the key is now an array", Implies(leaf(key), And(Sel(A.dom, k), Not(Sel(S.dom, k)), Not(Sel(M.dom, k))))),
                ("earlier values are kept in order, new ones appended", Implies(leaf(key), And(Sel(A.vals[0], k) >= n0, All(i, Implies(And(0 <= i, i < n0), Sel(Sel(A.vals[1], k), i) == e0(i)))))),
                ("nested add", Implies(Not(leaf(key)), And(Sel(oM.dom, k), ctx.st(ex, Sym("val", Sel(M.vals[0], k), "Child")) == ctx.addf(ost(st, Sel(oM.vals[0], k)), tail(key), st["item"]))))]
    vc.function(ctx, FILE, "TaskMetadata.add", mk(2), post_add, min_paths=4)

    def post_arr(ex, st, p):
        S, A, M = maps(ex, st["self"])
        key, k = st["key"], head(st["key"])
        c = ctx.st(ex, Sym("val", Sel(M.vals[0], k), "Child"))
        present = If(leaf(key), Or(Sel(S.dom, k), Sel(M.dom, k), Sel(A.dom, k)), And(Sel(M.dom, k), ctx.has(c, tail(key))))
        if p.kind == "raise":
            return [("missing keys raise KeyError, present ones never", And(p.value.cls == "KeyError", Not(present)))]
        r = [("present", present)]
        if isinstance(p.value, Sym):
            return r + [("nested array", And(Not(leaf(key)), ex.box(p.value) == ctx.arr(c, tail(key))))]
        v = ex.cell(p.value)
        if v.kind == "list":
            return r + [("a scalar or nested metadata is a one-element list", And(leaf(key), len(v.items) == 1, ex.box(v.items[0]) == If(Sel(S.dom, k), Sel(S.vals[0], k), Sel(M.vals[0], k)), Not(Sel(A.dom, k))))]
        return r + [("the stored array", And(leaf(key), Sel(A.dom, k), v.n == Sel(A.vals[0], k), All(i, Sel(v.ats[0], i) == Sel(Sel(A.vals[1], k), i))))]
    vc.function(ctx, FILE, "TaskMetadata.getArray", mk(1), post_arr, min_paths=4)

    ctx.track_card = True

    def setup_len(ex):
        st = mk(1)(ex)
        st["args"] = []
        return st
    vc.function(ctx, FILE, "TaskMetadata.__len__", setup_len, lambda ex, st, p: [("length counts every slot", ex.as_int(p.value) == sum(card(m.dom) for m in maps(ex, st["self"])))])
