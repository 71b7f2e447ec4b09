"""P09: the caching butler is transparent: every read answers what the wrapped butler would answer."""
from pyvc.spec import *

FILE = "caching_limited_butler.py"
x, y = q1("x!q"), q1("y!q")
view = z3.Function("read_view", V, V, V, V)        # (stored object, parameters, storage class) -> what a read returns
own = z3.Function("own_storage_class", V, V, BOOL)  # (stored object, storage class): the storage class of its dataset type, read without conversion
named = z3.Function("storage_class_named", V, V)
NOPAR = V.none


def make_ctx():
    ctx = Ctx()
    ctx.classes["StorageClass"] = ClassInfo()
    ctx.classes["DatasetType"] = ClassInfo({"name": "Name", "storageClass": "StorageClass"})
    ctx.classes["Ref"] = ClassInfo({"datasetType": "DatasetType", "id": "Id", "dataId": "DataId"})
    for n in ("Name", "Id", "DataId", "Obj_", "ScName"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["Params"] = ClassInfo(truthy=lambda ex, v: v.t != V.none)

    def factory_get(ex, a, kw):
        return Sym("val", named(ex.box(a[1])), "StorageClass")
    ctx.classes["Factory"] = ClassInfo({}, (), {"getStorageClass": factory_get})

    def has(ex):
        return Sel(ex.field_arrays("Wrapped", "stored", D("set[Id]"))[0][0], ctx.w.t)

    def val(ex):
        return Sel(ex.field_arrays("Wrapped", "value", D("map[Id,Obj_]"))[0][1], ctx.w.t)
    ctx.has, ctx.val = has, val

    def par(kw, a=None):
        return kw.get("parameters", NONE), kw.get("storageClass", NONE)

    def w_get(ex, a, kw):
        i = ex.box(ex.getattr(a[1], "id"))
        if not ex.branch(Sel(has(ex), i)):
            ex.raise_("FileNotFoundError")
        p, s = par(kw)
        return Sym("val", view(Sel(val(ex), i), ex.box(p), ex.box(s)), "Obj_")

    def w_put(ex, a, kw):
        i = ex.box(ex.getattr(a[2], "id"))
        if ex.choose():
            ex.raise_("OSError")
        h = ex.fresh("stored", VSET)
        ex.assume(All(x, Sel(h, x) == Or(Sel(has(ex), x), x == i)))
        ex.write_field(ctx.w.t, "Wrapped", "stored", ex.alloc(SetC(h, ("val", "Id"))), D("set[Id]"))
        ex.setitem(Place(("field", "Wrapped", "value"), ctx.w.t, D("map[Id,Obj_]")), Sym("val", i, "Id"), a[1])
        return a[2]

    def w_many(ex, a, kw):
        refs = ex.as_set(a[1]).mem
        r = fmap(ex, "stored_many", "Ref", "bool")
        c = ex.cell(r)
        ida = z3.Function("attr!Ref.id.0", V, V)
        ex.assume(All(x, And(Sel(c.dom, x) == Sel(refs, x), Implies(Sel(refs, x), Sel(c.vals[0], x) == Sel(has(ex), ida(x))))))
        return r

    def w_prune(ex, a, kw):
        ex.ghost["pruned"] = ex.as_set(a[1]).mem
        refs = ex.as_set(a[1]).mem
        ida = z3.Function("attr!Ref.id.0", V, V)
        h0, h = has(ex), ex.fresh("stored", VSET)
        # at most the datasets of the given refs disappear, whatever the flags; nothing appears
        ex.assume(All(x, Implies(Sel(h, x), Sel(h0, x))))
        ex.assume(All(x, Implies(And(Sel(h0, x), Not(Sel(h, x))), Any(y, And(Sel(refs, y), ida(y) == x)))))
        ex.write_field(ctx.w.t, "Wrapped", "stored", ex.alloc(SetC(h, ("val", "Id"))), D("set[Id]"))
        return NONE
    ctx.classes["Wrapped"] = ClassInfo({"stored": "set[Id]", "value": "map[Id,Obj_]"}, "all", {"get": w_get, "put": w_put, "stored_many": w_many, "pruneDatasets": w_prune})
    hobj, hsc = z3.Function("handle_obj", V, V), z3.Function("handle_sc", V, V)
    ctx.hobj, ctx.hsc = hobj, hsc

    def handle(ex, a, kw):
        h = Sym("val", ex.fresh("handle", V), "Handle")
        ex.assume(And(h.t != V.none, hobj(h.t) == ex.box(a[0]), hsc(h.t) == ex.box(kw["storageClass"])))
        return h
    ctx.constructors["InMemoryDatasetHandle"] = handle

    def h_get(ex, a, kw):
        p, s = par(kw)
        if isinstance(s, Const):
            s = Sym("val", hsc(a[0].t), "StorageClass")     # no conversion requested: the object as it was read
            return Sym("val", If(ex.box(p) == NOPAR, hobj(a[0].t), view(hobj(a[0].t), ex.box(p), s.t)), "Obj_")
        return Sym("val", view(hobj(a[0].t), ex.box(p), ex.box(s)), "Obj_")
    ctx.classes["Handle"] = ClassInfo({}, (), {"get": h_get})

    ctx.isinstance_hook = lambda ex, v, cls: z3.BoolVal(v.ty == "ScName") if cls == "str" and getattr(v, "ty", "") in ("StorageClass", "ScName") else None
    return ctx


def cache(ex, w):
    return ex.cell(ex.heap[w.addr].fields["_cache"])


def inv(ctx, ex, c):
    """Everything cached is a faithful copy of something the wrapped butler stores."""
    n, p, s = q1("n!i"), q1("p!i"), q1("s!i")
    i, h = Sel(c.vals[0], n), Sel(c.vals[1], n)
    return [("cached datasets exist", All(n, Implies(Sel(c.dom, n), Sel(ctx.has(ex), i)))),
            ("cached content is the stored content", All([n, p, s], Implies(Sel(c.dom, n), view(ctx.hobj(h), p, s) == view(Sel(ctx.val(ex), i), p, s)), [view(ctx.hobj(h), p, s)]))]


def verify(vc):
    ctx = make_ctx()
    vc.assume_note("the wrapped butler is a map from dataset id to object; put may fail without storing, pruneDatasets removes at most the given datasets",
                   "reading an object that was read with the storage class of its dataset type (and no parameters) through InMemoryDatasetHandle gives what reading the stored object gives; nothing is assumed of objects read with another storage class (the bounded run checks copies)",
                   "an object is not modified by the caller after it was put (the documentation promises copies on get only), nor after a get with copying disabled")
    p, s, o = q1("p!a"), q1("s!a"), q1("o!a")

    def base(ex):
        ctx.w = Sym("val", ex.fresh("wrapped", V), "Wrapped")
        ex.assume(ctx.w.t != V.none)
        s2 = q1("s2!a")
        ex.assume(All([o, p, s, s2], Implies(own(o, s2), view(view(o, NOPAR, s2), p, s) == view(o, p, s)), [view(view(o, NOPAR, s2), p, s)]))
        w = fobj(ex, FILE, "CachingLimitedButler", dict(_wrapped=ctx.w, storageClasses=fval(ex, "factory", "Factory"), _cache=fmap(ex, "cache", "Name", "tup[Id,Handle]"),
                                                        _cache_on_put=fset(ex, "on_put", "Name"), _cache_on_get=fset(ex, "on_get", "Name"), _no_copy_on_cache=fset(ex, "no_copy", "Name")))
        ctx.has(ex), ctx.val(ex)
        for _, f in inv(ctx, ex, cache(ex, w)):
            ex.assume(f)
        r = fval(ex, "ref", "Ref")
        ex.assume(And(r.t != V.none, own(Sel(ctx.val(ex), ex.box(ex.getattr(r, "id"))), ex.box(ex.getattr(ex.getattr(r, "datasetType"), "storageClass")))))
        return w, r

    def setup_get(kind):
        def setup(ex):
            w, r = base(ex)
            par = fval(ex, "parameters", "Params")
            sc = dict(none=NONE, cls=Sym("val", ex.fresh("sc", V), "StorageClass"), name=Sym("val", ex.fresh("scname", V), "ScName"))[kind]
            if kind != "none":
                ex.assume(sc.t != V.none)
            want = sc if kind == "cls" else Sym("val", named(sc.t), "StorageClass") if kind == "name" else ex.getattr(ex.getattr(r, "datasetType"), "storageClass")
            return dict(self=w, args=[r], kw=dict(parameters=par, storageClass=sc), r=r, p=par.t, s=ex.box(want))
        return setup

    def post_get(ex, st, path):
        i = ex.box(ex.getattr(st["r"], "id"))
        i0 = inv(ctx, ex, cache(ex, st["self"]))
        if path.kind == "raise":
            return [("a read fails only if the dataset does not exist", And(path.value.cls == "FileNotFoundError", Not(Sel(ctx.has(ex), i))))] + i0
        return [("only existing datasets are returned", Sel(ctx.has(ex), i)), ("the answer is what the wrapped butler would return", ex.box(path.value) == view(Sel(ctx.val(ex), i), st["p"], st["s"]))] + i0
    for k in ("none", "cls", "name"):
        vc.function(ctx, FILE, "CachingLimitedButler.get", setup_get(k), post_get, name=f"get(storage class {k})", min_paths=3)

    def setup_put(ex):
        w, r = base(ex)
        obj = fval(ex, "obj", "Obj_")
        return dict(self=w, args=[obj, r], r=r, obj=obj.t)

    def post_put(ex, st, path):
        i = ex.box(ex.getattr(st["r"], "id"))
        c = cache(ex, st["self"])
        n = q1("n!i")
        # nothing cached for a previously unknown id may linger: the id is new to the store (butler refuses overwriting)
        if path.kind == "raise":
            oc = st["old"].heap[st["old"].heap[st["self"].addr].fields["_cache"].addr]
            return [("a failed put leaves the cache as it was", All(n, And(Sel(c.dom, n) == Sel(oc.dom, n), Implies(Sel(c.dom, n), And(Sel(c.vals[0], n) == Sel(oc.vals[0], n), Sel(c.vals[1], n) == Sel(oc.vals[1], n))))))] + inv(ctx, ex, c)
        return [("stored", And(Sel(ctx.has(ex), i), Sel(ctx.val(ex), i) == st["obj"])), ("the wrapped ref is returned", ex.box(path.value) == st["r"].t)] + inv(ctx, ex, c)

    def setup_put2(ex):
        st = setup_put(ex)
        ex.assume(Not(Sel(ctx.has(ex), ex.box(ex.getattr(st["r"], "id")))))
        return st
    vc.function(ctx, FILE, "CachingLimitedButler.put", setup_put2, post_put, min_paths=3)

    def setup_many(ex):
        w, r = base(ex)
        refs = fseq(ex, "refs", "Ref")
        return dict(self=w, args=[refs], refs=ex.as_set(refs).mem)

    def post_many(ex, st, path):
        if path.kind == "raise":
            return [("no failure", False)]
        c = ex.cell(path.value)
        ida = z3.Function("attr!Ref.id.0", V, V)
        return [("every requested dataset is answered with its true existence", All(x, Implies(Sel(st["refs"], x), And(Sel(c.dom, x), Sel(c.vals[0], x) == Sel(ctx.has(ex), ida(x)))))),
                ("nothing else is answered", All(x, Implies(Sel(c.dom, x), Sel(st["refs"], x))))] + inv(ctx, ex, cache(ex, st["self"]))
    vc.function(ctx, FILE, "CachingLimitedButler.stored_many", setup_many, post_many)

    def setup_prune(ex):
        st = setup_many(ex)
        # the cache only holds whole datasets under their own dataset type name
        c = cache(ex, st["self"])
        n = q1("n!i")
        ida = z3.Function("attr!Ref.id.0", V, V)
        nm = lambda r: z3.Function("attr!DatasetType.name.0", V, V)(z3.Function("attr!Ref.datasetType.0", V, V)(r))
        ex.assume(All([n, x], Implies(And(Sel(c.dom, n), Sel(st["refs"], x), ida(x) == Sel(c.vals[0], n)), nm(x) == n)))
        w, c0 = st["self"], c
        rs = ex.cell(st["args"][0]).ats[0]
        i = z3.Int("i!h")

        def hook(ex2, fr, dom, D_, cnt):
            c2 = cache(ex2, w)
            hit = lambda r: And(Sel(c0.dom, nm(r)), Sel(c0.vals[0], nm(r)) == ida(r))
            return [("only removals", All(n, Implies(Sel(c2.dom, n), And(Sel(c0.dom, n), Sel(c2.vals[0], n) == Sel(c0.vals[0], n), Sel(c2.vals[1], n) == Sel(c0.vals[1], n))))),
                    ("processed refs are uncached", All(i, Implies(And(0 <= i, i < cnt, hit(Sel(rs, i))), Not(Sel(c2.dom, nm(Sel(rs, i))))), [Sel(rs, i)]))]
        ctx.loop_hooks["pruneDatasets:for"] = hook
        return st

    def post_prune(ex, st, path):
        if path.kind == "raise":
            return [("no failure", False)]
        pr = ex.ghost.get("pruned")
        return inv(ctx, ex, cache(ex, st["self"])) + [("the wrapped butler prunes exactly the given refs", All(x, Sel(pr, x) == Sel(st["refs"], x)) if pr is not None else False)]
    vc.function(ctx, FILE, "CachingLimitedButler.pruneDatasets", setup_prune, post_prune)
