"""P12: what a pipeline's parts write is exactly what reading them back needs."""
from pyvc.spec import *

FILE = "pipelineIR.py"
x, l = q1("x!q"), q1("l!q")
i, j = z3.Int("i!q"), z3.Int("j!q")


def make_ctx():
    ctx = Ctx()
    for n in ("Label", "Key", "Value", "Class", "DataId", "Path", "Dims", "Data"):
        ctx.classes[n] = ClassInfo()
    return ctx


def entries(ex, ref):
    c = ex.cell(ref)
    return {k.v: v for k, v in c.items} if c.kind == "dict" else None


def verify(vc):
    ctx = make_ctx()
    truthy = lambda n: z3.Function(n + "_truthy", V, BOOL)
    for n in ("Text", "DataId"):
        ctx.classes[n] = ClassInfo(truthy=lambda ex, v, n=n: truthy(n)(v.t))
    vc.assume_note("PyYAML and the order of keys are checked by the bounded run")

    # labeled subsets: written, then read
    def setup_ls(ex):
        s, d, n = fset(ex, "subset", "Label"), fval(ex, "description", "Text"), fval(ex, "label", "Label")
        return dict(self=fobj(ex, FILE, "LabeledSubset", dict(label=n, subset=s, description=d)), args=[], s=ex.cell(s).mem, d=d.t)

    def post_ls(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        e = entries(ex, p.value)
        if e is None or not set(e) <= {"subset", "description"} or "subset" not in e:
            return [("writes the members, and the description if there is one", False)]
        c = ex.cell(e["subset"])
        m = lambda v: Any(i, And(0 <= i, i < c.n, Sel(c.ats[0], i) == v))
        return [("writes exactly the members", All(l, m(l) == Sel(st["s"], l))),
                ("writes the description exactly if there is one", ex.box(e["description"]) == st["d"] if "description" in e else st["d"] == V.none),
                ("does not write a missing description", st["d"] != V.none if "description" in e else True)]
    vc.function(ctx, FILE, "LabeledSubset.to_primitives", setup_ls, post_ls)

    def setup_lf(desc):
        def go(ex):
            s, d, n = fseq(ex, "subset", "Label"), fval(ex, "description", "Text"), fval(ex, "label", "Label")
            items = [(Const("subset"), s)] + ([(Const("description"), d)] if desc else [])
            return dict(self=None, args=[n, ex.alloc(DictC(items))], s=ex.cell(s), d=d.t if desc else V.none, n=n.t)
        return go

    def post_lf(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        f = ex.heap[p.value.addr].fields
        return [("reads exactly the members", All(l, Sel(mem(ex, f["subset"]), l) == Any(i, And(0 <= i, i < st["s"].n, Sel(st["s"].ats[0], i) == l)))),
                ("reads the description", ex.box(f["description"]) == st["d"]), ("reads the label", ex.box(f["label"]) == st["n"])]
    for d in (True, False):
        vc.function(ctx, FILE, "LabeledSubset.from_primitives", setup_lf(d), post_lf, name=f"LabeledSubset.from_primitives({'with' if d else 'without'} description)")

    # contracts and steps
    def setup_c(ex):
        t, m = fval(ex, "contract", "Text"), fval(ex, "msg", "Text")
        return dict(self=fobj(ex, FILE, "ContractIR", dict(contract=t, msg=m)), args=[], t=t.t, m=m.t)

    def post_c(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        e = entries(ex, p.value)
        if e is None or not set(e) <= {"contract", "msg"} or "contract" not in e:
            return [("writes the contract, and the message if there is one", False)]
        return [("writes the contract", ex.box(e["contract"]) == st["t"]), ("writes the message exactly if there is one", And(ex.box(e["msg"]) == st["m"], st["m"] != V.none) if "msg" in e else st["m"] == V.none)]
    vc.function(ctx, FILE, "ContractIR.to_primitives", setup_c, post_c)

    def setup_s(ex):
        t, m = fval(ex, "label", "Label"), fval(ex, "dimensions", "Dims")
        return dict(self=fobj(ex, FILE, "StepIR", dict(label=t, dimensions=m)), args=[], t=t.t, m=m.t)

    def post_s(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        e = entries(ex, p.value)
        return [("writes label and dimensions", And(ex.box(e["label"]) == st["t"], ex.box(e["dimensions"]) == st["m"]) if e is not None and set(e) == {"label", "dimensions"} else False)]
    vc.function(ctx, FILE, "StepIR.to_primitives", setup_s, post_s)

    # config blocks: python, dataId and file under their own keys, everything else as it is
    def setup_cfg(ex):
        rest, file = fmap(ex, "rest", "str", "Value"), fseq(ex, "file", "Path")
        py, did = fval(ex, "python", "Text"), fval(ex, "dataId", "DataId")
        rc = ex.cell(rest)
        special = [str_const(n) for n in ("python", "dataId", "file")]
        ex.assume(And(*[Not(Sel(rc.dom, n)) for n in special]))
        o = fobj(ex, FILE, "ConfigIR", dict(rest=rest, file=file, python=py, dataId=did))
        return dict(self=o, args=[], rest=rc, py=py.t, did=did.t, file=ex.cell(file))

    def post_cfg(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        c = ex.cell(p.value)
        if c.kind != "map":
            return [("writes one mapping", False)]
        K = str_const
        r = st["rest"]
        has = lambda n: Sel(c.dom, K(n))
        tr = lambda n, v: And(v != V.none, truthy(n)(v))
        return [("python is written exactly if given", And(has("python") == tr("Text", st["py"]), Implies(has("python"), Sel(c.vals[0], K("python")) == st["py"]))),
                ("dataId is written exactly if given", And(has("dataId") == tr("DataId", st["did"]), Implies(has("dataId"), Sel(c.vals[0], K("dataId")) == st["did"]))),
                ("files are written exactly if given", has("file") == (st["file"].n > 0)),
                ("all other overrides are written, and nothing else", All(x, Implies(And(x != K("python"), x != K("dataId"), x != K("file")),
                    And(Sel(c.dom, x) == Sel(r.dom, x), Implies(Sel(r.dom, x), Sel(c.vals[0], x) == Sel(r.vals[0], x))))))]
    vc.function(ctx, FILE, "ConfigIR.to_primitives", setup_cfg, post_cfg)
