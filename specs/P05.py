"""P05: a predicted quantum graph survives storage, partial reading and changes of its output run."""
from pyvc.spec import *
from pyvc import engine as E
from pyvc.engine import PyRaise

FILE = "quantum_graph/_predicted.py"
x, y, z, c_ = q1("x!s"), q1("y!s"), q1("z!s"), q1("c!s")
j, k_ = z3.Int("j!s"), z3.Int("k!s")
infile = z3.Function("stored_in_file", V, BOOL)
stored = z3.Function("stored_model", V, V)
key_at = z3.Function("stored_key_at", INT, V)
addr = z3.Function("address_of", V, V)
QID = z3.Function("attr!QDM.quantum_id.0", V, V)
DID = z3.Function("attr!DM.dataset_id.0", V, V)
data_id_of = z3.Function("from_full_values", V, V, V)
ref_of = z3.Function("dataset_ref", V, V, V, V, V)      # dataset type, data id, run, id
adapt = z3.Function("adapt_dataset_ref", V, V, V)
adapt_type = z3.Function("adapt_dataset_type", V, V, V)
tag = z3.Function("is_value", V, BOOL)                  # true of everything; makes a term visible to the solver
empty_id = z3.Function("empty_data_id", V, V)


def make_ctx():
    ctx = Ctx()
    ctx.enum_as_set = True
    ctx.exc_parent.update({"IncompleteQuantumGraphError": "Exception"})
    for n in ("Id", "Label", "Values", "DataId", "Dims", "Any_", "Addr", "Universe", "DType", "DRef", "Thin"):
        ctx.classes[n] = ClassInfo()
    ctx.classes["DM"] = ClassInfo({"dataset_id": "Id", "dataset_type_name": "Label", "run": "Label", "data_coordinate": "Values"})
    ctx.classes["QDM"] = ClassInfo({"quantum_id": "Id", "task_label": "Label", "data_coordinate": "Values", "inputs": "map[Label,seq[DM]]", "outputs": "map[Label,seq[DM]]"})
    return ctx


def verify(vc):
    vc.assume_note("a file maps each stored quantum id to the model written under it (proved per block and address table in P03 and P04); models decode to what was encoded (pydantic, bounded)",
                   "networkx node attributes behave like nested dicts; DataCoordinate.from_full_values, DatasetRef and the adapters of edges are deterministic functions of their arguments",
                   "set_thin_graph, update_output_run, PredictedQuantumGraph.__init__ and the writing of the file are checked by the bounded run only")
    ctx = make_ctx()
    F = lambda ex, o, n: ex.heap[o.addr].fields[n]

    # ------------------------------------------------------------------ datasets of a quantum
    def s_it(ex):
        q = fobj(ex, FILE, "PredictedQuantumDatasetsModel", dict(quantum_id=fval(ex, "qid", "Id"), inputs=fmap(ex, "inputs", "Label", "seq[DM]"), outputs=fmap(ex, "outputs", "Label", "seq[DM]")))
        ex.assume(All(x, tag(x), [tag(x)]))
        for n in ("inputs", "outputs"):
            m = ex.cell(F(ex, q, n))
            ex.assume(All(x, m.vals[0][x] >= 0) if m.vals[0].range() == INT else True)
        def hook(n):
            cnt_, at = arr(ex, F(ex, q, n))

            def h(ex2, fr, dom, D_, cnt):
                yc = ex2.cell(fr["__yields__"])
                if dom.sort != V:
                    return []
                if yc.kind == "list":
                    yc = ex2.symbolize(yc, ("seq", ("val", "Id")))
                return [("from", All(j, Implies(And(0 <= j, j < yc.n, tag(Sel(yc.ats[0], j))), Any([c_, k_], And(D_(c_), 0 <= k_, k_ < Sel(cnt_, c_), DID(Sel(Sel(at, c_), k_)) == Sel(yc.ats[0], j)))), [Sel(yc.ats[0], j)])),
                        ("into", All([c_, k_], Implies(And(D_(c_), 0 <= k_, k_ < Sel(cnt_, c_), tag(DID(Sel(Sel(at, c_), k_)))), Any(j, And(0 <= j, j < yc.n, Sel(yc.ats[0], j) == DID(Sel(Sel(at, c_), k_))))), [Sel(Sel(at, c_), k_)]))]
            return h
        for n in ("inputs", "outputs"):
            ctx.loop_hooks[f"iter_{n[:-1]}_dataset_ids:for"] = hook(n)
            ctx.loop_skip[f"iter_{n[:-1]}_dataset_ids:for"] = lambda n, L: L.dom.sort == V and n.startswith(("fact", "seq-from", "seq-into", "seq-len"))
        return dict(self=q, args=[])

    def arr(ex, ref):
        m = ex.cell(ref)
        return (m.vals[0], m.vals[1]) if m.vals[0].range() == INT else (m.vals[1], m.vals[0])

    def ids_in(ex, ref, v):
        m = ex.cell(ref)
        n, at = arr(ex, ref)
        return Any([c_, j], And(Sel(m.dom, c_), 0 <= j, j < Sel(n, c_), DID(Sel(Sel(at, c_), j)) == v))

    def p_it(ex, st, p, which):
        if p.kind == "raise":
            return [("no failure", False)]
        got = ex.as_set(p.value).mem
        want = lambda v: Or(*[ids_in(ex, F(ex, st["self"], n), v) for n in which])
        return [("only ids of these datasets", All(x, Implies(Sel(got, x), want(x)))), ("the ids of all these datasets", All(x, Implies(want(x), Sel(got, x))))]
    Q = "PredictedQuantumDatasetsModel."
    for n, which in (("iter_input_dataset_ids", ("inputs",)), ("iter_output_dataset_ids", ("outputs",)), ("iter_dataset_ids", ("inputs", "outputs"))):
        vc.function(ctx, FILE, Q + n, s_it, lambda ex, st, p, w=which: p_it(ex, st, p, w))

    # ------------------------------------------------------------------ reading
    def make_reader_ctx():
        c = make_ctx()
        c.classes["Row"] = ClassInfo({"key": "Id", "addresses": "seq[Addr]"})
        key_of = z3.Function("attr!Row.key.0", V, V)
        row = z3.Function("row_of", V, V)

        def find(ex, a, kw):
            k = ex.box(a[1])
            if not ex.branch(infile(k)):
                ex.raise_("LookupError")
            r = Sym("val", row(k), "Row")
            ex.assume(And(row(k) != V.none, key_of(row(k)) == k))
            s = ex.cell(ex.getattr(r, "addresses"))
            ex.assume(And(s.n == 1, Sel(s.ats[0], z3.IntVal(0)) == addr(k)))
            return r

        def read_model(ex, a, kw):
            m = ex.fresh("model", V)
            ex.assume(All(x, Implies(And(infile(x), addr(x) == ex.box(a[1])), m == stored(x)), [addr(x)]))
            return Sym("val", m, "QDM")

        def read_all_models(ex, a, kw):
            s = fseq(ex, "models", "QDM")
            sc = ex.cell(s)
            ex.assume(All(j, Implies(And(0 <= j, j < sc.n), And(infile(key_at(j)), Sel(sc.ats[0], j) == stored(key_at(j)))), [Sel(sc.ats[0], j)]))
            pos = z3.Function("stored_position", V, INT)
            ex.assume(All(x, Implies(infile(x), And(0 <= pos(x), pos(x) < sc.n, key_at(pos(x)) == x, Sel(sc.ats[0], pos(x)) == stored(x))), [infile(x)]))
            return s
        c.classes["AddressReader"] = ClassInfo({}, (), {"find": find, "read_all": lambda ex, a, kw: NONE})
        c.classes["MB"] = ClassInfo({}, (), {"read_model": read_model})
        c.contracts["MultiblockReader.read_all_models_in_zip"] = read_all_models

        def open_in_zip(ex, a, kw):
            mb = fval(ex, "mb_reader", "MB")
            ex.assume(mb.t != V.none)
            return E.ContextManager(lambda e: mb)
        c.contracts["MultiblockReader.open_in_zip"] = open_in_zip
        c.classes["Header"] = ClassInfo({"n_quanta": "int", "int_size": "int", "version": "int"})
        return c

    cr = make_reader_ctx()

    def reader(ex):
        h = fval(ex, "header", "Header")
        ar = fval(ex, "address_reader", "AddressReader")
        ex.assume(And(h.t != V.none, ar.t != V.none))
        qd = fmap(ex, "quantum_datasets", "Id", "QDM")
        comp = fobj(ex, FILE, "PredictedQuantumGraphComponents", dict(header=h, quantum_datasets=qd))
        m = ex.cell(qd)
        ex.assume(All(x, Implies(infile(x), And(QID(stored(x)) == x, stored(x) != V.none)), [infile(x)]))
        ex.assume(All(x, Implies(Sel(m.dom, x), And(infile(x), Sel(m.vals[0], x) == stored(x))), [Sel(m.dom, x)]))
        n = ex.as_int(ex.getattr(h, "n_quanta"))
        from pyvc.smt import card
        ex.assume(Implies(card(m.dom) == n, All(x, Implies(infile(x), Sel(m.dom, x)))))
        return fobj(ex, FILE, "PredictedQuantumGraphReader", dict(header=h, components=comp, address_reader=ar, zf=fval(ex, "zf", "Any_"), decompressor=fval(ex, "decompressor", "Any_"), page_size=Sym("int", ex.fresh("page_size", INT))))

    def s_rq(ex, mode):
        r = reader(ex)
        qd = F(ex, F(ex, r, "components"), "quantum_datasets")
        ids = NONE if mode == "all" else fseq(ex, "ids", "Id") if mode == "list" else fset(ex, "ids", "Id")
        m0 = ex.cell(qd)

        def hook(ex2, fr, dom, D_, cnt):
            if mode == "all":
                return []
            m = ex2.cell(F(ex2, F(ex2, r, "components"), "quantum_datasets"))
            if mode == "list":
                at = ex.cell(ids).ats[0]
                done = All(j, Implies(D_(j), And(infile(Sel(at, j)), Sel(m.dom, Sel(at, j)))), [Sel(at, j)])
                only = All(x, Implies(Sel(m.dom, x), Or(Sel(m0.dom, x), Any(j, And(D_(j), Sel(at, j) == x)))), [Sel(m.dom, x)])
            else:
                done = All(x, Implies(D_(x), And(infile(x), Sel(m.dom, x))))
                only = All(x, Implies(Sel(m.dom, x), Or(Sel(m0.dom, x), D_(x))), [Sel(m.dom, x)])
            return [("sound", All(x, Implies(Sel(m.dom, x), And(infile(x), Sel(m.vals[0], x) == stored(x))), [Sel(m.dom, x)])), ("kept", All(x, Implies(Sel(m0.dom, x), Sel(m.dom, x)), [Sel(m0.dom, x)])),
                    ("done", done), ("only", only)]
        cr.loop_hooks["read_quantum_datasets:for"] = hook
        return dict(self=r, args=[ids], m0=ex.cell(qd), asked=(lambda v: infile(v)) if mode == "all" else (lambda v: ex.contains(ids, Sym("val", v, "Id"))))

    def p_rq(ex, st, p):
        m1 = ex.cell(F(ex, F(ex, st["self"], "components"), "quantum_datasets"))
        m0, asked = st["m0"], st["asked"]
        out = [("every quantum read is the one stored under its id", All(x, Implies(Sel(m1.dom, x), And(infile(x), Sel(m1.vals[0], x) == stored(x))))),
               ("what had been read stays", All(x, Implies(Sel(m0.dom, x), Sel(m1.dom, x))))]
        if p.kind == "raise":
            return out + [("refused only for a quantum that is not in the graph", And(p.value.cls == "LookupError", Any(x, And(asked(x), Not(infile(x))))))]
        return out + [("every quantum asked for is in the graph and has been read", All(x, Implies(asked(x), And(infile(x), Sel(m1.dom, x))))),
                      ("nothing else has been read", All(x, Implies(Sel(m1.dom, x), Or(Sel(m0.dom, x), asked(x)))))]
    R = "PredictedQuantumGraphReader."
    for mode in ("all", "list", "set"):
        vc.function(cr, FILE, R + "read_quantum_datasets", lambda ex, m=mode: s_rq(ex, m), p_rq, name=f"{R}read_quantum_datasets ({mode})")

    # ------------------------------------------------------------------ parts that are read at most once
    cp = make_reader_ctx()
    cp.classes["InitQ"] = ClassInfo({"root": "seq[QDM]"})
    cp.classes["ThinG"] = ClassInfo({"quanta": "map[Label,seq[Thin]]"})
    block = z3.Function("stored_block", V, V)

    def one_block(ex, a, kw):
        ty = {"thin_graph": "ThinG", "init_quanta": "InitQ"}[a[1].v]
        return Sym("val", block(str_const(a[1].v)), ty)
    cp.contracts["PredictedQuantumGraphReader._read_single_block"] = one_block
    cp.contracts["BaseQuantumGraphReader._read_single_block"] = one_block
    for n in ("PredictedThinGraphModel", "PredictedInitQuantaModel", "_PredictedThinGraphModelV0"):
        cp.globals_[n] = Sym("val", obj_const(n), "Any_")

    def s_part(ex, field, ty):
        r = reader(ex)
        c = F(ex, r, "components")
        v = fval(ex, field, ty)
        ex.assume(v.t != V.none)
        ex.heap[c.addr].fields[field] = v
        ex.assume(ex.as_int(ex.getattr(F(ex, r, "header"), "version")) > 0)
        e = ex.cell(ex.getattr(v, "root" if ty == "InitQ" else "quanta"))
        some = e.n > 0 if ty == "InitQ" else Any(x, Sel(e.dom, x))
        ex.assume(Implies(some, v.t == block(str_const(field))))
        return dict(self=r, args=[], field=field)

    def p_part(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("it is what the file holds now", ex.box(F(ex, F(ex, st["self"], "components"), st["field"])) == block(str_const(st["field"])))]
    vc.function(cp, FILE, R + "read_thin_graph", lambda ex: s_part(ex, "thin_graph", "ThinG"), p_part)
    vc.function(cp, FILE, R + "read_init_quanta", lambda ex: s_part(ex, "init_quanta", "InitQ"), p_part)

    # ------------------------------------------------------------------ which parts each kind of reading needs
    cs = make_ctx()
    parts = ("read_init_quanta", "read_dimension_data", "read_quantum_datasets", "read_thin_graph")

    def step(n):
        def f(ex, a, kw):
            ex.ghost["parts"] = ex.ghost["parts"] + ((n, *[ex.box(v) for v in a[1:]], *[ex.box(v) for v in kw.values()]),)
            return NONE
        return f
    for n in parts:
        cs.contracts[R + n] = step(n)

    def s_ex(ex, given):
        r = fobj(ex, FILE, "PredictedQuantumGraphReader", {})
        ex.ghost["parts"] = ()
        ids = fval(ex, "ids", "Any_")
        ex.assume(ids.t != V.none)
        return dict(self=r, args=[ids] if given else [], ids=ids.t if given else V.none)

    def p_ex(ex, st, p, thin):
        if p.kind == "raise":
            return [("no failure", False)]
        g = ex.ghost["parts"]
        names = {e[0] for e in g}
        want = set(parts) - (set() if thin else {"read_thin_graph"})
        q = [e for e in g if e[0] == "read_quantum_datasets"]
        return [("every part it needs is read", want <= names), ("the quanta asked for are those read", And(*[(e[1] if len(e) > 1 else V.none) == st["ids"] for e in q]) if q else False)]
    for given in (False, True):
        vc.function(cs, FILE, R + "read_execution_quanta", lambda ex, g=given: s_ex(ex, g), lambda ex, st, p: p_ex(ex, st, p, False), name=f"{R}read_execution_quanta ({'some' if given else 'all'})")
    vc.function(cs, FILE, R + "read_all", lambda ex: s_ex(ex, False), lambda ex, st, p: p_ex(ex, st, p, True))

    # ------------------------------------------------------------------ counts in the header
    cc = make_ctx()
    owns = z3.Function("dataset_of_quantum", V, V, BOOL)
    cc.classes["Header"] = ClassInfo({"n_quanta": "int", "n_datasets": "int", "n_task_quanta": "map[Label,int]"}, "all", {})
    cc.classes["InitQ"] = ClassInfo({"root": "seq[QDM]"})
    cc.classes["ThinG"] = ClassInfo({"quanta": "map[Label,seq[Thin]]"})
    cc.classes["QDM"].methods["iter_dataset_ids"] = lambda ex, a, kw: (lambda q: ex.alloc(ex.fresh_set("ids", lambda v: owns(q, v), ("val", "Id"))))(a[0].t)

    def s_hc(ex):
        h, iq, tg = fval(ex, "header", "Header"), fval(ex, "init_quanta", "InitQ"), fval(ex, "thin_graph", "ThinG")
        ex.assume(And(h.t != V.none, iq.t != V.none, tg.t != V.none))
        qd = fmap(ex, "quantum_datasets", "Id", "QDM")
        m = ex.cell(qd)
        ex.assume(All(x, Implies(Sel(m.dom, x), Sel(m.vals[0], x) != V.none), [Sel(m.dom, x)]))
        rc = ex.cell(ex.getattr(iq, "root"))
        ex.assume(All(j, Implies(And(0 <= j, j < rc.n), Sel(rc.ats[0], j) != V.none), [Sel(rc.ats[0], j)]))
        o = fobj(ex, FILE, "PredictedQuantumGraphComponents", dict(header=h, quantum_datasets=qd, init_quanta=iq, thin_graph=tg))
        every = ex.fresh("every_dataset", VSET)
        ex.assume(All([x, y], Implies(And(Sel(m.dom, x), owns(Sel(m.vals[0], x), y)), Sel(every, y)), [owns(Sel(m.vals[0], x), y)]))
        ex.assume(All([j, y], Implies(And(0 <= j, j < rc.n, owns(Sel(rc.ats[0], j), y)), Sel(every, y)), [owns(Sel(rc.ats[0], j), y)]))
        wq, wi = z3.Function("owner_quantum", V, V), z3.Function("owner_init", V, INT)
        ex.assume(All(y, Implies(Sel(every, y), Or(And(Sel(m.dom, wq(y)), owns(Sel(m.vals[0], wq(y)), y)), And(0 <= wi(y), wi(y) < rc.n, owns(Sel(rc.ats[0], wi(y)), y)))), [Sel(every, y)]))

        def hook(ex2, fr, dom, D_, cnt):
            a = ex2.as_set(fr["all_dataset_ids"]).mem
            out = [("within", All(y, Implies(Sel(a, y), Sel(every, y)), [Sel(a, y)]))]
            if dom.sort == INT:
                return out + [("init", All([j, y], Implies(And(D_(j), owns(Sel(rc.ats[0], j), y)), Sel(a, y)), [owns(Sel(rc.ats[0], j), y)]))]
            return out + [("init all", All([j, y], Implies(And(0 <= j, j < rc.n, owns(Sel(rc.ats[0], j), y)), Sel(a, y)), [owns(Sel(rc.ats[0], j), y)])),
                          ("quanta", All([x, y], Implies(And(D_(x), owns(Sel(m.vals[0], x), y)), Sel(a, y)), [owns(Sel(m.vals[0], x), y)]))]
        cc.loop_hooks["set_header_counts:for"] = hook
        return dict(self=o, args=[], h=h, m=m, rc=rc, tc=ex.cell(ex.getattr(tg, "quanta")), every=every)

    def p_hc(ex, st, p):
        from pyvc.smt import card
        if p.kind == "raise":
            return [("no failure", False)]
        h, m, rc, tc = st["h"], st["m"], st["rc"], st["tc"]
        nt = ex.cell(ex.getattr(h, "n_task_quanta"))
        cnt = next(v for v in tc.vals if v.range() == INT)
        return [("the number of quanta", ex.as_int(ex.getattr(h, "n_quanta")) == card(m.dom)), ("the number of datasets", ex.as_int(ex.getattr(h, "n_datasets")) == card(st["every"])),
                ("the number of quanta of every task", All(x, And(Sel(nt.dom, x) == Sel(tc.dom, x), Implies(Sel(nt.dom, x), Sel(nt.vals[0], x) == Sel(cnt, x)))))]
    vc.function(cc, FILE, "PredictedQuantumGraphComponents.set_header_counts", s_hc, p_hc)

    # ------------------------------------------------------------------ writing
    cw = make_ctx()
    enc = z3.Function("json_of", V, V)
    compress = z3.Function("compress", V, V)
    cw.exc_parent["ZstdError"] = "Exception"
    cw.classes["Header"] = ClassInfo({"n_quanta": "int", "n_datasets": "int", "n_task_quanta": "map[Label,int]", "version": "int"}, "all", {})
    cw.classes["ThinG"] = ClassInfo({"quanta": "map[Label,seq[Thin]]"})
    cw.classes["Bytes"] = ClassInfo()
    cw.classes["Json"] = ClassInfo({}, (), {"encode": lambda ex, a, kw: Sym("val", a[0].t, "Bytes")})
    cw.classes["QDM"].methods["model_dump_json"] = lambda ex, a, kw: (ex.assume(enc(a[0].t) != V.none), Sym("val", enc(a[0].t), "Json"))[1]
    cw.classes["Uri"] = ClassInfo({}, (), {"getExtension": lambda ex, a, kw: ex.ghost["ext"]})
    new = lambda ty: lambda ex, a, kw: (lambda v: (ex.assume(v.t != V.none), v)[1])(Sym("val", ex.fresh(ty, V), ty))
    cw.stubs["ResourcePath"] = new("Uri")
    cw.classes["DimData"] = ClassInfo({}, (), {"serialized": lambda ex, a, kw: Sym("val", z3.Function("serialized", V, V)(a[0].t), "Any_")})
    cw.classes["Compressor"] = ClassInfo({}, (), {"compress": lambda ex, a, kw: Sym("val", compress(ex.box(a[1])), "Bytes")})
    cw.classes["AddrList"] = ClassInfo({}, (), {"append": lambda ex, a, kw: (ex.ghost.__setitem__("addresses", ex.ghost["addresses"] + (ex.box(a[1]),)), NONE)[1]})
    cw.classes["AddrW"] = ClassInfo({"addresses": "AddrList"})
    cw.classes["Writer"] = ClassInfo({"zf": "Any_", "int_size": "int", "compressor": "Compressor", "address_writer": "AddrW"}, (), {
        "write_single_model": lambda ex, a, kw: (ex.ghost.__setitem__("single", {**ex.ghost["single"], a[1].v: ex.box(a[2])}), NONE)[1]})

    def put(ex, mb, k, v):
        b = Place(("field", "MBW", "blocks"), mb.t, D("map[Id,Bytes]"))
        ex.setitem(b, k, Sym("val", v, "Bytes"))
        return NONE
    cw.classes["MBW"] = ClassInfo({"blocks": "map[Id,Bytes]", "addresses": "Any_"}, ("blocks",), {
        "write_bytes": lambda ex, a, kw: put(ex, a[0], a[1], ex.box(a[2])), "write_model": lambda ex, a, kw: put(ex, a[0], a[1], compress(enc(ex.box(a[2]))))})

    def mb_open(ex, a, kw):
        mb = new("MBW")(ex, [], {})
        ex.ghost["mb"] = mb
        ex.write_field(mb.t, "MBW", "blocks", ex.alloc(empty_map(ex)), D("map[Id,Bytes]"))
        return E.ContextManager(lambda e: mb)

    def empty_map(ex):
        c = ex.cell(fmap(ex, "no_blocks", "Id", "Bytes"))
        ex.assume(All(x, Not(Sel(c.dom, x)), [Sel(c.dom, x)]))
        return c
    cw.contracts["MultiblockWriter.open_in_zip"] = mb_open
    cw.contracts["BaseQuantumGraphWriter.open"] = lambda ex, a, kw: (ex.ghost.__setitem__("header", kw["header"].t), E.ContextManager(lambda e: new("Writer")(e, [], {})))[1]

    def train(ex, a, kw):
        if ex.branch(ex.fresh("training_fails", BOOL)):
            ex.raise_("ZstdError")
        return new("ZDict")(ex, [], {})
    cw.classes["ZDict"] = ClassInfo({}, (), {"as_bytes": new("Bytes")})
    cw.stubs["zstandard.train_dictionary"] = train
    cw.globals_["warnings"] = Noop()

    def islice(ex, a, kw):
        s = fseq(ex, "first", "QDM")
        sc, m = ex.cell(s), ex.ghost["m"]
        ex.assume(All(j, Implies(And(0 <= j, j < sc.n), And(Sel(m.dom, QID(Sel(sc.ats[0], j))), Sel(m.vals[0], QID(Sel(sc.ats[0], j))) == Sel(sc.ats[0], j))), [Sel(sc.ats[0], j)]))
        return s
    cw.stubs["itertools.islice"] = islice

    def s_w(ex, ext):
        h, tg, iq = fval(ex, "header", "Header"), fval(ex, "thin_graph", "ThinG"), fval(ex, "init_quanta", "Any_")
        dd = fval(ex, "dimension_data", "DimData")
        ex.assume(And(h.t != V.none, tg.t != V.none))
        qd = fmap(ex, "quantum_datasets", "Id", "QDM")
        m = ex.cell(qd)
        ex.assume(All(x, Implies(Sel(m.dom, x), And(Sel(m.vals[0], x) != V.none, QID(Sel(m.vals[0], x)) == x)), [Sel(m.dom, x)]))
        o = fobj(ex, FILE, "PredictedQuantumGraphComponents", dict(header=h, quantum_datasets=qd, init_quanta=iq, thin_graph=tg, dimension_data=dd, pipeline_graph=fval(ex, "pg", "Any_")))
        ex.ghost.update(ext=Const(ext), single={}, addresses=(), header=None, mb=None, m=m)
        return dict(self=o, args=[fval(ex, "uri", "Any_")], kw=dict(zstd_dict_size=Sym("int", ex.fresh("dict_size", INT)), zstd_dict_n_inputs=Sym("int", ex.fresh("dict_inputs", INT))), h=h, m=m, tc=ex.cell(ex.getattr(tg, "quanta")), nt=ex.cell(ex.getattr(h, "n_task_quanta")),
                    nq=ex.as_int(ex.getattr(h, "n_quanta")), tg=tg.t, iq=iq.t, dd=dd.t)

    def p_w(ex, st, p):
        from pyvc.smt import card
        cnt = next(v for v in st["tc"].vals if v.range() == INT)
        m, g = st["m"], ex.ghost
        same = And(All(x, And(Sel(st["nt"].dom, x) == Sel(st["tc"].dom, x), Implies(Sel(st["tc"].dom, x), Sel(st["nt"].vals[0], x) == Sel(cnt, x)))), st["nq"] == card(m.dom))
        if p.kind == "raise":
            return [("refused only if part of the graph has not been read", Or(And(p.value.cls == "RuntimeError", Not(same)), And(p.value.cls == "IncompleteQuantumGraphError", st["dd"] == V.none)))]
        out = [("a partly read graph is not written", st["nq"] == card(m.dom)), ("every task counted has been read", All(x, Implies(Sel(st["nt"].dom, x), And(Sel(st["tc"].dom, x), Sel(st["nt"].vals[0], x) == Sel(cnt, x))))),
               ("every task read has been counted", All(x, Implies(Sel(st["tc"].dom, x), Sel(st["nt"].dom, x)))), ("the parts are written", And(g["single"].get("thin_graph") == st["tg"] if "thin_graph" in g["single"] else False, g["single"]["init_quanta"] == st["iq"] if "init_quanta" in g["single"] else False,
                                                                                          g["single"]["dimension_data"] == z3.Function("serialized", V, V)(st["dd"]) if "dimension_data" in g["single"] else False, g["header"] is not None and g["header"] == st["h"].t))]
        if g["mb"] is None:
            return out + [("quanta are written", False)]
        b = ex.cell(ex.getattr(g["mb"], "blocks"))
        return out + [("every quantum is written under its id", All(x, Implies(Sel(m.dom, x), And(Sel(b.dom, x), Sel(b.vals[0], x) == compress(enc(Sel(m.vals[0], x))))))), ("nothing else is written", All(x, Implies(Sel(b.dom, x), Sel(m.dom, x)))),
                      ("their addresses are recorded", And(len(g["addresses"]) == 1, g["addresses"][0] == ex.box(ex.getattr(g["mb"], "addresses"))) if g["addresses"] else False)]
    vc.function(cw, FILE, "PredictedQuantumGraphComponents.write", lambda ex: s_w(ex, ".qg"), p_w)

    # ------------------------------------------------------------------ references built from the models
    ca = make_ctx()
    ca.classes["Edge"] = ClassInfo({"parent_dataset_type_name": "Label"}, (), {
        "adapt_dataset_ref": lambda ex, a, kw: Sym("val", adapt(a[0].t, ex.box(a[1])), "DRef"), "adapt_dataset_type": lambda ex, a, kw: Sym("val", adapt_type(a[0].t, ex.box(a[1])), "DType")})
    edge_of = z3.Function("edge_of_connection", V, V, V)
    ca.classes["InitNode"] = ClassInfo({"inputs": "map[Label,Edge]", "outputs": "map[Label,Edge]", "config_output": "Edge"})
    ca.classes["TaskNode"] = ClassInfo({"init": "InitNode", "dimensions": "Dims"}, (), {"get_edge": lambda ex, a, kw: (ex.assume(edge_of(a[0].t, ex.box(a[1])) != V.none), Sym("val", edge_of(a[0].t, ex.box(a[1])), "Edge"))[1]})
    ca.classes["DTNode"] = ClassInfo({"name": "Label", "dimensions": "Dims", "dataset_type": "DType"})
    ca.classes["PG"] = ClassInfo({"tasks": "map[Label,TaskNode]", "dataset_types": "map[Label,DTNode]", "universe": "Universe", "packages_dataset_type": "DType"})
    ca.constructors["DatasetRef"] = lambda ex, a, kw: Sym("val", ref_of(ex.box(a[0]), ex.box(a[1]), ex.box(kw["run"]), ex.box(kw["id"])), "DRef")
    ca.stubs["DatasetRef"] = ca.constructors["DatasetRef"]
    ca.stubs["DataCoordinate.make_empty"] = lambda ex, a, kw: Sym("val", empty_id(ex.box(a[0])), "DataId")
    ca.stubs["lsst.daf.butler.DataCoordinate.make_empty"] = ca.stubs["DataCoordinate.make_empty"]
    A = lambda cls, at, t, srt=V: z3.Function(f"attr!{cls}.{at}.0", V, srt)(t)

    def graph(ex, **more):
        pg = fval(ex, "pipeline_graph", "PG")
        ex.assume(pg.t != V.none)
        ts, ds = ex.cell(ex.getattr(pg, "tasks")), ex.cell(ex.getattr(pg, "dataset_types"))
        for c in (ts, ds):
            ex.assume(All(x, Implies(Sel(c.dom, x), Sel(c.vals[0], x) != V.none), [Sel(c.vals[0], x)]))
        g = fobj(ex, FILE, "PredictedQuantumGraph", dict(pipeline_graph=pg, _pipeline_graph=pg, **more))
        return g, pg, ts, ds
    init_ref = lambda ds, pg, d: ref_of(A("DTNode", "dataset_type", Sel(ds.vals[0], A("DM", "dataset_type_name", d))), empty_id(A("PG", "universe", pg)), A("DM", "run", d), DID(d))

    def s_mi(ex):
        g, pg, ts, ds = graph(ex)
        d = fval(ex, "dataset", "DM")
        ex.assume(And(d.t != V.none, Sel(ds.dom, A("DM", "dataset_type_name", d.t))))
        return dict(self=g, args=[d], want=init_ref(ds, pg.t, d.t))

    def p_mi(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        return [("the dataset with its type, id and run", ex.box(p.value) == st["want"])]
    G = "PredictedQuantumGraph."
    vc.function(ca, FILE, G + "_make_init_ref", s_mi, p_mi)

    def s_in(ex, which):
        iq = fmap(ex, "init_quanta", "Label", "QDM")
        g, pg, ts, ds = graph(ex, _init_quanta=iq)
        l = fval(ex, "label", "Label")
        ex.assume(And(l.t != V.none, l.t != str_const(""), Sel(ts.dom, l.t), Sel(ex.cell(iq).dom, l.t)))
        node = ex.getattr(Sym("val", Sel(ts.vals[0], l.t), "TaskNode"), "init")
        q = Sym("val", Sel(ex.cell(iq).vals[0], l.t), "QDM")
        ex.assume(And(node.t != V.none, q.t != V.none))
        m = ex.cell(ex.getattr(q, which))
        n, at = (m.vals[0], m.vals[1]) if m.vals[0].range() == INT else (m.vals[1], m.vals[0])
        first = lambda c: Sel(Sel(at, c), z3.IntVal(0))
        e = ex.cell(ex.getattr(node, which))
        cfg = str_const(get_module("automatic_connection_constants.py").consts["CONFIG_INIT_OUTPUT_CONNECTION_NAME"].value) if which == "outputs" else None
        edge = lambda c: If(c == cfg, A("InitNode", "config_output", node.t), Sel(e.vals[0], c)) if cfg is not None else Sel(e.vals[0], c)
        ex.assume(All(c_, Implies(Sel(m.dom, c_), And(Sel(n, c_) > 0, first(c_) != V.none, Sel(ds.dom, A("DM", "dataset_type_name", first(c_))), Or(Sel(e.dom, c_), c_ == cfg) if cfg is not None else Sel(e.dom, c_), edge(c_) != V.none)), [Sel(m.dom, c_)]))
        return dict(self=g, args=[l], m=m, want=lambda c: adapt(edge(c), init_ref(ds, pg.t, first(c))))

    def p_in(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        r, m = ex.cell(p.value), st["m"]
        return [("exactly the connections of the task", All(c_, Sel(r.dom, c_) == Sel(m.dom, c_))), ("each with its dataset", All(c_, Implies(Sel(r.dom, c_), Sel(r.vals[0], c_) == st["want"](c_))))]
    vc.function(ca, FILE, G + "get_init_inputs", lambda ex: s_in(ex, "inputs"), p_in)
    vc.function(ca, FILE, G + "get_init_outputs", lambda ex: s_in(ex, "outputs"), p_in)

    # ---- datasets of a quantum that is to be executed
    ca.classes["NodeState"] = ClassInfo({}, (), {"__getitem__": lambda ex, a, kw: Sym("val", z3.Function("node_" + a[1].v, V, V)(a[0].t), {"data_id": "DataId", "run": "Label"}[a[1].v])})
    ca.classes["XG"] = ClassInfo({"nodes": "map[Id,NodeState]"})
    nd = lambda n, t: z3.Function("node_" + n, V, V)(t)

    def s_gr(ex):
        xg, exp = fval(ex, "bipartite", "XG"), fmap(ex, "expanded", "DataId", "DataId")
        g, pg, ts, ds = graph(ex, _bipartite_xgraph=xg, _expanded_data_ids=exp)
        ty, i = fval(ex, "dataset_type", "DType"), fval(ex, "dataset_id", "Id")
        ns = ex.cell(ex.getattr(xg, "nodes"))
        st = Sel(ns.vals[0], i.t)
        ex.assume(And(xg.t != V.none, Sel(ns.dom, i.t), st != V.none, Sel(ex.cell(exp).dom, nd("data_id", st))))
        return dict(self=g, args=[ty, i], want=ref_of(ty.t, Sel(ex.cell(exp).vals[0], nd("data_id", st)), nd("run", st), i.t))
    vc.function(ca, FILE, G + "_make_general_ref", s_gr, p_mi)

    cb = make_ctx()
    cb.classes.update({k: ca.classes[k] for k in ("Edge", "TaskNode", "DTNode", "PG", "InitNode")})
    gref = z3.Function("general_ref", V, V, V)
    cb.contracts[G + "_make_general_ref"] = lambda ex, a, kw: Sym("val", gref(ex.box(a[1]), ex.box(a[2])), "DRef")

    def s_br(ex):
        g, pg, ts, ds = graph(ex)
        t = fval(ex, "task_node", "TaskNode")
        m = fmap(ex, "models", "Label", "seq[DM]")
        mc = ex.cell(m)
        n, at = (mc.vals[0], mc.vals[1]) if mc.vals[0].range() == INT else (mc.vals[1], mc.vals[0])
        ex.assume(t.t != V.none)
        e = lambda c: edge_of(t.t, c)
        ty = lambda c: adapt_type(e(c), A("DTNode", "dataset_type", Sel(ds.vals[0], A("Edge", "parent_dataset_type_name", e(c)))))
        ex.assume(All(c_, Implies(Sel(mc.dom, c_), And(Sel(n, c_) >= 0, Sel(ds.dom, A("Edge", "parent_dataset_type_name", e(c_))))), [Sel(mc.dom, c_)]))
        ex.assume(All([c_, j], Implies(And(Sel(mc.dom, c_), 0 <= j, j < Sel(n, c_)), Sel(Sel(at, c_), j) != V.none), [Sel(Sel(at, c_), j)]))
        conn = z3.Function("connection_of_type", V, V)
        ex.assume(All(c_, Implies(Sel(mc.dom, c_), conn(ty(c_)) == c_), [Sel(mc.dom, c_)]))      # one connection per dataset type

        def hook(ex2, fr, dom, D_, cnt):
            r = ex2.cell(fr["results"])
            if r.kind == "dict":
                r = ex2.symbolize(r, ("map", D("DType"), D("seq[DRef]")))
            rn, rat = (r.vals[0], r.vals[1]) if r.vals[0].range() == INT else (r.vals[1], r.vals[0])
            return [("lengths", All(c_, Implies(D_(c_), And(Sel(r.dom, ty(c_)), Sel(rn, ty(c_)) == Sel(n, c_))), [Sel(mc.dom, c_)])),
                    ("refs", All([c_, j], Implies(And(D_(c_), 0 <= j, j < Sel(n, c_)), Sel(Sel(rat, ty(c_)), j) == gref(ty(c_), DID(Sel(Sel(at, c_), j)))), [Sel(Sel(at, c_), j)]))]
        cb.loop_hooks["_build_execution_quantum_refs:for"] = hook
        cb.loop_skip["_build_execution_quantum_refs:for"] = ("fact", "origin-val", "effect0")
        return dict(self=g, args=[t, m], mc=mc, n=n, at=at, ty=ty)

    def p_br(ex, st, p):
        if p.kind == "raise":
            return [("no failure", False)]
        r = ex.cell(p.value)
        rn, rat = (r.vals[0], r.vals[1]) if r.vals[0].range() == INT else (r.vals[1], r.vals[0])
        mc, n, at, ty = st["mc"], st["n"], st["at"], st["ty"]
        return [("the datasets of every connection, in order", All([c_, j], Implies(Sel(mc.dom, c_), And(Sel(r.dom, ty(c_)), Sel(rn, ty(c_)) == Sel(n, c_), Implies(And(0 <= j, j < Sel(n, c_)), Sel(Sel(rat, ty(c_)), j) == gref(ty(c_), DID(Sel(Sel(at, c_), j)))))))),
                ("nothing else", All(x, Implies(Sel(r.dom, x), Any(c_, And(Sel(mc.dom, c_), ty(c_) == x)))))]
    vc.function(cb, FILE, G + "_build_execution_quantum_refs", s_br, p_br)
