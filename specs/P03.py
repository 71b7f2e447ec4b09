"""P03: multi-block files: whatever is written is read back."""
from pyvc.spec import *
from pyvc import bytesmodel as bm
from pyvc.bytesmodel import sub, blen, tob, frob, pow256

FILE = "quantum_graph/_multiblock.py"


def make_ctx():
    ctx = Ctx()
    bm.install(ctx)

    def mk_addr(ex, a, kw):
        a = list(a)
        o = a.pop(0) if a else kw.get("offset", Const(0))
        s = a.pop(0) if a else kw.get("size", Const(0))
        o, s = ex.as_int(o), ex.as_int(s)
        t = z3.Function("mk_address", INT, INT, V)(o, s)
        ex.assume(And(aoff(t) == o, asize(t) == s))
        return Sym("val", t, "Address")
    ctx.constructors["Address"] = mk_addr
    ctx.classes["Address"] = ClassInfo({"offset": "int", "size": "int"})
    return ctx


aoff = z3.Function("attr!Address.offset.0", V, INT)
asize = z3.Function("attr!Address.size.0", V, INT)


def block(c, addr, data, k):
    """Block 'data' lives at address addr of content c."""
    return And(aoff(addr) >= 0, asize(addr) == blen(data) + k, aoff(addr) + asize(addr) <= blen(c), blen(data) < pow256(k),
               sub(c, aoff(addr), k) == tob(blen(data), k), sub(c, aoff(addr) + k, blen(data)) == data)


def verify(vc):
    ctx = make_ctx()
    vc.assume_note(*bm.NOTE)
    i = q1("id!q")
    payload = z3.Const("payload", z3.ArraySort(V, V))

    def inv(ex, w, pay, k):
        f = ex.heap[w.addr].fields
        c = ex.heap[f["stream"].addr].fields["content"].t
        m = ex.cell(f["addresses"])
        fs = ex.as_int(f["file_size"])
        return [("running size equals bytes written", fs == blen(c)),
                ("stream positioned at the end", ex.as_int(ex.heap[f["stream"].addr].fields["pos"]) == blen(c)),
                ("every recorded block is intact at its address", All(i, Implies(Sel(m.dom, i), block(c, Sel(m.vals[0], i), Sel(pay, i), k)), [Sel(m.dom, i)])),
                ]

    def disjoint(ex, w, k):
        f = ex.heap[w.addr].fields
        m = ex.cell(f["addresses"])
        j = q1("jd!q")
        a, b = Sel(m.vals[0], i), Sel(m.vals[0], j)
        return ("blocks do not overlap", All([i, j], Implies(And(Sel(m.dom, i), Sel(m.dom, j), i != j), Or(aoff(a) + asize(a) <= aoff(b), aoff(b) + asize(b) <= aoff(a)))))

    def setup(ex):
        for a in bm.axioms():
            ex.assume(a)
        k = ex.fresh("int_size", INT)
        ex.assume(k > 0)
        s = bm.stream(ex)
        m = fmap(ex, "addresses", "UUID", "Address")
        fs = fval(ex, "file_size", "int")
        w = fobj(ex, FILE, "MultiblockWriter", dict(stream=s, int_size=Sym("int", k), file_size=fs, addresses=m))
        for _, g in inv(ex, w, payload, k):
            ex.assume(g)
        ex.assume(disjoint(ex, w, k)[1])
        return dict(self=w, args=[fval(ex, "id", "UUID"), fval(ex, "data", "bytes")], k=k)

    def post(ex, st, p):
        w, k = st["self"], st["k"]
        id_, data = (a.t for a in st["args"])
        f = ex.heap[w.addr].fields
        of = st["old"].heap[w.addr].fields
        om = st["old"].heap[of["addresses"].addr]
        oc = st["old"].heap[of["stream"].addr].fields["content"].t
        c = ex.heap[f["stream"].addr].fields["content"].t
        m = ex.cell(f["addresses"])
        if p.kind == "raise":
            return [("rejected only for duplicate ids or oversized blocks", Or(And(p.value.cls == "AssertionError", Sel(om.dom, id_)), And(p.value.cls == "OverflowError", blen(data) >= pow256(k)))),
                    ("nothing recorded on rejection", And(m.dom == om.dom, m.vals[0] == om.vals[0])), ("nothing written on rejection", c == oc)]
        return inv(ex, w, z3.Store(payload, id_, data), k) + [
            disjoint(ex, w, k),
            ("duplicate ids are refused", Not(Sel(om.dom, id_))),
            ("exactly one block recorded", All(i, Sel(m.dom, i) == Or(Sel(om.dom, i), i == id_))),
            ("other addresses unchanged", All(i, Implies(And(Sel(om.dom, i), i != id_), Sel(m.vals[0], i) == Sel(om.vals[0], i)))),
            ("returned address is the recorded one", ex.box(p.value) == Sel(m.vals[0], id_)),
            ("size is never zero (zero marks absence)", asize(ex.box(p.value)) > 0)]
    vc.function(ctx, FILE, "MultiblockWriter.write_bytes", setup, post, min_paths=2)

    # reading a well-formed block back
    def setup_r(ex):
        for a in bm.axioms():
            ex.assume(a)
        k = ex.fresh("int_size", INT)
        ex.assume(k > 0)
        s = bm.stream(ex, at_end=False)
        addr = fval(ex, "address", "Address")
        data = ex.fresh("data", V)
        c = ex.heap[s.addr].fields["content"].t
        ex.assume(Or(asize(addr.t) == 0, block(c, addr.t, data, k)))
        ex.assume(asize(addr.t) >= 0)
        r = fobj(ex, FILE, "MultiblockReader", dict(stream=s, int_size=Sym("int", k)))
        return dict(self=r, args=[addr], data=data, addr=addr.t, c=c, s=s)

    def post_r(ex, st, p):
        if p.kind == "raise":
            return [("a well-formed block is always readable", False)]
        return [("reads back exactly the bytes written, or None for an absent block", ex.box(p.value) == If(asize(st["addr"]) == 0, V.none, st["data"])),
                ("file content untouched", ex.heap[st["s"].addr].fields["content"].t == st["c"])]
    vc.function(ctx, FILE, "MultiblockReader.read_bytes", setup_r, post_r, name="read_bytes(well-formed)", min_paths=2)

    # reading a corrupted / truncated block
    def setup_c(ex):
        for a in bm.axioms():
            ex.assume(a)
        k = ex.fresh("int_size", INT)
        ex.assume(k > 0)
        s = bm.stream(ex, at_end=False)
        addr = fval(ex, "address", "Address")
        c = ex.heap[s.addr].fields["content"].t
        ex.assume(And(aoff(addr.t) >= 0, asize(addr.t) > k, aoff(addr.t) + asize(addr.t) <= blen(c)))
        ex.assume(frob(sub(c, aoff(addr.t), k)) != asize(addr.t) - k)
        r = fobj(ex, FILE, "MultiblockReader", dict(stream=s, int_size=Sym("int", k)))
        return dict(self=r, args=[addr])

    def post_c(ex, st, p):
        return [("a block whose recorded length disagrees is rejected, never returned", And(p.kind == "raise", p.kind == "raise" and p.value.cls == "InvalidQuantumGraphFileError"))]
    vc.function(ctx, FILE, "MultiblockReader.read_bytes", setup_c, post_c, name="read_bytes(inconsistent length)")

    # sequential reading: the generator yields every payload in file order
    pays = z3.Const("pays", z3.ArraySort(INT, V))
    offs = z3.Const("offs", z3.ArraySort(INT, INT))
    nb = z3.Int("nblocks")
    j = z3.Int("j!q")

    def setup_s(ex):
        for a in bm.axioms():
            ex.assume(a)
        k = ex.fresh("int_size", INT)
        ex.assume(k > 0)
        c = ex.fresh("content", V)
        s = ex.alloc(ObjC(ClassVal("Stream"), {"content": Sym("val", c, "bytes"), "pos": Sym("int", z3.IntVal(0))}))
        ex.assume(And(nb >= 0, Sel(offs, 0) == 0, Sel(offs, nb) == blen(c)))
        ex.assume(All(j, Implies(And(0 <= j, j < nb), And(
            Sel(offs, j) >= 0, Sel(offs, j + 1) == Sel(offs, j) + k + blen(Sel(pays, j)), Sel(offs, j + 1) <= blen(c), blen(Sel(pays, j)) < pow256(k),
            sub(c, Sel(offs, j), k) == tob(blen(Sel(pays, j)), k), sub(c, Sel(offs, j) + k, blen(Sel(pays, j))) == Sel(pays, j))), [Sel(offs, j)]))

        def opener(ex2, a, kw):
            return E.ContextManager(lambda e: s)
        ctx.classes["ZipFile"] = ClassInfo({}, (), {"open": opener})
        ctx.default_list_desc = ("val", "bytes")
        zf = Sym("val", ex.fresh("zf", V), "ZipFile")
        cls = ClassVal("MultiblockReader", get_module(FILE), get_module(FILE).classes["MultiblockReader"])

        def winv(ex2, fr, mode):
            y = ex2.cell(fr["__yields__"])
            if y.kind == "list":
                y = ex2.symbolize(y, ("seq", ("val", "bytes")))
            pos = ex2.as_int(ex2.heap[s.addr].fields["pos"])
            n = y.n
            sd = [v for kk, v in fr.items() if isinstance(v, Sym) and v.ty == "bytes"]
            out = [("count", And(n >= 0, n <= nb)), ("yielded", All(j, Implies(And(0 <= j, j < n), Sel(y.ats[0], j) == Sel(pays, j))))]
            size_data = fr["size_data"].t
            out.append(("lookahead", If(n < nb, And(pos == Sel(offs, n) + k, blen(size_data) == k, size_data == sub(c, Sel(offs, n), k)), And(pos == blen(c), blen(size_data) == 0))))
            return out
        ctx.while_invs["read_all_bytes_in_zip"] = winv
        return dict(self=cls, args=[zf, Const("x")], kw={"int_size": Sym("int", k), "page_size": fval(ex, "page", "int")})

    def post_s(ex, st, p):
        if p.kind == "raise":
            return [("a complete file is always readable", False)]
        y = ex.cell(p.value)
        if y.kind == "list":
            y = ex.symbolize(y, ("seq", ("val", "bytes")))
        return [("sequential reading yields every block, in order, unchanged", And(y.n == nb, All(j, Implies(And(0 <= j, j < nb), Sel(y.ats[0], j) == Sel(pays, j)))))]
    vc.function(ctx, FILE, "MultiblockReader.read_all_bytes_in_zip", setup_s, post_s)
