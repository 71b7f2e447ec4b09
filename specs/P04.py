"""P04: address tables: writing, paging and searching."""
from pyvc.spec import *
from pyvc import bytesmodel as bm
from pyvc.bytesmodel import sub, blen, tob, frob, pow256, uint, ubytes, mkuuid, MAXU
from specs import P03
from specs.P03 import aoff, asize

FILE = "quantum_graph/_multiblock.py"

rkey = z3.Function("attr!AddressRow.key.0", V, V)
ridx = z3.Function("attr!AddressRow.index.0", V, INT)
# the table stored in the file: N rows in increasing order of id
N = z3.Int("N_rows")
tkey = z3.Function("tbl_key", INT, V)
trow = z3.Function("tbl_row", INT, V)
roff = z3.Function("tbl_offset", INT, INT)
pg = z3.Function("page_of_row", INT, INT)
idxof = z3.Function("row_of_key", V, INT)
a, b, j, p, q = z3.Ints("a!q b!q j!q p!q q!q")
u = q1("u!q")


def make_ctx():
    ctx = P03.make_ctx()
    ctx.classes["AddressRow"] = ClassInfo({"key": "UUID", "index": "int"})
    ctx.classes["AddressPage"] = ClassInfo({"file_offset": "int", "begin": "int", "n_rows": "int", "read": "bool"}, "all")
    ctx.classes["PageBounds"] = ClassInfo({"page_index": "int", "uuid_int_begin": "int", "uuid_int_end": "int"}, "all")
    return ctx


def table():
    """The file holds rows 0..N-1 in strictly increasing id order (AddressWriter.write's postcondition)."""
    return [N >= 0, All([a, b], Implies(And(0 <= a, a < b, b < N), uint(tkey(a)) < uint(tkey(b))), [z3.MultiPattern(tkey(a), tkey(b))]),
            All(j, Implies(And(0 <= j, j < N), And(idxof(tkey(j)) == j, rkey(trow(j)) == tkey(j), ridx(trow(j)) == j)), [tkey(j)]),
            All(j, Implies(And(0 <= j, j < N), And(idxof(tkey(j)) == j, rkey(trow(j)) == tkey(j), ridx(trow(j)) == j)), [trow(j)])]


class R:
    """View of a reader's state."""

    def __init__(self, ex, w):
        f = ex.heap[w.addr].fields
        self.pages = ex.cell(f["pages"])
        self.P = self.pages.n
        self.page = lambda i: Sel(self.pages.ats[0], i)
        fld = lambda n, i, ty="int": Sel(ex.field_arrays("AddressPage", n, (ty,))[0][0], self.page(i))
        self.begin = lambda i: fld("begin", i)
        self.n = lambda i: fld("n_rows", i)
        self.foff = lambda i: fld("file_offset", i)
        self.read = lambda i: fld("read", i, "bool")
        self.rows = ex.cell(f["rows"])
        self.bounds = ex.cell(f["page_bounds"])
        bf = lambda n, i: Sel(ex.field_arrays("PageBounds", n, ("int",))[0][0], Sel(self.bounds.vals[0], V.vint(i)))
        self.lo = lambda i: bf("uuid_int_begin", i)
        self.hi = lambda i: bf("uuid_int_end", i)


def paging(r):
    """Pages partition the rows (from_stream's postcondition; the page list may also have been dropped by read_all)."""
    return [("page count", And(r.P >= 0)),
            ("pages are ordered and do not overlap", All([p, q], Implies(And(0 <= p, p < q, q < r.P), r.begin(p) + r.n(p) <= r.begin(q)), [z3.MultiPattern(r.page(p), r.page(q))])),
            ("pages are distinct", All([p, q], Implies(And(0 <= p, p < q, q < r.P), r.page(p) != r.page(q)), [z3.MultiPattern(r.page(p), r.page(q))])),
            ("pages are non-empty and inside the table", All(p, Implies(And(0 <= p, p < r.P), And(r.begin(p) >= 0, r.n(p) >= 1, r.begin(p) + r.n(p) <= N, r.foff(p) == roff(r.begin(p)))), [r.page(p)])),
            ("every row is on a page", Implies(r.P > 0, All(j, Implies(And(0 <= j, j < N), And(0 <= pg(j), pg(j) < r.P, r.begin(pg(j)) <= j, j < r.begin(pg(j)) + r.n(pg(j)))), [pg(j)])))]


def rows_ok(r):
    return [("only rows of the file are cached", All(u, Implies(Sel(r.rows.dom, u), And(0 <= idxof(u), idxof(u) < N, tkey(idxof(u)) == u, Sel(r.rows.vals[0], u) == trow(idxof(u)))), [Sel(r.rows.dom, u)])),
            ("a page marked read is completely cached", All([p, j], Implies(And(0 <= p, p < r.P, r.read(p), r.begin(p) <= j, j < r.begin(p) + r.n(p)), Sel(r.rows.dom, tkey(j))), [z3.MultiPattern(r.page(p), tkey(j))])),
            ("a page marked read has its bounds", All(p, Implies(And(0 <= p, p < r.P, r.read(p)), And(
                Sel(r.bounds.dom, V.vint(p)), r.lo(p) == uint(tkey(r.begin(p))), r.hi(p) == uint(tkey(r.begin(p) + r.n(p) - 1)) + 1)), [r.page(p)])),
            ("without pages everything is cached", Implies(r.P == 0, All(j, Implies(And(0 <= j, j < N), Sel(r.rows.dom, tkey(j))), [tkey(j)])))]


def reader(ex, with_stream=True):
    for x in bm.axioms():
        ex.assume(x)
    k = ex.fresh("int_size", INT)
    na = ex.fresh("n_addresses", INT)
    ex.assume(And(k > 0, na >= 0))
    s = bm.stream(ex, at_end=False)
    w = fobj(ex, FILE, "AddressReader", dict(stream=s, int_size=Sym("int", k), n_rows=Sym("int", N), n_addresses=Sym("int", na), rows_per_page=fval(ex, "rpp", "int"),
                                             rows=fmap(ex, "rows", "UUID", "AddressRow"), pages=fseq(ex, "pages", "AddressPage"),
                                             page_bounds=fmap(ex, "bounds", "int", "PageBounds")))
    r = R(ex, w)
    for x in table():
        ex.assume(x)
    for _, x in paging(r) + rows_ok(r):
        ex.assume(x)
    x = q1("x!q")
    ex.assume(All(x, Implies(Sel(r.rows.dom, x), Sel(r.rows.vals[0], x) != V.none), [Sel(r.rows.vals[0], x)]))
    ex.assume(All(j, trow(j) != V.none, [trow(j)]))
    return w, s, k, na


def havoc_reader(ex, w):
    """Everything _read_page may assign: cached rows, page bounds, page read flags, stream position."""
    f = ex.heap[w.addr].fields
    for nm, k, v in (("rows", "UUID", "AddressRow"), ("page_bounds", "int", "PageBounds")):
        t = fmap(ex, nm, k, v)
        ex.set_cell(f[nm], ex.cell(t))
        del ex.heap[t.addr]
    ex.setattr(f["stream"], "pos", Sym("int", ex.fresh("pos", INT)))
    for ty, at, d in (("AddressPage", "read", ("bool",)), ("PageBounds", "uuid_int_begin", ("int",)), ("PageBounds", "uuid_int_end", ("int",)), ("PageBounds", "page_index", ("int",))):
        ex.fields[(ty, at)] = ([ex.fresh(f"{ty}.{at}", z3.ArraySort(V, comps(d)[0]))], d)


def read_page_contract(ex, args, kw):
    w, i = args[0], ex.as_int(args[1])
    r0 = R(ex, w)
    if not ex.branch(And(0 <= i, i < r0.P)):
        ex.raise_("IndexError")
    havoc_reader(ex, w)
    r = R(ex, w)
    for _, x in rows_ok(r):
        ex.assume(x)
    ex.assume(r.read(i))
    ex.assume(Sel(r.bounds.dom, V.vint(i)))
    ex.assume(And(r.begin(i) >= 0, r.n(i) >= 1, r.begin(i) + r.n(i) <= N))
    ex.assume(All(p, Implies(And(0 <= p, p < r0.P, r0.read(p)), r.read(p)), [r.page(p)]))
    ex.assume(All(u, Implies(Sel(r0.rows.dom, u), Sel(r.rows.dom, u)), [Sel(r.rows.dom, u)]))
    ex.assume(All(u, Implies(Sel(r.rows.dom, u), Sel(r.rows.vals[0], u) != V.none), [Sel(r.rows.vals[0], u)]))
    return Sym("bool", ex.fresh("was_read", BOOL))


def verify(vc):
    vc.assume_note(*bm.NOTE)
    vc.assume_note("AddressReader.from_stream's internal 'Bad logic' assertion is not proved unreachable (checked by the bounded run)")

    # ------------------------------------------------------------------ search
    ctx = make_ctx()
    ctx.contracts["AddressReader._read_page"] = read_page_contract

    def setup_find(ex):
        w, s, k, na = reader(ex)
        key = fval(ex, "key", "UUID")
        ex.assume(uint(key.t) >= 0)

        def winv(ex2, fr, mode):
            r = R(ex2, w)
            left, right = ex2.as_int(fr["left"]), ex2.as_int(fr["right"])
            x = q1("x!q")
            return paging(r) + rows_ok(r) + [("range", And(left >= 0, right < r.P)),
                                             ("key not cached yet", Not(Sel(r.rows.dom, key.t))), ("pages exist", r.P > 0),
                                             ("cached rows are rows", All(x, Implies(Sel(r.rows.dom, x), Sel(r.rows.vals[0], x) != V.none), [Sel(r.rows.vals[0], x)])),
                                             ("target inside the window", All(j, Implies(And(0 <= j, j < N, tkey(j) == key.t), And(left <= pg(j), pg(j) <= right)), [tkey(j)]))]
        ctx.while_invs["find"] = winv
        return dict(self=w, args=[key], key=key.t)

    def post_find(ex, st, path):
        key, r = st["key"], R(ex, st["self"])
        present = And(0 <= idxof(key), idxof(key) < N, tkey(idxof(key)) == key)
        if path.kind == "raise":
            return [("lookup fails only for ids that were never written", And(path.value.cls == "LookupError", Not(Any(j, And(0 <= j, j < N, tkey(j) == key)))))]
        return [("the row found is the row written for that id", And(present, ex.box(path.value) == trow(idxof(key))))] + rows_ok(r)
    vc.function(ctx, FILE, "AddressReader.find", setup_find, post_find, min_paths=3)

    # ------------------------------------------------------------------ reading one page
    h_, rs_, x_, y_ = z3.Ints("hs rs x y")
    vc.lemma("row offsets: consecutive rows are adjacent", [], h_ + (x_ + 1) * rs_ == h_ + x_ * rs_ + rs_)
    vc.lemma("row offsets: earlier rows end before later ones", [rs_ > 0, x_ < y_], h_ + x_ * rs_ + rs_ <= h_ + y_ * rs_)
    vc.lemma("row offsets: n rows span n row sizes", [], h_ + (x_ + y_) * rs_ == h_ + x_ * rs_ + y_ * rs_)
    ctx2 = make_ctx()
    rowidx = z3.Function("row_at", V, INT, INT)     # index of the row whose bytes lie at an offset of some content

    def read_row_contract(ex, args, kw):
        """AddressRow.read: at a position holding row j, return row j and advance by one row."""
        s, na, k = args[-3], ex.as_int(args[-2]), ex.as_int(args[-1])
        f = ex.heap[s.addr].fields
        t = trow(rowidx(f["content"].t, f["pos"].t))
        ex.assume(t != V.none)
        ex.setattr(s, "pos", Sym("int", f["pos"].t + 16 + k * (1 + 2 * na)))
        return Sym("val", t, "AddressRow")
    ctx2.contracts["AddressRow.read"] = read_row_contract

    def setup_page(ex):
        w, s, k, na = reader(ex)
        i = fval(ex, "page_index", "int")
        r = R(ex, w)
        c = ex.heap[s.addr].fields["content"].t
        rs = 16 + k * (1 + 2 * na)
        ex.assume(And(0 <= i.t, i.t < r.P))
        ex.assume(And(r.begin(i.t) >= 0, r.n(i.t) >= 1, r.begin(i.t) + r.n(i.t) <= N, r.foff(i.t) == roff(r.begin(i.t)), r.foff(i.t) >= 0))
        # file layout (AddressWriter.write's postcondition): row j at roff(j), rows contiguous
        ex.assume(r.n(i.t) * rs >= 0)
        ex.assume(And(roff(r.begin(i.t)) >= 0, roff(r.begin(i.t)) + r.n(i.t) * rs <= blen(c)))
        ex.assume(All(j, roff(j + 1) == roff(j) + rs, [roff(j)]))
        end = r.begin(i.t) + r.n(i.t)
        ex.assume(And(roff(end) == roff(r.begin(i.t)) + r.n(i.t) * rs))       # both by 'row offsets' lemmas
        ex.assume(All(j, Implies(And(r.begin(i.t) <= j, j < end), And(roff(r.begin(i.t)) <= roff(j), roff(j) + rs <= roff(end))), [roff(j)]))
        ex.assume(All([a, b, q, j], Implies(And(0 <= j, j < N, 0 <= a, 0 <= b, q == roff(j) - a, 0 <= q, q + rs <= b), rowidx(sub(c, a, b), q) == j), [z3.MultiPattern(rowidx(sub(c, a, b), q), roff(j))]))

        def hook(ex2, fr, dom, D_, cnt):
            r2 = R(ex2, w)
            ps = fr["page_stream"]
            f = ex2.heap[ps.addr].fields
            beg = r.begin(i.t)
            row = ex2.box(fr["row"])
            return [("position", f["pos"].t == roff(beg + 1 + cnt) - roff(beg)),
                    ("rows so far cached", All(j, Implies(And(beg <= j, j <= beg + cnt), Sel(r2.rows.dom, tkey(j))), [tkey(j)])),
                    ("cached only file rows", rows_ok(r2)[0][1]),
                    ("cached keeps", All(u, Implies(Sel(r.rows.dom, u), Sel(r2.rows.dom, u)), [Sel(r2.rows.dom, u)])),
                    ("last row", And(row == trow(beg + cnt), roff(beg + 1 + cnt) == roff(beg + cnt) + rs))]
        ctx2.loop_hooks["_read_page:for"] = hook
        return dict(self=w, args=[i], i=i.t)

    def post_page(ex, st, path):
        r = R(ex, st["self"])
        i = st["i"]
        if path.kind == "raise":
            return [("a page of the file can always be read", False)]
        o0 = st["old"]
        dom0 = o0.heap[o0.heap[st["self"].addr].fields["rows"].addr].dom
        return rows_ok(r) + paging(r) + [("the page is read", r.read(i)), ("its bounds are recorded", Sel(r.bounds.dom, V.vint(i))),
                              ("no cached row is dropped", All(u, Implies(Sel(dom0, u), Sel(r.rows.dom, u))))]
    vc.function(ctx2, FILE, "AddressReader._read_page", setup_page, post_page, min_paths=2)

    # ------------------------------------------------------------------ one row: bytes <-> fields
    ao = z3.Function("addr_offset", INT, INT)       # position of the j-th address of the row

    def aos(k, base, n):
        return [ao(0) == base + 16 + k, All(j, ao(j + 1) == ao(j) + 2 * k, [ao(j)]), All(j, Implies(And(0 <= j, j < n), And(ao(j) >= base + 16 + k, ao(j) + 2 * k <= ao(n))), [ao(j)]),
                ao(n) == base + 16 + k * (1 + 2 * n)]
    k_, n_ = z3.Ints("k n")
    vc.lemma("address offsets: closed form", [], x_ + 16 + k_ * (1 + 2 * n_) == x_ + 16 + k_ + n_ * (2 * k_))
    ctx3 = P03.make_ctx()

    def setup_rr(ex):
        for x in bm.axioms():
            ex.assume(x)
        k, na = ex.fresh("int_size", INT), ex.fresh("n_addresses", INT)
        ex.assume(And(k > 0, na >= 0))
        s = bm.stream(ex, at_end=False)
        f = ex.heap[s.addr].fields
        c, pos = f["content"].t, f["pos"].t
        for x in aos(k, pos, na):
            ex.assume(x)
        ex.assume(And(pos >= 0, ao(na) <= blen(c), ao(na) >= pos + 16 + k))
        cls = ClassVal("AddressRow", get_module(FILE), get_module(FILE).classes["AddressRow"])

        def hook(ex2, fr, dom, D_, cnt):
            ad = ex2.cell(ex2.heap[fr["row"].addr].fields["addresses"])
            if ad.kind == "list":
                ad = ex2.symbolize(ad, ("seq", ("val", "Address")))
            return [("position", And(ex2.as_int(ex2.heap[s.addr].fields["pos"]) == ao(cnt), ao(cnt + 1) == ao(cnt) + 2 * k)), ("count", ad.n == cnt),
                    ("addresses", All(j, Implies(And(0 <= j, j < cnt), And(aoff(Sel(ad.ats[0], j)) == frob(sub(c, ao(j), k)), asize(Sel(ad.ats[0], j)) == frob(sub(c, ao(j) + k, k)))), [ao(j)]))]
        ctx3.loop_hooks["read:for"] = hook
        ctx3.default_list_desc = ("val", "Address")
        return dict(self=cls, args=[s, Sym("int", na), Sym("int", k)], c=c, pos=pos, k=k, na=na, s=s)

    def post_rr(ex, st, path):
        if path.kind == "raise":
            return [("a complete row is always readable", False)]
        c, pos, k, na = st["c"], st["pos"], st["k"], st["na"]
        f = ex.heap[path.value.addr].fields
        ad = ex.cell(f["addresses"])
        if ad.kind == "list":
            ad = ex.symbolize(ad, ("seq", ("val", "Address")))
        return [("id", uint(ex.box(f["key"])) == frob(sub(c, pos, 16))), ("index", ex.as_int(f["index"]) == frob(sub(c, pos + 16, k))), ("one address per column", ad.n == na),
                ("addresses", All(j, Implies(And(0 <= j, j < na), And(aoff(Sel(ad.ats[0], j)) == frob(sub(c, ao(j), k)), asize(Sel(ad.ats[0], j)) == frob(sub(c, ao(j) + k, k)))))),
                ("advances by exactly one row", ex.as_int(ex.heap[st["s"].addr].fields["pos"]) == pos + 16 + k * (1 + 2 * na))]
    vc.function(ctx3, FILE, "AddressRow.read", setup_rr, post_rr)

    ctx4 = P03.make_ctx()

    def setup_rw(ex):
        for x in bm.axioms():
            ex.assume(x)
        k = ex.fresh("int_size", INT)
        ex.assume(k > 0)
        s = bm.appender(ex)
        c = ex.heap[s.addr].fields["content"].t
        L = blen(c)
        ad = fseq(ex, "addresses", "Address")
        adc = ex.cell(ad)
        for x in aos(k, L, adc.n):
            ex.assume(x)
        key, idx = fval(ex, "key", "UUID"), fval(ex, "index", "int")
        w = fobj(ex, FILE, "AddressRow", dict(key=key, index=idx, addresses=ad))

        def layout(cc, n):
            o, m = z3.Ints("o!q m!q")
            return [("length", blen(cc) == ao(n)), ("earlier bytes untouched", All([o, m], Implies(And(0 <= o, 0 <= m, o + m <= L), sub(cc, o, m) == sub(c, o, m)), [sub(cc, o, m)])),
                    ("id bytes", sub(cc, L, 16) == ubytes(key.t)), ("index bytes", And(sub(cc, L + 16, k) == tob(idx.t, k), 0 <= idx.t, idx.t < pow256(k))),
                    ("address bytes", All(j, Implies(And(0 <= j, j < n), And(
                        sub(cc, ao(j), k) == tob(aoff(Sel(adc.ats[0], j)), k), sub(cc, ao(j) + k, k) == tob(asize(Sel(adc.ats[0], j)), k),
                        0 <= aoff(Sel(adc.ats[0], j)), aoff(Sel(adc.ats[0], j)) < pow256(k), 0 <= asize(Sel(adc.ats[0], j)), asize(Sel(adc.ats[0], j)) < pow256(k))), [ao(j)]))]

        def hook(ex2, fr, dom, D_, cnt):
            f = ex2.heap[s.addr].fields
            return layout(f["content"].t, cnt) + [("step", And(ao(cnt + 1) == ao(cnt) + 2 * k, ao(cnt) >= L + 16 + k)),
                                                         ("order", All(j, Implies(And(0 <= j, j < cnt), And(ao(j) >= L + 16 + k, ao(j) + 2 * k <= ao(cnt))), [ao(j)]))]
        ctx4.loop_hooks["write:for"] = hook
        return dict(self=w, args=[s, Sym("int", k)], layout=layout, n=adc.n, s=s, k=k, ad=adc, L=L, idx=idx.t)

    def post_rw(ex, st, path):
        k, A = st["k"], st["ad"].ats[0]
        if path.kind == "raise":
            bad = lambda v: Not(And(0 <= v, v < pow256(k)))
            return [("rejected only when a number does not fit", And(path.value.cls == "OverflowError", Or(bad(st["idx"]), Any(j, And(0 <= j, j < st["n"], Or(bad(aoff(Sel(A, j))), bad(asize(Sel(A, j)))))))))]
        f = ex.heap[st["s"].addr].fields
        return st["layout"](f["content"].t, st["n"]) + [("row size", blen(f["content"].t) == st["L"] + 16 + k * (1 + 2 * st["n"]))]
    vc.function(ctx4, FILE, "AddressRow.write", setup_rw, post_rw)

    # what is written is what is read: field values survive the encoding
    v_ = z3.Int("v")
    vc.lemma("row round trip: integers", bm.axioms() + [k_ > 0, 0 <= v_, v_ < pow256(k_)], frob(tob(v_, k_)) == v_)
    vc.lemma("row round trip: ids", bm.axioms(), mkuuid(frob(ubytes(u))) == u)
    for nm in ("compute_row_size", "compute_header_size"):
        def setup_sz(ex, nm=nm):
            k, na = fval(ex, "k", "int"), fval(ex, "na", "int")
            return dict(args=[k, na] if nm == "compute_row_size" else [k], k=k.t, na=na.t)
        vc.function(ctx4, FILE, "AddressReader." + nm, setup_sz, lambda ex, st, path, nm=nm: [
            ("matches the bytes actually written", ex.as_int(path.value) == (16 + st["k"] * (1 + 2 * st["na"]) if nm == "compute_row_size" else 1 + 2 * st["k"]))])

    # ------------------------------------------------------------------ paging
    ctx5 = make_ctx()
    boff, foff = z3.Function("page_begin", INT, INT), z3.Function("page_offset", INT, INT)

    def setup_fs(ex):
        for x in bm.axioms():
            ex.assume(x)
        k, na, psz = (ex.fresh(n, INT) for n in ("int_size", "n_addresses", "page_size"))
        ex.assume(And(k > 0, na >= 0, psz >= 0, k * na >= 0))
        c = ex.fresh("content", V)
        s = ex.alloc(ObjC(ClassVal("Stream"), {"content": Sym("val", c, "bytes"), "pos": Sym("int", z3.IntVal(0))}))
        cls = ClassVal("AddressReader", get_module(FILE), get_module(FILE).classes["AddressReader"])
        rs = 16 + k * (1 + 2 * na)
        hs = 1 + 2 * k

        def pages(ex2, o):
            pc = ex2.cell(ex2.heap[o.addr].fields["pages"])
            return ex2.symbolize(pc, ("seq", ("val", "AddressPage"))) if pc.kind == "list" else pc

        def winv(ex2, fr, mode):
            pgs = pages(ex2, fr["self"])
            P = pgs.n
            fld = lambda n, i: Sel(ex2.field_arrays("AddressPage", n, ("int",))[0][0], Sel(pgs.ats[0], i))
            rpp, ri, fo = (ex2.as_int(fr[n]) for n in ("rows_per_page", "row_index", "file_offset"))
            if mode == "init":
                ex2.assume(And(boff(0) == 0, foff(0) == hs))
                ex2.assume(All(j, And(boff(j + 1) == boff(j) + rpp, foff(j + 1) == foff(j) + rpp * rs), [boff(j)]))
            elif mode == "assume":
                ex2.assume(And(boff(0) == 0, foff(0) == hs))
                ex2.assume(And(boff(P + 1) == boff(P) + rpp, foff(P + 1) == foff(P) + rpp * rs))
                ex2.assume(And(boff(P) == boff(P - 1) + rpp, foff(P) == foff(P - 1) + rpp * rs))
            n_rows = ex2.as_int(fr["n_rows"])
            return [("count", And(P >= 0, rpp >= 1)), ("running row index", ri == boff(P)), ("running offset", And(fo == foff(P), foff(P) == hs + boff(P) * rs)),
                    ("pages so far", All(j, Implies(And(0 <= j, j < P), And(fld("begin", j) == boff(j), fld("n_rows", j) == rpp, fld("file_offset", j) == foff(j), foff(j) == hs + boff(j) * rs,
                                                                             boff(j) >= 0, boff(j) < n_rows, Implies(j + 1 < P, boff(j + 1) == boff(j) + rpp))), [Sel(pgs.ats[0], j)])),
                    ("last page", And(boff(P) >= 0, Implies(P > 0, And(boff(P) == boff(P - 1) + rpp, boff(P - 1) < n_rows)), Implies(P == 0, boff(P) == 0))),
                    ("pages distinct", All([a, b], Implies(And(0 <= a, a < b, b < P), Sel(pgs.ats[0], a) != Sel(pgs.ats[0], b)), [z3.MultiPattern(Sel(pgs.ats[0], a), Sel(pgs.ats[0], b))]))]
        ctx5.while_invs["from_stream"] = winv
        return dict(self=cls, args=[s], kw={"page_size": Sym("int", psz), "n_addresses": Sym("int", na), "int_size": Sym("int", k)}, pages=pages, c=c, k=k, na=na, rs=rs, hs=hs)

    def post_fs(ex, st, path):
        c, k, na, rs, hs = (st[n] for n in ("c", "k", "na", "rs", "hs"))
        ok = And(blen(c) >= hs, frob(sub(c, 0, 1)) == k, frob(sub(c, 1 + k, k)) == na)
        if path.kind == "raise":
            if path.value.cls == "AssertionError":
                return []
            return [("rejected only for a truncated or mismatched header", And(path.value.cls == "InvalidQuantumGraphFileError", Not(ok)))]
        f = ex.heap[path.value.addr].fields
        pgs = st["pages"](ex, path.value)
        P = pgs.n
        fld = lambda n, i: Sel(ex.field_arrays("AddressPage", n, ("int",))[0][0], Sel(pgs.ats[0], i))
        n = ex.as_int(f["n_rows"])
        return [("accepted only with a matching header", ok), ("row count taken from the header", n == frob(sub(c, 1, k))),
                ("first page starts at row 0", Implies(P > 0, fld("begin", 0) == 0)), ("no pages for an empty table only", (P == 0) == (n == 0)),
                ("each page starts where the previous one ends", All(j, Implies(And(0 <= j, j + 1 < P), fld("begin", j + 1) == fld("begin", j) + fld("n_rows", j)))),
                ("last page ends at the last row", Implies(P > 0, fld("begin", P - 1) + fld("n_rows", P - 1) == n)),
                ("no page is empty", All(j, Implies(And(0 <= j, j < P), fld("n_rows", j) >= 1))),
                ("page offsets match the row layout", All(j, Implies(And(0 <= j, j < P), fld("file_offset", j) == hs + fld("begin", j) * rs)))]
    vc.function(ctx5, FILE, "AddressReader.from_stream", setup_fs, post_fs, min_paths=3)
