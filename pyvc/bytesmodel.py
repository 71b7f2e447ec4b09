"""Byte strings, integers encoded as bytes, and binary streams (assumed library contracts, all true of CPython bytes)."""
from .spec import *

cat = z3.Function("b_cat", V, V, V)
sub = z3.Function("b_sub", V, INT, INT, V)
blen = z3.Function("b_len", V, INT)
tob = z3.Function("b_of_int", INT, INT, V)
frob = z3.Function("int_of_b", V, INT)
pow256 = z3.Function("pow256", INT, INT)
uint = z3.Function("attr!UUID.int.0", V, INT)
ubytes = z3.Function("attr!UUID.bytes.0", V, V)
mkuuid = z3.Function("mk_uuid", INT, V)
MAXU = 2 ** 128


def axioms():
    a, b = z3.Consts("a!b b!b", V)
    o, n, p, m = z3.Ints("o!b n!b p!b m!b")
    k, v = z3.Ints("k!b v!b")
    u = z3.Const("u!b", V)
    return [
        All([a, b], blen(cat(a, b)) == blen(a) + blen(b), [cat(a, b)]),
        All(a, blen(a) >= 0, [blen(a)]),
        All([a, b, o, n], Implies(And(0 <= o, 0 <= n, o + n <= blen(a)), sub(cat(a, b), o, n) == sub(a, o, n)), [sub(cat(a, b), o, n)]),
        All([a, b, o, n], Implies(And(o >= blen(a), 0 <= n), sub(cat(a, b), o, n) == sub(b, o - blen(a), n)), [sub(cat(a, b), o, n)]),
        All([a, o, n], Implies(And(o == 0, n == blen(a)), sub(a, o, n) == a), [sub(a, o, n)]),
        All([a, o, n], Implies(And(0 <= o, 0 <= n, o + n <= blen(a)), blen(sub(a, o, n)) == n), [sub(a, o, n)]),
        All([a, o, n, p, m], Implies(And(0 <= o, 0 <= n, 0 <= p, 0 <= m, p + m <= n), sub(sub(a, o, n), p, m) == sub(a, o + p, m)), [sub(sub(a, o, n), p, m)]),
        All([v, k], Implies(k >= 0, blen(tob(v, k)) == k), [tob(v, k)]),
        All([v, k], Implies(And(0 <= v, v < pow256(k)), frob(tob(v, k)) == v), [tob(v, k)]),
        All(a, And(frob(a) >= 0, frob(a) < pow256(blen(a))), [frob(a)]),
        blen(V.none) == 0, All(k, pow256(k) > 0, [pow256(k)]), pow256(1) == 256, pow256(16) == MAXU,
        All(u, And(uint(u) >= 0, uint(u) < MAXU, mkuuid(uint(u)) == u), [uint(u)]),
        All(v, Implies(And(0 <= v, v < MAXU), uint(mkuuid(v)) == v), [mkuuid(v)]),
        All(u, And(blen(ubytes(u)) == 16, frob(ubytes(u)) == uint(u)), [ubytes(u)]),
    ]


def zmin(a, b):
    return z3.simplify(If(a < b, a, b))


def install(ctx):
    def B(t):
        return Sym("val", t, "bytes")

    def getslice(ex, a, kw):
        o, lo, hi = a
        n = blen(o.t)
        l = ex.as_int(lo) if not (isinstance(lo, Const) and lo.v is None) else z3.IntVal(0)
        if isinstance(hi, Const) and hi.v is None:
            # [l:]
            ex.assume(l >= 0) if False else None
            if not ex.branch(l >= 0):
                raise Unsupported("negative slice bound on bytes")
            l = If(l < n, l, n)
            return B(sub(o.t, l, n - l))
        h = ex.as_int(hi)
        if not ex.branch(And(l >= 0, h >= 0)):
            raise Unsupported("negative slice bound on bytes")
        l = If(l < n, l, n)
        h = If(h < n, h, n)
        return B(sub(o.t, l, If(h > l, h - l, z3.IntVal(0))))
    ctx.classes["bytes"] = ClassInfo({}, (), {"__len__": lambda ex, a, kw: Sym("int", blen(a[0].t)), "__getslice__": getslice},
                                     truthy=lambda ex, v: blen(v.t) > 0)
    ctx.classes["UUID"] = ClassInfo({"int": "int", "bytes": "bytes"})

    def to_bytes(ex, a, kw):
        v = ex.as_int(a[0])
        k = ex.as_int(a[1]) if len(a) > 1 else z3.IntVal(1)
        if not ex.branch(And(v >= 0, v < pow256(k))):
            ex.raise_("OverflowError")
        ex.assume(Implies(k >= 0, blen(tob(v, k)) == k))
        ex.assume(frob(tob(v, k)) == v)
        return B(tob(v, k))

    def from_bytes(ex, a, kw):
        return Sym("int", frob(ex.box(a[0])))

    def mk(ex, a, kw):
        i = ex.as_int(kw["int"])
        if not ex.branch(And(i >= 0, i < MAXU)):
            ex.raise_("ValueError")
        return Sym("val", mkuuid(i), "UUID")
    ctx.stubs["int.to_bytes"] = to_bytes
    ctx.stubs["int.from_bytes"] = from_bytes
    ctx.stubs["uuid.UUID"] = mk
    ctx.constructors["UUID"] = mk

    # streams: objects with fields content, pos
    def write(ex, a, kw):
        s, d = a
        f = ex.heap[s.addr].fields
        c, p = f["content"].t, f["pos"].t
        if not ex.branch(p == blen(c)):
            raise Unsupported("write in the middle of a stream")
        dt = ex.box(d)
        ex.assume(And(blen(cat(c, dt)) == blen(c) + blen(dt), blen(dt) >= 0, blen(c) >= 0))
        ex.setattr(s, "content", B(cat(c, dt)))
        ex.setattr(s, "pos", Sym("int", p + blen(dt)))
        return Sym("int", blen(dt))

    def read(ex, a, kw):
        s = a[0]
        f = ex.heap[s.addr].fields
        c, p = f["content"].t, f["pos"].t
        rest = If(blen(c) > p, blen(c) - p, z3.IntVal(0))
        if len(a) > 1 and not (isinstance(a[1], Const) and a[1].v is None):
            n = ex.as_int(a[1])
            if not ex.branch(n >= 0):
                n = rest
            else:
                n = n if ex.branch(n <= rest) else rest
        else:
            n = rest
        ex.assume(blen(c) >= 0)
        ex.assume(Implies(And(p >= 0, n >= 0, p + n <= blen(c)), blen(sub(c, p, n)) == n))
        ex.setattr(s, "pos", Sym("int", p + n))
        return B(sub(c, p, n))

    def seek(ex, a, kw):
        ex.setattr(a[0], "pos", Sym("int", ex.as_int(a[1])))
        return a[1]

    def tell(ex, a, kw):
        return ex.heap[a[0].addr].fields["pos"]
    m = {"write": write, "read": read, "seek": seek, "tell": tell}
    ctx.classes["Stream"] = ClassInfo({}, (), m)
    ctx.classes["BytesIO"] = ClassInfo({}, (), m)

    def append(ex, a, kw):
        s, d = a
        c, dt = ex.heap[s.addr].fields["content"].t, ex.box(d)
        ex.assume(And(blen(cat(c, dt)) == blen(c) + blen(dt), blen(dt) >= 0, blen(c) >= 0))
        ex.setattr(s, "content", B(cat(c, dt)))
        return Sym("int", blen(dt))
    ctx.classes["Appender"] = ClassInfo({}, (), {"write": append})

    def bytesio(ex, a, kw):
        return ex.alloc(ObjC(ClassVal("BytesIO"), {"content": a[0], "pos": Sym("int", z3.IntVal(0))}))
    ctx.stubs["io.BytesIO"] = bytesio
    ctx.stubs["io.BufferedReader"] = lambda ex, a, kw: a[0]
    ctx.ann_types.update({"UUID": "UUID", "bytes": "bytes"})


def stream(ex, name="stream", at_end=True):
    c = ex.fresh(name, V)
    p = blen(c) if at_end else ex.fresh(name + ".pos", INT)
    ex.assume(p >= 0)
    return ex.alloc(ObjC(ClassVal("Stream"), {"content": Sym("val", c, "bytes"), "pos": Sym("int", p)}))


def appender(ex, name="out"):
    """A write-only stream."""
    return ex.alloc(ObjC(ClassVal("Appender"), {"content": Sym("val", ex.fresh(name, V), "bytes")}))


NOTE = ["byte strings: concatenation/slicing/length algebra, int.to_bytes/from_bytes round trip and overflow, uuid.UUID int/bytes bijection (assumed library contracts)",
        "binary streams: write appends, read returns min(n, remaining) bytes from the position, seek sets the position; short reads and I/O errors do not occur"]
