"""Containers, builtins and library contracts used by the verification-condition generator.

Python sets, dicts and lists are modelled as arrays (membership / domain+values / length+elements).  The rules in this
file are the generator's own axioms about the language: they are exercised against CPython by /verif/pyvc/selftest.py.
"""
from __future__ import annotations

import ast
import z3

from . import smt
from .smt import V, INT, BOOL, REAL, VSET, str_const, card, tup_proj
from .values import *
from .values import Val
from . import engine as E
from .engine import Exec, PyRaise, GenVal, ContextManager, StarArg

FALSE_SET = z3.K(V, z3.BoolVal(False))


class Dom:
    """A primitive iteration domain: bound variable sort, membership, element, ordering."""

    def __init__(self, sort, member, elem, count=None, ordered=False, src=None, mem=None, lo=None, hi=None, edesc=None):
        self.sort, self.member, self.elem, self.count, self.ordered = sort, member, elem, count, ordered
        self.src, self.mem, self.lo, self.hi, self.edesc = src, mem, lo, hi, edesc


class Concrete:
    def __init__(self, items):
        self.items = list(items)


class Concat:
    def __init__(self, parts):
        self.parts = list(parts)


class Nest:
    """chain.from_iterable / generator expressions: run(body) drives the loops."""

    def __init__(self, run):
        self.run = run


def to_dom(ex, v):
    if isinstance(v, DomainVal):
        return v.dom
    if isinstance(v, (Dom, Concrete, Concat, Nest)):
        return v
    if isinstance(v, Tup):
        return Concrete(v.items)
    if isinstance(v, GenVal):
        return gen_dom(ex, v)
    if isinstance(v, Const) and isinstance(v.v, str):
        return Concrete([Const(c) for c in v.v])
    if isinstance(v, (Ref, Place)):
        c = ex.cell(v)
        if c.kind == "list":
            return Concrete(c.items)
        if c.kind == "dict":
            return Concrete([k for k, _ in c.items])
        if c.kind == "set":
            return set_dom(ex, c.mem, c.d, src=v)
        if c.kind == "map":
            return set_dom(ex, c.dom, c.dk, src=v)
        if c.kind == "seq" and c.distinct and ex.ctx.enum_as_set:
            return set_dom(ex, c.members, c.d)       # list(some set): an enumeration in unknown order
        if c.kind == "seq":
            return seq_dom(ex, v, c)
        if c.kind == "obj":
            m = ex.find_method(v, "__iter__")
            if m is not None:
                return to_dom(ex, ex.call(m, [], {}))
    if isinstance(v, Sym) and v.kind == "val":
        if isinstance(v.ty, tuple) and v.ty[0] in ("set", "seq", "map"):
            raise Unsupported(f"iteration over boxed {v.ty}")
        m = ex.find_method(v, "__iter__")
        if m is not None:
            return to_dom(ex, ex.call(m, [], {}))
    raise Unsupported(f"iteration over {v}")


def set_dom(ex, mem, d, src=None, elem=None, edesc=None):
    def el(ex, b):
        w = ex.wf_elem(d, b)
        ex.assume(w)
        return ex.unbox(d, b) if elem is None else elem(ex, b)
    return Dom(V, lambda b: z3.Select(mem, b), el, card(mem), False, src, mem, edesc=edesc or d)


def seq_dom(ex, v, c):
    return Dom(INT, lambda b: z3.And(0 <= b, b < c.n), lambda ex, b: ex.seq_elem(v, c, b), c.n, True, v, lo=z3.IntVal(0), hi=c.n, edesc=c.d)


def gen_dom(ex, g):
    e, fr = g.node, g.fr

    def run(body):
        sub = E.Frame(E.Func(e, fr.func.mod, fr.func.cls, closure=fr, name="<genexp>"))
        ex.frames.append(sub)
        ex.comp_loops(e.generators, 0, sub, lambda: body(ex.eval(e.elt, sub)))
        ex.frames = [x for x in ex.frames if x is not sub]
    return Nest(run)


# ------------------------------------------------------------------------------------------ Exec methods

def _add(f):
    setattr(Exec, f.__name__, f)
    return f


@_add
def seq_elem(self, ref, c, i):
    if is_container(c.d):
        if isinstance(ref, (Ref, Place)):
            p = Place(ref, i, c.d)
            return p
        return self.alloc(cell_from_terms(c.d, [z3.Select(a, i) for a in c.ats]))
    return self.unpack_at(ref, i, c.d, c.ats)


@_add
def elem_desc(self, dom):
    if isinstance(dom, Dom) and dom.edesc is not None:
        return dom.edesc
    raise Unsupported("element type of lazy iterable")


@_add
def dom_member(self, dom, x):
    if isinstance(dom, Concrete):
        return z3.Or(*[self.eq(x, y) for y in dom.items]) if dom.items else z3.BoolVal(False)
    if isinstance(dom, Dom) and dom.mem is not None and getattr(dom, "is_keys", True):
        return z3.Select(dom.mem, self.box(x))
    raise Unsupported("membership in lazy iterable")


@_add
def as_set(self, v):
    if isinstance(v, DomainVal):
        d = v.dom
        if isinstance(d, Dom) and d.mem is not None and getattr(d, "is_keys", True):
            return SetC(d.mem, d.edesc)
        if getattr(d, "union", None) is not None:      # the union of the sets in a mapping
            dom, vals, ed = d.union
            mem, own = self.fresh("union", VSET), self.fresh_fn("owner", V, V)
            k, x = z3.Const("k!u", V), z3.Const("x!u", V)
            self.assume(z3.ForAll([k, x], z3.Implies(z3.And(z3.Select(dom, k), z3.Select(z3.Select(vals, k), x)), z3.Select(mem, x)), patterns=[z3.Select(z3.Select(vals, k), x)]))
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(z3.Select(dom, own(x)), z3.Select(z3.Select(vals, own(x)), x))), patterns=[z3.Select(mem, x)]))
            return SetC(mem, ed)
        v = self.build("set", v)
    if isinstance(v, GenVal):
        v = self.build("set", v)
    if isinstance(v, Tup):
        return self.set_of_items(v.items)
    if isinstance(v, Sym) and v.kind == "val":
        m = self.find_method(v, "__iter__")
        if m is not None:
            return self.as_set(self.call(m, [], {}))
    c = self.cell(v)
    if c.kind == "set":
        return c
    if c.kind == "map":
        return SetC(c.dom, c.dk)
    if c.kind in ("list", "dict"):
        return self.set_of_items(c.items if c.kind == "list" else [k for k, _ in c.items])
    if c.kind == "seq" and c.members is not None:
        return SetC(c.members, c.d)
    if c.kind == "seq":
        mem = self.fresh("elems", VSET)
        i = z3.Int("i!m")
        x = z3.Const("x!m", V)
        e = self.box(self.unpack_pure(c.d, [z3.Select(a, i) for a in c.ats]))
        pos = self.fresh_fn("pos", V, INT)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), z3.Select(mem, e))))
        px = pos(x)
        epx = self.box(self.unpack_pure(c.d, [z3.Select(a, px) for a in c.ats]))
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(0 <= px, px < c.n, epx == x)), patterns=[z3.Select(mem, x)]))
        return SetC(mem, c.d)
    if c.kind == "obj":
        m = self.find_method(v, "__iter__")
        if m is not None:
            return self.as_set(self.call(m, [], {}))
    raise Unsupported(f"as_set {c.kind}")


@_add
def unpack_pure(self, d, terms):
    if is_container(d):
        raise Unsupported("container as set element")
    return self.unpack(d, terms)


@_add
def set_of_items(self, items):
    mem, d = FALSE_SET, None
    for x in items:
        mem = z3.Store(mem, self.box(x), z3.BoolVal(True))
        dx = self.desc_of(x)
        d = dx if d is None else self.join_desc([d, dx])
    return SetC(mem, d)


@_add
def build(self, kind, v):
    """Build a list / set / dict from an iterable by running the loop rule."""
    from .loops import for_rule
    if kind == "list":
        acc = self.alloc(ListC([]))
        leaf = lambda x: self.call(self.getattr(acc, "append"), [x], {})
    elif kind == "set":
        acc = self.alloc(SetC(FALSE_SET, None))
        leaf = lambda x: self.call(self.getattr(acc, "add"), [x], {})
    else:
        acc = self.alloc(DictC([]))

        def leaf(x):
            k, w = self.tuple_items(x, 2)
            self.setitem(acc, k, w)
    for_rule(self, v, leaf, kind, None, None)
    return acc


@_add
def materialize_seq(self, dom):
    """list(iterable): a fresh list."""
    v = dom
    if isinstance(dom, (Ref, Place)):
        c = self.cell(dom)
        if c.kind == "seq":
            n = SeqC(c.n, c.ats, c.d)
            n.members = c.members
            return self.alloc(n)
        if c.kind == "list":
            n = self.alloc(ListC(c.items))
            return n
    d = to_dom(self, v)
    if isinstance(d, Concrete):
        return self.alloc(ListC(d.items))
    if isinstance(d, Dom) and not d.ordered and d.mem is not None:
        # an enumeration (unknown order) of the keys
        n = self.fresh("n", INT)
        at = self.fresh("enum", z3.ArraySort(INT, V))
        pos = self.fresh_fn("pos", V, INT)
        self.enum_axioms(d.mem, n, at, pos)
        if getattr(d, "is_keys", True) and (d.edesc is None or d.edesc[0] == "val"):
            seq = SeqC(n, [at], d.edesc or ("val", "?"))
            seq.members, seq.distinct = d.mem, True
            return self.alloc(seq)
        mem = d
        kd = Dom(INT, lambda b: z3.And(0 <= b, b < n), lambda ex, b: mem.elem(ex, z3.Select(at, b)), n, True, lo=z3.IntVal(0), hi=n)
        return self.build("list", DomainVal(kd))
    return self.build("list", v if isinstance(v, Val) else DomainVal(d))


@_add
def enum_axioms(self, mem, n, at, pos):
    i = z3.Int("i!n")
    x = z3.Const("x!n", V)
    self.assume(n == card(mem))
    self.card_facts(mem)
    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(mem, z3.Select(at, i)), pos(z3.Select(at, i)) == i)),
                          patterns=[z3.Select(at, i)]))
    self.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), z3.And(0 <= pos(x), pos(x) < n, z3.Select(at, pos(x)) == x)),
                          patterns=[z3.Select(mem, x)]))


@_add
def card_facts(self, mem):
    x = z3.Const("x!k", V)
    self.assume(card(mem) >= 0)
    if mem.eq(FALSE_SET):
        self.assume(card(mem) == 0)
        return
    w = self.fresh("cw", V)
    self.assume(z3.Implies(card(mem) > 0, z3.Select(mem, w)))
    self.assume(z3.ForAll([x], z3.Implies(z3.Select(mem, x), card(mem) > 0), patterns=[z3.Select(mem, x)]))
    # size one: a single member
    y = z3.Const("y!k", V)
    self.assume(z3.Implies(card(mem) == 1, z3.ForAll([x], z3.Implies(z3.Select(mem, x), x == w), patterns=[z3.Select(mem, x)])))
    self.assume(z3.Implies(z3.And(z3.Select(mem, w), z3.ForAll([x], z3.Implies(z3.Select(mem, x), x == w))), card(mem) == 1))
    w2 = self.fresh("cw2", V)
    self.assume(z3.Implies(card(mem) > 1, z3.And(z3.Select(mem, w2), w2 != w)))


@_add
def card_step(self, old, new, x, adding):
    """|old + x| / |old - x|."""
    if not getattr(self.ctx, "track_card", False):
        return
    if adding:
        self.assume(card(new) == card(old) + z3.If(z3.Select(old, x), 0, 1))
    else:
        self.assume(card(new) == card(old) - z3.If(z3.Select(old, x), 1, 0))
    self.assume(card(old) >= 0)
    self.assume(card(new) >= 0)


@_add
def bulk(self, name, base, vars_, guard, idx, val):
    """Fresh array equal to base except at idx(vars) where guard holds, where it is val."""
    arr = self.fresh(name, base.sort())
    k = z3.Const("k!b", base.sort().domain())
    if len(vars_) == 1 and idx.eq(vars_[0]):
        g = z3.substitute(guard, (vars_[0], k))
        v = z3.substitute(val, (vars_[0], k))
        self.assume(z3.ForAll([k], z3.Select(arr, k) == z3.If(g, v, z3.Select(base, k)), patterns=[z3.Select(arr, k)]))
        if v.sort() == BOOL and z3.is_true(v):
            # reverse trigger: members of base stay
            if not base.eq(FALSE_SET) and not z3.is_const_array(base):
                if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    self.assume(z3.ForAll([k], z3.Implies(z3.Select(base, k), z3.Select(arr, k)), patterns=[z3.Select(base, k)]))
                else:
                    self.assume(z3.ForAll([k], z3.Implies(z3.Select(base, k), z3.Select(arr, k))))
    else:
        raise Unsupported("bulk")
    self.bulks[arr.get_id()] = (arr, base, [(list(vars_), guard, (idx,), val)])
    return arr


Exec.bulks = {}


@_add
def set_union_into(self, ref, mem2, d2):
    c = self.cell(ref)
    if mem2.eq(FALSE_SET):
        return
    x = z3.Const("x!u", V)
    # concrete additions stay stores
    stores = store_chain(mem2)
    d = c.d if c.d is not None else d2
    if stores is not None:
        mem = c.mem
        for k in stores:
            new = z3.Store(mem, k, z3.BoolVal(True))
            self.card_step(mem, new, k, True)
            mem = new
        self.set_cell(ref, SetC(mem, d))
        return
    new = self.bulk("union", c.mem, [x], z3.Select(mem2, x), x, z3.BoolVal(True))
    self.assume(z3.ForAll([x], z3.Implies(z3.Select(mem2, x), z3.Select(new, x)), patterns=[z3.Select(mem2, x)]))
    self.set_cell(ref, SetC(new, d))


def store_chain(mem):
    out = []
    while z3.is_store(mem):
        if not z3.is_true(mem.arg(2)):
            return None
        out.append(mem.arg(1))
        mem = mem.arg(0)
    if mem.eq(FALSE_SET):
        return list(reversed(out))
    return None


@_add
def fresh_set(self, name, f, d):
    """Fresh set {x | f(x)}."""
    mem = self.fresh(name, VSET)
    x = z3.Const("x!f", V)
    body = f(x)
    self.assume(z3.ForAll([x], z3.Select(mem, x) == body, patterns=[z3.Select(mem, x)]))
    pats = [t for t in selects_on(body, x)]
    for p in pats[:2]:
        self.assume(z3.ForAll([x], z3.Select(mem, x) == body, patterns=[p]))
    return SetC(mem, d)


def selects_on(t, x):
    out, todo, seen = [], [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_select(e) and e.arg(1).eq(x) and not z3.is_store(e.arg(0)) and not z3.is_const_array(e.arg(0)):
            out.append(e)
        todo.extend(e.children())
    return out


# ------------------------------------------------------------------------------------------ item access

@_add
def to_map(self, ref, kd, vd):
    """Turn a concrete dict cell into a symbolic map."""
    c = self.cell(ref)
    m = self.symbolize(c, ("map", kd, vd))
    self.set_cell(ref, m)
    return m


@_add
def default_value_desc(self, c):
    f = c.default
    h = getattr(c, "hint", None)
    if h is not None and h[0] == "map":
        return h[2]
    if isinstance(f, ClassVal):
        if f.name == "set":
            return ("set", ("val", "?"))
        if f.name == "int":
            return ("int",)
        if f.name == "list":
            hint = self.ctx.default_list_desc
            return ("seq", hint)
        if f.name == "dict":
            return ("map", ("val", "?"), ("val", "?"))
    raise Unsupported(f"defaultdict factory {f}")


@_add
def getitem(self, o, k):
    if isinstance(o, Tup):
        if isinstance(k, Const):
            try:
                return o.items[k.v]
            except IndexError:
                self.raise_("IndexError")
        raise Unsupported("symbolic tuple index")
    if isinstance(o, DomainVal):
        o = self.materialize_seq(o.dom)
    if isinstance(o, (Ref, Place)):
        c = self.cell(o)
        if c.kind == "map":
            kt = self.box(k)
            if c.default is not None:
                dflt = self.default_terms(c)
                vals = [z3.Store(a, kt, z3.If(z3.Select(c.dom, kt), z3.Select(a, kt), t)) for a, t in zip(c.vals, dflt)]
                self.set_cell(o, MapC(z3.Store(c.dom, kt, z3.BoolVal(True)), vals, c.dk, c.dv, c.default))
                c = self.cell(o)
            elif not self.branch(z3.Select(c.dom, kt)):
                self.raise_("KeyError")
            return self.map_value(o, c, kt)
        if c.kind == "dict":
            for kk, vv in c.items:
                if self.branch(self.eq(k, kk)):
                    return vv
            if c.default is not None:
                if not c.items and not isinstance(k, Const):
                    self.to_map(o, self.desc_of(k), self.default_value_desc(c))
                    return self.getitem(o, k)
                v = self.call(c.default, [], {})
                self.heap[o.addr] = DictC([*c.items, (k, v)], c.default)
                return v
            self.raise_("KeyError")
        if c.kind == "seq":
            i = self.as_int(k)
            if self.branch(z3.And(i >= 0, i < c.n)):
                return self.seq_elem(o, c, i)
            if self.branch(z3.And(i < 0, i >= -c.n)):
                return self.seq_elem(o, c, i + c.n)
            self.raise_("IndexError")
        if c.kind == "list":
            if isinstance(k, Const):
                try:
                    return c.items[k.v]
                except IndexError:
                    self.raise_("IndexError")
            i = self.as_int(k)
            for j, x in enumerate(c.items):
                if self.branch(z3.Or(i == j, i == j - len(c.items))):
                    return x
            self.raise_("IndexError")
        if c.kind == "obj":
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
    if isinstance(o, Sym) and o.kind == "val":
        m = self.find_method(o, "__getitem__")
        if m is not None:
            return self.call(m, [k], {})
        if isinstance(k, Const) and isinstance(k.v, int) and k.v >= 0:
            ds = o.ty[1:] if isinstance(o.ty, tuple) and o.ty[0] == "tup" else None
            if ds:
                return self.unbox(ds[k.v], tup_proj(o.t, k.v))
    if isinstance(o, Const) and isinstance(o.v, str) and isinstance(k, Const):
        return Const(o.v[k.v])
    raise Unsupported(f"subscript of {o}")


@_add
def map_value(self, o, c, kt):
    if is_container(c.dv):
        return Place(o, kt, c.dv)
    return self.unpack_at(o, kt, c.dv, c.vals)


@_add
def default_terms(self, c):
    v = self.call(c.default, [], {})
    if isinstance(v, Ref):
        cc = self.cell(v)
        if cc.kind == "list" and not cc.items:
            return self.symbolize(cc, c.dv).terms()
        if cc.kind == "dict" and not cc.items:
            return self.symbolize(cc, c.dv).terms()
        if cc.kind == "set":
            return [cc.mem]
    return self.pack(v, c.dv)


@_add
def setitem(self, o, k, v):
    if isinstance(o, (Ref, Place)):
        c = self.cell(o)
        if c.kind == "dict":
            hint = getattr(c, "hint", None)
            if isinstance(k, Const) and all(isinstance(kk, Const) for kk, _ in c.items):
                items = [(kk, vv) for kk, vv in c.items]
                for n, (kk, _) in enumerate(items):
                    if kk.v == k.v:
                        items[n] = (kk, v)
                        break
                else:
                    items.append((k, v))
                nc = DictC(items, c.default)
                nc.hint = hint
                self.heap[o.addr] = nc
                return
            vds = [self.desc_of(x) for _, x in c.items] + [self.desc_of(v)] if hint is None else [hint[2]]
            kds = [self.desc_of(x) for x, _ in c.items] + [self.desc_of(k)] if hint is None else [hint[1]]
            self.to_map(o, self.join_desc(kds), self.join_desc(vds))
            c = self.cell(o)
        if c.kind == "map":
            kt = self.box(k)
            dv = c.dv
            terms = self.pack(v, dv)
            vals = [z3.Store(a, kt, t) for a, t in zip(c.vals, terms)]
            new = z3.Store(c.dom, kt, z3.BoolVal(True))
            self.card_step(c.dom, new, kt, True)
            self.set_cell(o, MapC(new, vals, c.dk, dv, c.default))
            return
        if c.kind == "seq":
            i = self.as_int(k)
            if self.branch(z3.And(i < 0, i >= -c.n)):
                i = i + c.n
            elif not self.branch(z3.And(i >= 0, i < c.n)):
                self.raise_("IndexError")
            terms = self.pack(v, c.d)
            self.set_cell(o, SeqC(c.n, [z3.Store(a, i, t) for a, t in zip(c.ats, terms)], c.d))
            return
        if c.kind == "list" and isinstance(k, Const):
            items = list(c.items)
            try:
                items[k.v] = v
            except IndexError:
                self.raise_("IndexError")
            self.heap[o.addr] = ListC(items)
            return
        if c.kind == "obj":
            m = self.find_method(o, "__setitem__")
            if m is not None:
                return self.call(m, [k, v], {})
    if isinstance(o, Sym) and o.kind == "val":
        m = self.find_method(o, "__setitem__")
        if m is not None:
            return self.call(m, [k, v], {})
    raise Unsupported(f"item assignment on {o}")


@_add
def delitem(self, o, k):
    if isinstance(o, (Ref, Place)):
        c = self.cell(o)
        if c.kind == "map":
            kt = self.box(k)
            if not self.branch(z3.Select(c.dom, kt)):
                self.raise_("KeyError")
            new = z3.Store(c.dom, kt, z3.BoolVal(False))
            self.card_step(c.dom, new, kt, False)
            self.set_cell(o, MapC(new, c.vals, c.dk, c.dv, c.default))
            return
        if c.kind == "dict":
            for n, (kk, _) in enumerate(c.items):
                if self.branch(self.eq(k, kk)):
                    nc = DictC(c.items[:n] + c.items[n + 1:], c.default)
                    nc.hint = getattr(c, "hint", None)
                    self.heap[o.addr] = nc
                    return
            self.raise_("KeyError")
        if c.kind == "list" and isinstance(k, Const):
            items = list(c.items)
            try:
                del items[k.v]
            except IndexError:
                self.raise_("IndexError")
            self.heap[o.addr] = ListC(items)
            return
        if c.kind == "obj":
            m = self.find_method(o, "__delitem__")
            if m is not None:
                return self.call(m, [k], {})
    if isinstance(o, Sym) and o.kind == "val":
        m = self.find_method(o, "__delitem__")
        if m is not None:
            return self.call(m, [k], {})
    raise Unsupported(f"del item on {o}")


@_add
def getslice(self, o, lo, hi):
    if isinstance(o, Sym) and o.kind == "val":
        m = self.find_method(o, "__getslice__")
        if m is not None:
            return self.call(m, [lo or NONE, hi or NONE], {})
        raise Unsupported("slice of opaque value")
    if isinstance(o, Const) and isinstance(o.v, str) and (lo is None or isinstance(lo, Const)) and (hi is None or isinstance(hi, Const)):
        return Const(o.v[(lo.v if lo else None):(hi.v if hi else None)])
    if isinstance(o, Tup):
        return Tup(o.items[(lo.v if lo else None):(hi.v if hi else None)])
    c = self.cell(o)
    if c.kind == "list" and (lo is None or isinstance(lo, Const)) and (hi is None or isinstance(hi, Const)):
        return self.alloc(ListC(c.items[(lo.v if lo else None):(hi.v if hi else None)]))
    if c.kind == "seq":
        def clamp(v, dflt):
            if v is None or isinstance(v, Const) and v.v is None:
                return dflt
            t = self.as_int(v)
            t = z3.If(t < 0, t + c.n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > c.n, c.n, t))
        a, b = clamp(lo, z3.IntVal(0)), clamp(hi, c.n)
        n = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        if z3.simplify(a).eq(z3.IntVal(0)):
            return self.alloc(SeqC(n, c.ats, c.d))
        ats = []
        i = z3.Int("i!sl")
        for arr in c.ats:
            na = self.fresh("slice", arr.sort())
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(na, i) == z3.Select(arr, i + a)), patterns=[z3.Select(na, i)]))
            ats.append(na)
        return self.alloc(SeqC(n, ats, c.d))
    raise Unsupported(f"slice of {c.kind}")


# ------------------------------------------------------------------------------------------ operators

@_add
def container_binop(self, op, a, b):
    ka = self.kind_of(a)
    kb = self.kind_of(b)
    settish = ("set", "emptyset", "keys")
    if ka in settish or kb in settish:
        sa, sb = self.as_set(a), self.as_set(b)
        d = sa.d if sa.d is not None else sb.d
        pa, pb = sa.mem, sb.mem
        if isinstance(op, ast.BitOr):
            return self.alloc(self.fresh_set("union", lambda x: z3.Or(z3.Select(pa, x), z3.Select(pb, x)), d))
        if isinstance(op, ast.BitAnd):
            return self.alloc(self.fresh_set("inter", lambda x: z3.And(z3.Select(pa, x), z3.Select(pb, x)), d))
        if isinstance(op, ast.Sub):
            return self.alloc(self.fresh_set("diff", lambda x: z3.And(z3.Select(pa, x), z3.Not(z3.Select(pb, x))), d))
        if isinstance(op, ast.BitXor):
            return self.alloc(self.fresh_set("xor", lambda x: z3.Select(pa, x) != z3.Select(pb, x), d))
    if ka in ("list", "seq") and kb in ("list", "seq") and isinstance(op, ast.Add):
        r = self.materialize_seq(a)
        self.call(self.getattr(r, "extend"), [b], {})
        return r
    if ka in ("dict", "map") and kb in ("dict", "map") and isinstance(op, ast.BitOr):
        r = self.copy_container(a)
        self.call(self.getattr(r, "update"), [b], {})
        return r
    raise Unsupported(f"operator {type(op).__name__} on {ka},{kb}")


@_add
def kind_of(self, v):
    if isinstance(v, (Ref, Place)):
        return self.cell(v).kind
    if isinstance(v, DomainVal):
        return "keys" if isinstance(v.dom, Dom) and v.dom.mem is not None else "iter"
    return type(v).__name__


@_add
def copy_container(self, o):
    c = self.cell(o)
    if c.kind == "set":
        return self.alloc(SetC(c.mem, c.d))
    if c.kind == "map":
        return self.alloc(MapC(c.dom, c.vals, c.dk, c.dv, c.default))
    if c.kind == "seq":
        return self.alloc(SeqC(c.n, c.ats, c.d))
    if c.kind == "list":
        n = ListC(c.items)
        return self.alloc(n)
    if c.kind == "dict":
        n = DictC(c.items, c.default)
        n.hint = getattr(c, "hint", None)
        return self.alloc(n)
    raise Unsupported(f"copy {c.kind}")


# ------------------------------------------------------------------------------------------ methods

@_add
def container_method(self, o, attr):
    c = self.cell(o)
    table = {"set": SET_M, "map": MAP_M, "seq": SEQ_M, "list": LIST_M, "dict": DICT_M}.get(c.kind)
    if table is None or attr not in table:
        if c.kind in ("list", "seq") and attr == "popleft":
            return Stub(lambda ex, a, kw: SEQ_M["pop"](ex, o, [Const(0)], {}) if ex.cell(o).kind == "seq" else LIST_M["pop"](ex, o, [Const(0)], {}), "popleft")
        raise Unsupported(f"{c.kind}.{attr}")
    name = {"set": "set", "map": "dict", "seq": "list", "list": "list", "dict": "dict"}[c.kind]

    def call(ex, a, kw):
        cc = ex.cell(o)
        t = {"set": SET_M, "map": MAP_M, "seq": SEQ_M, "list": LIST_M, "dict": DICT_M}[cc.kind]
        return t[attr](ex, o, a, kw)
    call.star_ok = attr in ("union", "update", "intersection", "difference")
    return Stub(call, f"{name}.{attr}")


def s_add(ex, o, a, kw):
    c = ex.cell(o)
    t = ex.box(a[0])
    d = c.d if c.d is not None else ex.desc_of(a[0])
    new = z3.Store(c.mem, t, z3.BoolVal(True))
    ex.card_step(c.mem, new, t, True)
    ex.set_cell(o, SetC(new, d))
    return NONE


def s_discard(ex, o, a, kw):
    c = ex.cell(o)
    t = ex.box(a[0])
    new = z3.Store(c.mem, t, z3.BoolVal(False))
    ex.card_step(c.mem, new, t, False)
    ex.set_cell(o, SetC(new, c.d))
    return NONE


def s_remove(ex, o, a, kw):
    c = ex.cell(o)
    if not ex.branch(z3.Select(c.mem, ex.box(a[0]))):
        ex.raise_("KeyError")
    return s_discard(ex, o, a, kw)


def s_pop(ex, o, a, kw):
    c = ex.cell(o)
    if not ex.branch(ex.truth(o)):
        ex.raise_("KeyError")
    t = ex.fresh("popped", V)
    ex.assume(z3.Select(c.mem, t))
    ex.assume(ex.wf_elem(c.d, t))
    new = z3.Store(c.mem, t, z3.BoolVal(False))
    ex.card_step(c.mem, new, t, False)
    ex.set_cell(o, SetC(new, c.d))
    return ex.unbox(c.d, t)


def s_update(ex, o, a, kw):
    for x in a:
        if isinstance(x, StarArg):
            from .loops import for_rule
            for_rule(ex, x.v, lambda e: s_update(ex, o, [e], {}), "star-update", None, None)
            continue
        if isinstance(x, (GenVal,)) or isinstance(x, DomainVal) and not (isinstance(x.dom, Dom) and x.dom.mem is not None and getattr(x.dom, "is_keys", True)):
            from .loops import for_rule
            for_rule(ex, x, lambda e: s_add(ex, o, [e], {}), "update", None, None)
            continue
        s = ex.as_set(x)
        ex.set_union_into(o, s.mem, s.d)
    return NONE


def s_clear(ex, o, a, kw):
    c = ex.cell(o)
    ex.set_cell(o, SetC(FALSE_SET, c.d))
    return NONE


def s_copy(ex, o, a, kw):
    return ex.copy_container(o)


def s_union(ex, o, a, kw):
    r = ex.copy_container(o)
    s_update(ex, r, a, {})
    return r


def s_inter(ex, o, a, kw):
    c = ex.cell(o)
    mems = [ex.as_set(x).mem for x in a]
    return ex.alloc(ex.fresh_set("inter", lambda x: z3.And(z3.Select(c.mem, x), *[z3.Select(m, x) for m in mems]), c.d))


def s_diff(ex, o, a, kw):
    c = ex.cell(o)
    mems = [ex.as_set(x).mem for x in a]
    return ex.alloc(ex.fresh_set("diff", lambda x: z3.And(z3.Select(c.mem, x), *[z3.Not(z3.Select(m, x)) for m in mems]), c.d))


def s_diff_update(ex, o, a, kw):
    for y in a:
        c = ex.cell(o)
        m = ex.as_set(y).mem
        x = z3.Const("x!d", V)
        stores = store_chain(m)
        if stores is not None:
            mem = c.mem
            for k in stores:
                mem = z3.Store(mem, k, z3.BoolVal(False))
            ex.set_cell(o, SetC(mem, c.d))
            continue
        new = ex.bulk("diffu", c.mem, [x], z3.Select(m, x), x, z3.BoolVal(False))
        ex.assume(z3.ForAll([x], z3.Implies(z3.And(z3.Select(c.mem, x), z3.Not(z3.Select(m, x))), z3.Select(new, x)), patterns=[z3.Select(c.mem, x)]))
        ex.set_cell(o, SetC(new, c.d))
    return NONE


def s_inter_update(ex, o, a, kw):
    r = s_inter(ex, o, a, kw)
    c = ex.cell(o)
    nm = ex.cell(r).mem
    x = z3.Const("x!iu", V)
    mems = [ex.as_set(y).mem for y in a]
    ex.bulks[nm.get_id()] = (nm, c.mem, [([x], z3.Not(z3.And(*[z3.Select(m, x) for m in mems])), (x,), z3.BoolVal(False))])
    ex.set_cell(o, SetC(nm, c.d))
    return NONE


def s_issubset(ex, o, a, kw):
    x = z3.Const("x!s", V)
    p, q = ex.as_set(o).mem, ex.as_set(a[0]).mem
    return Sym("bool", z3.ForAll([x], z3.Implies(z3.Select(p, x), z3.Select(q, x))))


def s_issuperset(ex, o, a, kw):
    x = z3.Const("x!s", V)
    p, q = ex.as_set(o).mem, ex.as_set(a[0]).mem
    return Sym("bool", z3.ForAll([x], z3.Implies(z3.Select(q, x), z3.Select(p, x))))


def s_isdisjoint(ex, o, a, kw):
    x = z3.Const("x!s", V)
    p, q = ex.as_set(o).mem, ex.as_set(a[0]).mem
    return Sym("bool", z3.ForAll([x], z3.Not(z3.And(z3.Select(p, x), z3.Select(q, x)))))


SET_M = {"add": s_add, "discard": s_discard, "remove": s_remove, "pop": s_pop, "update": s_update, "clear": s_clear, "copy": s_copy,
         "union": s_union, "intersection": s_inter, "difference": s_diff, "difference_update": s_diff_update,
         "intersection_update": s_inter_update, "issubset": s_issubset, "issuperset": s_issuperset, "isdisjoint": s_isdisjoint}


# maps
def m_get(ex, o, a, kw):
    c = ex.cell(o)
    kt = ex.box(a[0])
    dflt = a[1] if len(a) > 1 else kw.get("default", NONE)
    if ex.branch(z3.Select(c.dom, kt)):
        return ex.map_value(o, c, kt)
    return dflt


def m_pop(ex, o, a, kw):
    c = ex.cell(o)
    kt = ex.box(a[0])
    if ex.branch(z3.Select(c.dom, kt)):
        terms = [z3.Select(x, kt) for x in c.vals]
        v = ex.unpack(c.dv, terms)
        new = z3.Store(c.dom, kt, z3.BoolVal(False))
        ex.card_step(c.dom, new, kt, False)
        ex.set_cell(o, MapC(new, c.vals, c.dk, c.dv, c.default))
        return v
    if len(a) > 1:
        return a[1]
    ex.raise_("KeyError")


def m_setdefault(ex, o, a, kw):
    c = ex.cell(o)
    kt = ex.box(a[0])
    terms = ex.pack(a[1] if len(a) > 1 else NONE, c.dv)
    vals = [z3.Store(x, kt, z3.If(z3.Select(c.dom, kt), z3.Select(x, kt), t)) for x, t in zip(c.vals, terms)]
    new = z3.Store(c.dom, kt, z3.BoolVal(True))
    ex.card_step(c.dom, new, kt, True)
    ex.set_cell(o, MapC(new, vals, c.dk, c.dv, c.default))
    return ex.map_value(o, ex.cell(o), kt)


def m_keys(ex, o, a, kw):
    c = ex.cell(o)
    return DomainVal(set_dom(ex, c.dom, c.dk, src=o))


def m_items(ex, o, a, kw):
    c = ex.cell(o)
    d = set_dom(ex, c.dom, c.dk, src=o, elem=lambda ex, b: Tup([ex.unbox(c.dk, b), ex.map_value(o, ex.cell(o) if is_container(c.dv) else c, b)]),
                edesc=("tup", c.dk, c.dv))
    d.is_keys = False
    return DomainVal(d)


def m_values(ex, o, a, kw):
    c = ex.cell(o)
    d = set_dom(ex, c.dom, c.dk, src=o, elem=lambda ex, b: ex.map_value(o, ex.cell(o) if is_container(c.dv) else c, b), edesc=c.dv)
    d.is_keys = False
    return DomainVal(d)


def m_update(ex, o, a, kw):
    from .loops import for_rule
    for x in a:
        if isinstance(x, (Ref, Place)):
            c2 = ex.cell(x)
            if c2.kind == "dict":
                for k, v in c2.items:
                    ex.setitem(o, k, v)
                continue
            if c2.kind == "map":
                c = ex.cell(o)
                if c.kind == "dict":
                    hint = getattr(c, "hint", None)
                    ex.to_map(o, hint[1] if hint else c2.dk, hint[2] if hint else c2.dv)
                    c = ex.cell(o)
                if comps(c.dv) != comps(c2.dv):
                    raise Unsupported("dict.update with different value type")
                k = z3.Const("k!u", V)
                dom = ex.bulk("upd", c.dom, [k], z3.Select(c2.dom, k), k, z3.BoolVal(True))
                vals = [ex.bulk("updv", p, [k], z3.Select(c2.dom, k), k, z3.Select(q, k)) for p, q in zip(c.vals, c2.vals)]
                ex.set_cell(o, MapC(dom, vals, c.dk, c.dv, c.default))
                continue
        def leaf(e):
            k, v = ex.tuple_items(e, 2)
            ex.setitem(o, k, v)
        if isinstance(x, Sym):
            m = ex.find_method(x, "items")
            if m is not None:
                x = ex.call(m, [], {})
        for_rule(ex, x, leaf, "dict.update", None, None)
    for k, v in kw.items():
        ex.setitem(o, Const(k), v)
    return NONE


def m_clear(ex, o, a, kw):
    c = ex.cell(o)
    ex.set_cell(o, MapC(FALSE_SET, c.vals, c.dk, c.dv, c.default))
    return NONE


MAP_M = {"get": m_get, "pop": m_pop, "setdefault": m_setdefault, "keys": m_keys, "items": m_items, "values": m_values, "update": m_update,
         "clear": m_clear, "copy": s_copy}


# concrete dicts
def d_get(ex, o, a, kw):
    c = ex.cell(o)
    for k, v in c.items:
        if ex.branch(ex.eq(a[0], k)):
            return v
    return a[1] if len(a) > 1 else NONE


def d_pop(ex, o, a, kw):
    c = ex.cell(o)
    for n, (k, v) in enumerate(c.items):
        if ex.branch(ex.eq(a[0], k)):
            ex.delitem(o, k)
            return v
    if len(a) > 1:
        return a[1]
    ex.raise_("KeyError")


def d_setdefault(ex, o, a, kw):
    c = ex.cell(o)
    v = a[1] if len(a) > 1 else NONE
    if not isinstance(a[0], Const) or getattr(c, "hint", None) is not None:
        hint = getattr(c, "hint", None)
        if hint is None and isinstance(v, Ref) and ex.cell(v).kind == "list" and not ex.cell(v).items:
            vd = ("seq", ex.ctx.default_list_desc)
        else:
            vd = hint[2] if hint else ex.desc_of(v)
        ex.to_map(o, hint[1] if hint else ex.desc_of(a[0]), vd)
        return m_setdefault(ex, o, a, kw)
    for k, x in c.items:
        if ex.branch(ex.eq(a[0], k)):
            return x
    ex.setitem(o, a[0], v)
    return v


DICT_M = {"get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": m_update, "copy": s_copy,
          "keys": lambda ex, o, a, kw: DomainVal(Concrete([k for k, _ in ex.cell(o).items])),
          "values": lambda ex, o, a, kw: DomainVal(Concrete([v for _, v in ex.cell(o).items])),
          "items": lambda ex, o, a, kw: DomainVal(Concrete([Tup([k, v]) for k, v in ex.cell(o).items])),
          "clear": lambda ex, o, a, kw: (ex.heap.__setitem__(o.addr, DictC([], ex.cell(o).default)), NONE)[1]}


# lists
def l_append(ex, o, a, kw):
    c = ex.cell(o)
    n = ListC([*c.items, a[0]])
    n.hint = getattr(c, "hint", None)
    ex.heap[o.addr] = n
    return NONE


def l_extend(ex, o, a, kw):
    from .loops import for_rule
    x = a[0]
    if isinstance(x, (Ref, Place)) and ex.cell(x).kind == "seq":
        c = ex.cell(o)
        d = ex.cell(x).d
        if c.items:
            d = ex.join_desc([d, *[ex.desc_of(y) for y in c.items]])
        ex.heap[o.addr] = ex.symbolize(c, ("seq", d))
        return q_extend(ex, o, a, kw)
    for_rule(ex, x, lambda e: ex.call(ex.getattr(o, "append"), [e], {}), "extend", None, None)
    return NONE


def l_pop(ex, o, a, kw):
    c = ex.cell(o)
    i = a[0].v if a else -1
    if not c.items:
        ex.raise_("IndexError")
    items = list(c.items)
    v = items.pop(i)
    ex.heap[o.addr] = ListC(items)
    return v


def l_insert(ex, o, a, kw):
    c = ex.cell(o)
    items = list(c.items)
    items.insert(a[0].v, a[1])
    ex.heap[o.addr] = ListC(items)
    return NONE


def l_clear(ex, o, a, kw):
    n = ListC([])
    n.hint = getattr(ex.cell(o), "hint", None)
    ex.heap[o.addr] = n
    return NONE


def l_count(ex, o, a, kw):
    return Sym("int", z3.Sum([z3.If(ex.eq(x, a[0]), z3.IntVal(1), z3.IntVal(0)) for x in ex.cell(o).items] + [z3.IntVal(0)]))


LIST_M = {"append": l_append, "extend": l_extend, "pop": l_pop, "insert": l_insert, "copy": s_copy, "clear": l_clear, "count": l_count,
          "reverse": lambda ex, o, a, kw: (ex.heap.__setitem__(o.addr, ListC(list(reversed(ex.cell(o).items)))), NONE)[1]}


def q_append(ex, o, a, kw):
    c = ex.cell(o)
    terms = ex.pack(a[0], c.d)
    n = SeqC(z3.simplify(c.n + 1), [z3.Store(x, c.n, t) for x, t in zip(c.ats, terms)], c.d)
    if c.members is not None and c.d[0] == "val":
        n.members = z3.Store(c.members, terms[0], z3.BoolVal(True))
    ex.set_cell(o, n)
    return NONE


def q_extend(ex, o, a, kw):
    from .loops import for_rule
    x = a[0]
    c = ex.cell(o)
    if isinstance(x, (Ref, Place)) and ex.cell(x).kind == "seq":
        c2 = ex.cell(x)
        ats = []
        i = z3.Int("i!x")
        for p, q in zip(c.ats, c2.ats):
            na = ex.fresh("ext", p.sort())
            ex.assume(z3.ForAll([i], z3.Select(na, i) == z3.If(z3.And(i >= c.n, i < c.n + c2.n), z3.Select(q, i - c.n), z3.Select(p, i)),
                                patterns=[z3.Select(na, i)]))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c2.n), z3.Select(na, i + c.n) == z3.Select(q, i)), patterns=[z3.Select(q, i)]))
            ats.append(na)
        ex.assume(c2.n >= 0)
        ex.set_cell(o, SeqC(c.n + c2.n, ats, c.d))
        return NONE
    for_rule(ex, x, lambda e: ex.call(ex.getattr(o, "append"), [e], {}), "extend", None, None)
    return NONE


def q_pop(ex, o, a, kw):
    c = ex.cell(o)
    if not ex.branch(c.n > 0):
        ex.raise_("IndexError")
    if not a or isinstance(a[0], Const) and a[0].v == -1:
        v = ex.unpack(c.d, [z3.Select(x, c.n - 1) for x in c.ats])
        ex.set_cell(o, SeqC(c.n - 1, c.ats, c.d))
        return v
    if isinstance(a[0], Const) and a[0].v == 0:
        v = ex.unpack(c.d, [z3.Select(x, z3.IntVal(0)) for x in c.ats])
        r = ex.getslice(o, Const(1), None)
        rc = ex.cell(r)
        ex.set_cell(o, SeqC(c.n - 1, rc.ats, c.d))
        return v
    raise Unsupported("list.pop(i)")


def q_reverse(ex, o, a, kw):
    c = ex.cell(o)
    ats = []
    i = z3.Int("i!r")
    for p in c.ats:
        na = ex.fresh("rev", p.sort())
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), z3.Select(na, i) == z3.Select(p, c.n - 1 - i)), patterns=[z3.Select(na, i)]))
        ats.append(na)
    ex.set_cell(o, SeqC(c.n, ats, c.d))
    return NONE


def q_clear(ex, o, a, kw):
    c = ex.cell(o)
    ex.set_cell(o, SeqC(z3.IntVal(0), c.ats, c.d))
    return NONE


def q_sort(ex, o, a, kw):
    r = b_sorted(ex, [o], kw)
    ex.set_cell(o, ex.cell(r))
    return NONE


SEQ_M = {"append": q_append, "extend": q_extend, "pop": q_pop, "copy": s_copy, "reverse": q_reverse, "clear": q_clear, "sort": q_sort}


# ------------------------------------------------------------------------------------------ builtins

def b_len(ex, a, kw):
    v = a[0]
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Const):
        return Const(len(v.v))
    if isinstance(v, DomainVal):
        d = v.dom
        if isinstance(d, Concrete):
            return Const(len(d.items))
        if isinstance(d, Dom) and d.count is not None:
            if d.mem is not None:
                ex.card_facts(d.mem)
            return Sym("int", d.count)
    if isinstance(v, (Ref, Place)):
        c = ex.cell(v)
        if c.kind in ("list", "dict"):
            return Const(len(c.items))
        if c.kind == "seq":
            ex.assume(c.n >= 0)
            return Sym("int", c.n)
        if c.kind in ("set", "map"):
            mem = c.mem if c.kind == "set" else c.dom
            ex.card_facts(mem)
            st = store_chain(mem)
            return Sym("int", card(mem))
        if c.kind == "obj":
            m = ex.find_method(v, "__len__")
            if m is not None:
                return ex.call(m, [], {})
    if isinstance(v, Sym) and v.kind == "val":
        m = ex.find_method(v, "__len__")
        if m is not None:
            return ex.call(m, [], {})
        if v.ty in ("str", "bytes"):
            t = z3.Function("str.len", V, INT)(v.t)
            ex.assume(t >= 0)
            return Sym("int", t)
    raise Unsupported(f"len of {v}")


def pure_formula(ex, dom, leaf):
    """Evaluate leaf(elem) under a bound variable; returns (b, [(cond, truth)], facts) or None if impure."""
    if not isinstance(dom, Dom):
        return None
    b = z3.Const(f"q{len(ex.bvars)}!{ex.counter}", dom.sort)
    snap_heap, snap_fields = dict(ex.heap), dict(ex.fields)
    base = len(ex.pc)

    def run():
        ex.bvars.append(b)
        ex.pc.append(("dec", dom.member(b)))
        return leaf(dom.elem(ex, b))
    try:
        paths = ex.explore(run)
    finally:
        pass
    out, facts = [], []
    for p in paths:
        if p.kind != "ok":
            return None
        if any(p.snap.heap.get(k) is not v for k, v in snap_heap.items()):
            return None
        if any(not same_field(p.snap.fields.get(k), v) for k, v in snap_fields.items()):
            return None
        decs = [f for k, f in p.snap.pc[base:] if k == "dec"]
        fs = [f for k, f in p.snap.pc[base:] if k == "fact"]
        out.append((z3.And(*decs) if decs else z3.BoolVal(True), p.value))
        for f in fs:
            facts.append(z3.ForAll([b], z3.Implies(z3.And(*decs), f)))
    ex.counter = max(ex.counter, ex.hi)
    for f in facts:
        ex.assume(f)
    return b, out


def same_field(a, b):
    return a is b or a is not None and all(x.eq(y) for x, y in zip(a[0], b[0]))


def quant(ex, v, want_any, leaf=None):
    leaf = leaf or (lambda x: x)
    if isinstance(v, GenVal) and len(v.node.generators) >= 1:
        return quant_gen(ex, v, want_any)
    dom = to_dom(ex, v)
    if isinstance(dom, Concrete):
        for x in dom.items:
            t = ex.truth(leaf(x))
            if want_any and ex.branch(t):
                return TRUE
            if not want_any and not ex.branch(t):
                return FALSE
        return FALSE if want_any else TRUE
    r = pure_formula(ex, dom, lambda x: ex.truth(leaf(x)))
    if r is not None:
        b, cases = r
        if want_any:
            return Sym("bool", z3.Exists([b], z3.Or(*[z3.And(c, t) for c, t in cases])))
        return Sym("bool", z3.ForAll([b], z3.And(*[z3.Implies(c, t) for c, t in cases])))
    return quant_loop(ex, v, want_any)


def quant_gen(ex, g, want_any):
    e, fr = g.node, g.fr
    sub = E.Frame(E.Func(e, fr.func.mod, fr.func.cls, closure=fr, name="<genexp>"))
    ex.frames.append(sub)
    try:
        def level(i):
            if i == len(e.generators):
                t = ex.truth_of(e.elt, sub)
                return Sym("bool", t)
            gen = e.generators[i]
            it = ex.eval(gen.iter, sub if i else fr)

            def leaf(x):
                ex.assign(gen.target, x, sub)
                for c in gen.ifs:
                    if not ex.branch(ex.truth_of(c, sub)):
                        return Const(not want_any)
                return level(i + 1)
            dom = to_dom(ex, it)
            if isinstance(dom, Concrete):
                ts = []
                for x in dom.items:
                    t = ex.truth(leaf(x))
                    if want_any and ex.branch(t):
                        return TRUE
                    if not want_any and not ex.branch(t):
                        return FALSE
                return Const(not want_any)
            if isinstance(dom, Concat):
                for part in dom.parts:
                    r = quant(ex, DomainVal(part), want_any, leaf)
                    if ex.branch(ex.truth(r)) == want_any:
                        return Const(want_any)
                return Const(not want_any)
            r = pure_formula(ex, dom, lambda x: ex.truth(leaf(x)))
            if r is None:
                raise Impure
            b, cases = r
            if want_any:
                return Sym("bool", z3.Exists([b], z3.Or(*[z3.And(c, t) for c, t in cases])))
            return Sym("bool", z3.ForAll([b], z3.And(*[z3.Implies(c, t) for c, t in cases])))
        try:
            return level(0)
        except Impure:
            return quant_loop(ex, g, want_any)
    finally:
        ex.frames = [x for x in ex.frames if x is not sub]


class Impure(Exception):
    pass


def quant_loop(ex, v, want_any):
    from .loops import for_rule

    def leaf(x):
        if ex.branch(ex.truth(x)) == want_any:
            raise E.PyBreak()
    try:
        for_rule(ex, v, leaf, "any/all", None, None)
    except E.PyBreak:
        return Const(want_any)
    return Const(not want_any)


def b_any(ex, a, kw):
    return quant(ex, a[0], True)


def b_all(ex, a, kw):
    return quant(ex, a[0], False)


def le_rel(ex, d):
    """Total order used by sorted() on elements of descriptor d (terms)."""
    if d[0] in ("int", "real"):
        return lambda x, y: x[0] <= y[0]
    f = z3.Function("py_le", V, V, BOOL)
    return None


def b_sorted(ex, a, kw):
    v = a[0]
    if isinstance(v, (GenVal, DomainVal)):
        v = ex.materialize_seq(v if isinstance(v, DomainVal) and False else v)
    if isinstance(v, Tup):
        v = ex.alloc(ListC(v.items))
    c = ex.cell(v) if isinstance(v, (Ref, Place)) else None
    if c is None or c.kind in ("set", "map", "obj"):
        v = ex.materialize_seq(v)
        c = ex.cell(v)
    if c.kind in ("list", "dict"):
        if c.kind == "dict":
            c = ListC([k for k, _ in c.items])
        if len(c.items) <= 1:
            return ex.alloc(ListC(c.items))
        if all(isinstance(x, Const) for x in c.items) and "key" not in kw:
            return ex.alloc(ListC([Const(x) for x in sorted(i.v for i in c.items)]))
        c = ex.symbolize(c, ("seq", ex.join_desc([ex.desc_of(x) for x in c.items])))
    # permutation p of c, ordered by key
    n = c.n
    p = ex.fresh_fn("perm", INT, INT)
    q = ex.fresh_fn("perminv", INT, INT)
    i, j = z3.Ints("i!so j!so")
    rng = lambda t: z3.And(0 <= t, t < n)
    ats = []
    for arr in c.ats:
        na = ex.fresh("sorted", arr.sort())
        ex.assume(z3.ForAll([i], z3.Implies(rng(i), z3.Select(na, i) == z3.Select(arr, p(i))), patterns=[z3.Select(na, i)]))
        ex.assume(z3.ForAll([i], z3.Implies(rng(i), z3.Select(na, q(i)) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
        ats.append(na)
    ex.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    ex.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    r = ex.alloc(SeqC(n, ats, c.d))
    key = kw.get("key")
    rev = kw.get("reverse")
    if rev is None or isinstance(rev, Const):
        bi, bj = z3.Int("i!o"), z3.Int("j!o")
        rc = ex.cell(r)

        def order():
            def kv(b):
                e = ex.seq_elem(r, rc, b)
                return ex.call(key, [e], {}) if key is not None and not (isinstance(key, Const)) else e
            return ex.compare(ast.LtE(), kv(bi), kv(bj))
        try:
            paths = ex.explore(order)
            if len(paths) == 1 and paths[0].kind == "ok":
                t = paths[0].value
                if rev is not None and rev.v:
                    t = z3.substitute(t, (bi, bj), (bj, bi))
                if len(paths[0].snap.pc) == len(ex.pc):
                    ex.assume(z3.ForAll([bi, bj], z3.Implies(z3.And(0 <= bi, bi <= bj, bj < n), t)))
        except Unsupported:
            ex.notes.add("sorted(): ordering of opaque keys not modelled (permutation only)")
    return r


def b_isinstance(ex, a, kw):
    return Sym("bool", ex.isinstance_(a[0], a[1]))


def b_range(ex, a, kw):
    if all(isinstance(x, Const) for x in a):
        return DomainVal(Concrete([Const(i) for i in range(*[x.v for x in a])]))
    if len(a) == 3:
        raise Unsupported("range step")
    lo, hi = (z3.IntVal(0), ex.as_int(a[0])) if len(a) == 1 else (ex.as_int(a[0]), ex.as_int(a[1]))
    return DomainVal(Dom(INT, lambda b: z3.And(lo <= b, b < hi), lambda ex, b: Sym("int", b), z3.If(hi > lo, hi - lo, z3.IntVal(0)), True, lo=lo, hi=hi, edesc=("int",)))


def ordered_dom(ex, v):
    d = to_dom(ex, v)
    if isinstance(d, Dom) and not d.ordered:
        r = ex.materialize_seq(v)
        return to_dom(ex, r)
    if isinstance(d, (Nest, Concat)):
        return to_dom(ex, ex.materialize_seq(v))
    return d


def b_enumerate(ex, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", Const(0))
    d = ordered_dom(ex, a[0])
    if isinstance(d, Concrete):
        return DomainVal(Concrete([Tup([ex.binop(ast.Add(), Const(i), start), x]) for i, x in enumerate(d.items)]))
    s = ex.as_int(start)
    return DomainVal(Dom(INT, d.member, lambda ex, b: Tup([Sym("int", z3.simplify(b - d.lo + s)), d.elem(ex, b)]), d.count, True, d.src, lo=d.lo, hi=d.hi))


def b_zip(ex, a, kw):
    ds = [ordered_dom(ex, x) for x in a]
    strict = kw.get("strict")
    if all(isinstance(d, Concrete) for d in ds):
        lens = {len(d.items) for d in ds}
        if len(lens) > 1 and strict is not None and strict.v:
            ex.raise_("ValueError")
        return DomainVal(Concrete([Tup(t) for t in zip(*[d.items for d in ds])]))
    if any(isinstance(d, Concrete) for d in ds):
        raise Unsupported("zip of concrete and symbolic")
    if strict is not None and strict.v:
        for d in ds[1:]:
            if not ex.branch(d.hi - d.lo == ds[0].hi - ds[0].lo):
                ex.raise_("ValueError")
        hi = ds[0].hi
    else:
        hi = ds[0].hi - ds[0].lo
        for d in ds[1:]:
            h = d.hi - d.lo
            hi = z3.If(h < hi, h, hi)
        hi = z3.simplify(hi + ds[0].lo)
    lo = ds[0].lo
    return DomainVal(Dom(INT, lambda b: z3.And(lo <= b, b < hi), lambda ex, b: Tup([d.elem(ex, z3.simplify(b - lo + d.lo)) for d in ds]), hi - lo, True, lo=lo, hi=hi))


def b_reversed(ex, a, kw):
    d = ordered_dom(ex, a[0])
    if isinstance(d, Concrete):
        return DomainVal(Concrete(list(reversed(d.items))))
    return DomainVal(Dom(INT, d.member, lambda ex, b: d.elem(ex, d.lo + d.hi - 1 - b), d.count, True, d.src, lo=d.lo, hi=d.hi))


def b_iter(ex, a, kw):
    return a[0] if isinstance(a[0], (DomainVal, GenVal)) else DomainVal(to_dom(ex, a[0]))


def b_next(ex, a, kw):
    from .loops import for_rule
    m = ex.find_method(a[0], "__next__") if isinstance(a[0], (Ref, Sym)) else None
    if m is not None:
        if len(a) == 1:
            return ex.call(m, [], {})
        try:
            return ex.call(m, [], {})
        except PyRaise as e:
            if e.exc.cls == "StopIteration":
                return a[1]
            raise
    box = []

    def leaf(x):
        box.append(x)
        raise E.PyBreak()
    try:
        for_rule(ex, a[0], leaf, "next", None, None)
    except E.PyBreak:
        return box[-1]
    if len(a) > 1:
        return a[1]
    ex.raise_("StopIteration")


def b_getattr(ex, a, kw):
    if isinstance(a[1], Const):
        if len(a) > 2:
            try:
                return ex.getattr(a[0], a[1].v)
            except PyRaise as e:
                if e.exc.cls == "AttributeError":
                    return a[2]
                raise
        return ex.getattr(a[0], a[1].v)
    raise Unsupported("getattr with symbolic name")


def b_setattr(ex, a, kw):
    if isinstance(a[1], Const):
        ex.setattr(a[0], a[1].v, a[2])
        return NONE
    raise Unsupported("setattr with symbolic name")


def b_sum(ex, a, kw):
    from .loops import for_rule
    acc = ex.alloc(E.ObjC(ClassVal("_acc"), {"v": a[1] if len(a) > 1 else kw.get("start", Const(0))}))

    def leaf(x):
        c = ex.heap[acc.addr]
        ex.heap[acc.addr] = E.ObjC(c.cls, {"v": ex.binop(ast.Add(), c.fields["v"], x)})
    for_rule(ex, a[0], leaf, "sum", None, None)
    return ex.heap[acc.addr].fields["v"]


def b_minmax(which):
    def f(ex, a, kw):
        from .loops import for_rule
        if len(a) > 1:
            r = a[0]
            for x in a[1:]:
                op = ast.Lt() if which == "min" else ast.Gt()
                if isinstance(r, (Const, Sym)) and isinstance(x, (Const, Sym)) and "key" not in kw:
                    if isinstance(r, Const) and isinstance(x, Const):
                        r = Const(min(r.v, x.v) if which == "min" else max(r.v, x.v))
                    elif ex.is_real(r) or ex.is_real(x):
                        p, q = ex.as_real(r), ex.as_real(x)
                        r = Sym("real", z3.If(q < p if which == "min" else q > p, q, p))
                    else:
                        p, q = ex.as_int(r), ex.as_int(x)
                        r = Sym("int", z3.If(q < p if which == "min" else q > p, q, p))
                elif ex.branch(ex.compare(op, x, r)):
                    r = x
            return r
        # iterable: an element that bounds all others
        v = ex.materialize_seq(a[0])
        c = ex.cell(v)
        if c.kind == "list":
            if not c.items:
                if "default" in kw:
                    return kw["default"]
                ex.raise_("ValueError")
            return f(ex, c.items if len(c.items) > 1 else [c.items[0], c.items[0]], kw)
        if not ex.branch(c.n > 0):
            if "default" in kw:
                return kw["default"]
            ex.raise_("ValueError")
        w = ex.fresh("arg" + which, INT)
        ex.assume(z3.And(0 <= w, w < c.n))
        r = ex.seq_elem(v, c, w)
        i = z3.Int("i!mm")
        key = kw.get("key")
        e = ex.seq_elem(v, c, i)
        kk = (lambda z: ex.call(key, [z], {})) if key is not None else (lambda z: z)
        cmp = ex.compare(ast.LtE() if which == "min" else ast.GtE(), kk(r), kk(e))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), cmp)))
        return r
    return f


def b_abs(ex, a, kw):
    v = a[0]
    if isinstance(v, Const):
        return Const(abs(v.v))
    return Sym(v.kind, z3.If(v.t < 0, -v.t, v.t))


def b_hash(ex, a, kw):
    return Sym("int", z3.Function("py_hash", V, INT)(ex.box(a[0])))


def b_id(ex, a, kw):
    return Sym("int", z3.Function("py_id", V, INT)(ex.box(a[0])))


def b_callable(ex, a, kw):
    if isinstance(a[0], (Func, Stub, ClassVal)):
        return TRUE
    raise Unsupported("callable")


def b_type(ex, a, kw):
    v = a[0]
    if isinstance(v, Ref) and ex.heap[v.addr].kind == "obj":
        return ex.heap[v.addr].cls
    raise Unsupported(f"type of {v}")


def b_fromkeys(ex, a, kw):
    from .loops import for_rule
    r = ex.alloc(DictC([]))
    v = a[1] if len(a) > 1 else NONE
    for_rule(ex, a[0], lambda k: ex.setitem(r, k, v), "fromkeys", None, None)
    return r


def b_map(ex, a, kw):
    src = a[1]
    return DomainVal(Nest(lambda body: _for(ex, src, lambda x: body(ex.call(a[0], [x], {})))))


def b_filter(ex, a, kw):
    src = a[1]

    def run(body):
        def leaf(x):
            t = ex.truth(x) if isinstance(a[0], Const) and a[0].v is None else ex.truth(ex.call(a[0], [x], {}))
            if ex.branch(t):
                body(x)
        _for(ex, src, leaf)
    return DomainVal(Nest(run))


def _for(ex, src, leaf):
    from .loops import for_rule
    for_rule(ex, src, leaf, "iter", None, None)


def b_chain(ex, a, kw):
    parts = []
    for x in a:
        if isinstance(x, StarArg):
            return b_chain_from(ex, [x.v], {})
        parts.append(to_dom(ex, x))
    return DomainVal(Concat(parts))


b_chain.star_ok = True


def b_chain_from(ex, a, kw):
    src = a[0]
    r = Nest(lambda body: _for(ex, src, lambda inner: _for(ex, inner, body)))
    d = src.dom if isinstance(src, DomainVal) else None
    if isinstance(d, Dom) and not getattr(d, "is_keys", True) and isinstance(d.edesc, tuple) and d.edesc[0] == "set" and isinstance(d.src, (Ref, Place)):
        c = ex.cell(d.src)
        r.union = (c.dom, c.vals[0], d.edesc[1])
    return DomainVal(r)


def b_print(ex, a, kw):
    return NONE


def b_cast(ex, a, kw):
    v = a[1]
    if isinstance(v, Sym) and v.kind == "val" and isinstance(a[0], ClassVal) and a[0].name in ex.ctx.classes:
        return Sym("val", v.t, a[0].name)
    return v


def b_hasattr(ex, a, kw):
    raise Unsupported("hasattr")


def b_super(ex, a, kw):
    raise Unsupported("super()")


E.BUILTINS.update({
    "len": b_len, "any": b_any, "all": b_all, "sorted": b_sorted, "isinstance": b_isinstance, "range": b_range, "enumerate": b_enumerate,
    "zip": b_zip, "reversed": b_reversed, "iter": b_iter, "next": b_next, "getattr": b_getattr, "setattr": b_setattr, "sum": b_sum,
    "min": b_minmax("min"), "max": b_minmax("max"), "abs": b_abs, "hash": b_hash, "id": b_id, "callable": b_callable, "map": b_map,
    "filter": b_filter, "print": b_print, "hasattr": b_hasattr, "super": b_super, "issubclass": lambda ex, a, kw: Sym("bool", z3.BoolVal(ex.exc_is(a[0].name, a[1].name))),
})


def c_set(ex, args, kw):
    if not args:
        return ex.alloc(SetC(FALSE_SET, None))
    v = args[0]
    if isinstance(v, (GenVal, DomainVal)) or isinstance(v, (Ref, Place)) and ex.cell(v).kind in ("seq", "obj"):
        s = ex.as_set(v)
        return ex.alloc(SetC(s.mem, s.d))
    s = ex.as_set(v)
    return ex.alloc(SetC(s.mem, s.d))


def c_list(ex, args, kw):
    if not args:
        return ex.alloc(ListC([]))
    return ex.materialize_seq(args[0])


def c_tuple(ex, args, kw):
    if not args:
        return Tup([])
    v = args[0]
    d = to_dom(ex, v) if not isinstance(v, GenVal) else None
    if isinstance(d, Concrete):
        return Tup(d.items)
    r = ex.materialize_seq(v)
    if ex.cell(r).kind == "list":
        return Tup(ex.cell(r).items)
    return r


def c_dict(ex, args, kw):
    r = ex.alloc(DictC([]))
    if args:
        v = args[0]
        if isinstance(v, (Ref, Place)) and ex.cell(v).kind in ("map", "dict"):
            c = ex.cell(v)
            if c.kind == "map":
                r = ex.alloc(MapC(c.dom, c.vals, c.dk, c.dv))
            else:
                r = ex.copy_container(v)
        else:
            m_update(ex, r, [v], {})
    if kw:
        for k, v in kw.items():
            ex.setitem(r, Const(k), v)
    return r


def c_int(ex, args, kw):
    if not args:
        return Const(0)
    v = args[0]
    if isinstance(v, Sym) and v.kind == "int":
        return v
    if isinstance(v, Sym) and v.kind == "bool":
        return Sym("int", ex.as_int(v))
    if isinstance(v, Const) and isinstance(v.v, (int, bool, str)):
        try:
            return Const(int(v.v))
        except ValueError:
            ex.raise_("ValueError")
    if isinstance(v, Sym) and v.kind == "real":
        return Sym("int", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    st = ex.ctx.stubs.get("int()")
    if st:
        return st(ex, args, kw)
    raise Unsupported(f"int({v})")


def c_str(ex, args, kw):
    if not args:
        return Const("")
    v = args[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        return v
    if isinstance(v, Sym) and v.kind == "val" and v.ty == "str":
        return v
    try:
        return Sym("val", z3.Function("py_str", V, V)(ex.box(v)), "str")
    except Unsupported:
        return Sym("val", ex.fresh("str", V), "str")


def c_bool(ex, args, kw):
    if not args:
        return FALSE
    return Sym("bool", ex.truth(args[0]))


def c_float(ex, args, kw):
    return Sym("real", ex.as_real(args[0]))


def c_defaultdict(ex, args, kw):
    return ex.alloc(DictC([], args[0] if args else None))


def c_deque(ex, args, kw):
    return c_list(ex, args, kw)


def c_counter(ex, args, kw):
    if args:
        raise Unsupported("Counter(iterable)")
    return ex.alloc(DictC([], ClassVal("int")))


E.CONVERSIONS.update({"set": c_set, "frozenset": c_set, "list": c_list, "tuple": c_tuple, "dict": c_dict, "int": c_int, "str": c_str, "bool": c_bool,
                      "float": c_float})


def i_to_bytes(ex, o, a, kw):
    st = ex.ctx.stubs.get("int.to_bytes")
    if st is None:
        raise Unsupported("int.to_bytes")
    return st(ex, [o, *a], kw)


def i_bit_length(ex, o, a, kw):
    st = ex.ctx.stubs.get("int.bit_length")
    if st is not None:
        return st(ex, [o, *a], kw)
    if isinstance(o, Const):
        return Const(o.v.bit_length())
    x = o.t
    r = ex.fresh("bitlen", INT)
    ex.assume(r >= 0)
    ax = z3.If(x < 0, -x, x)
    ex.assume(ax < E.pow2(r))
    ex.assume(z3.Implies(r > 0, E.pow2(r - 1) <= ax))
    return Sym("int", r)


E.INT_METHODS.update({"to_bytes": i_to_bytes, "bit_length": i_bit_length})

_ch = Stub(b_chain, "chain")
E.EXTERNAL.update({
    "itertools.chain": _ch, "itertools.chain.from_iterable": Stub(b_chain_from, "chain.from_iterable"),
    "collections.defaultdict": Stub(c_defaultdict, "defaultdict"), "collections.deque": Stub(c_deque, "deque"),
    "collections.Counter": Stub(c_counter, "Counter"),
    "typing.cast": Stub(b_cast, "cast"), "copy.copy": Stub(lambda ex, a, kw: ex.copy_any(a[0]), "copy"),
    "contextlib.nullcontext": Stub(lambda ex, a, kw: ContextManager(lambda ex: a[0] if a else NONE), "nullcontext"),
    "typing.TYPE_CHECKING": FALSE,
})


@_add
def copy_any(self, v):
    if isinstance(v, (Ref, Place)):
        c = self.cell(v)
        if c.kind == "obj" and c.ident is None:
            return self.alloc(ObjC(c.cls, dict(c.fields)))
        return self.copy_container(v)
    raise Unsupported("copy")
