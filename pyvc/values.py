"""Symbolic values, type descriptors, heap cells."""
from __future__ import annotations

import re
import z3
from .smt import V, INT, BOOL, REAL, VSET, tup_term, tup_proj, str_const, enum_const, obj_const


class Unsupported(Exception):
    """The code left the subset the generator understands."""


# ---- descriptors -----------------------------------------------------------------------------

def D(s):
    """Parse a descriptor: int, bool, real, Name (opaque), seq[d], set[d], map[k,v], tup[a,b]."""
    if not isinstance(s, str):
        return s
    toks = re.findall(r"[A-Za-z_][A-Za-z_0-9.?]*|[\[\],]", s)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in ("int", "bool", "real"):
            return (t,)
        if t in ("seq", "set", "map", "tup"):
            assert toks[pos] == "["
            pos += 1
            args = [parse()]
            while toks[pos] == ",":
                pos += 1
                args.append(parse())
            assert toks[pos] == "]"
            pos += 1
            return (t, *args)
        return ("val", t)

    r = parse()
    assert pos == len(toks), s
    return r


def comps(d):
    k = d[0]
    if k == "int":
        return [INT]
    if k == "bool":
        return [BOOL]
    if k == "real":
        return [REAL]
    if k == "val":
        return [V]
    if k == "tup":
        return [c for x in d[1:] for c in comps(x)]
    if k == "set":
        return [VSET]
    if k == "seq":
        return [INT] + [z3.ArraySort(INT, c) for c in comps(d[1])]
    if k == "map":
        return [VSET] + [z3.ArraySort(V, c) for c in comps(d[2])]
    raise Unsupported(f"descriptor {d}")


def is_container(d):
    return d[0] in ("set", "seq", "map")


# ---- values ------------------------------------------------------------------------------------

class Val:
    pass


class Const(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Const({self.v!r})"


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


class Sym(Val):
    __slots__ = ("kind", "t", "ty")

    def __init__(self, kind, t, ty=None):
        self.kind, self.t, self.ty = kind, t, ty

    def __repr__(self):
        return f"Sym({self.kind},{self.t},{self.ty})"


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Ref(Val):
    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"Ref({self.addr})"


class Place(Val):
    """A container living inside another container or a field: base[key]."""

    def __init__(self, base, key, d):
        self.off = None                              # offset of the component if the place is an item of a stored tuple
        self.base, self.key, self.d = base, key, d   # base: Ref | Place | ('field', ty, attr)

    def __repr__(self):
        return f"Place({self.base},{self.key})"


class Undef(Val):
    def __init__(self, why="undefined"):
        self.why = why


class Stub(Val):
    def __init__(self, fn, name, lazy=False):
        self.fn, self.name, self.lazy = fn, name, lazy


class Func(Val):
    """A function of the repository (or a lambda / nested def) to be executed from its AST."""

    def __init__(self, node, mod, cls=None, selfv=None, closure=None, name=None, clsval=None):
        self.node, self.mod, self.cls, self.selfv, self.closure = node, mod, cls, selfv, closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.clsval = clsval


class ClassVal(Val):
    def __init__(self, name, mod=None, node=None):
        self.name, self.mod, self.node = name, mod, node

    def __repr__(self):
        return f"Class({self.name})"


class ModVal(Val):
    def __init__(self, mod):
        self.mod = mod


class ExtMod(Val):
    """External module / unresolved dotted name, resolved through the stub table."""

    def __init__(self, path):
        self.path = path

    @property
    def name(self):
        return self.path.split(".")[-1]


class Noop(Val):
    """Logger-like object: calls do nothing."""


class ExcVal(Val):
    def __init__(self, cls, args=(), fields=None):
        self.cls, self.args, self.fields = cls, args, fields or {}

    def __repr__(self):
        return f"Exc({self.cls})"


class DomainVal(Val):
    """A lazily iterated thing (generator expression, .items(), chain...)."""

    def __init__(self, dom):
        self.dom = dom


# ---- heap cells (immutable; updates replace them) -------------------------------------------------

class SetC:
    kind = "set"

    def __init__(self, mem, d):
        self.mem, self.d = mem, d

    @property
    def desc(self):
        return ("set", self.d)

    def terms(self):
        return [self.mem]


class MapC:
    kind = "map"

    def __init__(self, dom, vals, dk, dv, default=None):
        self.dom, self.vals, self.dk, self.dv, self.default = dom, list(vals), dk, dv, default

    @property
    def desc(self):
        return ("map", self.dk, self.dv)

    def terms(self):
        return [self.dom, *self.vals]


class SeqC:
    kind = "seq"

    def __init__(self, n, ats, d):
        self.n, self.ats, self.d = n, list(ats), d
        self.members = None          # the set of elements, where it is known
        self.distinct = False        # an enumeration of members without repetition

    @property
    def desc(self):
        return ("seq", self.d)

    def terms(self):
        return [self.n, *self.ats]


class ObjC:
    kind = "obj"

    def __init__(self, cls, fields, ident=None):
        self.cls, self.fields, self.ident = cls, fields, ident


class ListC:
    """A python list/dict/set display whose element descriptor is still unknown (small, concrete)."""
    kind = "list"

    def __init__(self, items):
        self.items = list(items)


class DictC:
    kind = "dict"

    def __init__(self, items, default=None):
        self.items = list(items)      # list of (key Val, value Val) with concrete (Const) keys, or empty
        self.default = default


class EmptySetC:
    kind = "emptyset"


def cell_from_terms(desc, terms, default=None):
    if desc[0] == "set":
        return SetC(terms[0], desc[1])
    if desc[0] == "seq":
        return SeqC(terms[0], terms[1:], desc[1])
    if desc[0] == "map":
        return MapC(terms[0], terms[1:], desc[1], desc[2], default)
    raise Unsupported(str(desc))


def fresh_terms(fresh, name, desc):
    return [fresh(f"{name}.{i}", s) for i, s in enumerate(comps(desc))]
