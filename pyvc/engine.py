"""pyvc: symbolic execution of the repository's own Python functions against contracts.

The functions are parsed from /repo's current source on every run; nothing is copied or rewritten by hand.
Path conditions are split into branch decisions ('dec') and facts ('fact').
"""
from __future__ import annotations

import ast
import os
import z3

from . import smt
from .smt import V, INT, BOOL, REAL, VSET, str_const, enum_const, obj_const, tup_term, tup_proj, card
from .values import *
from .values import Val

REPO = os.environ.get("PYVC_REPO", "/repo")
BASE = os.path.join(REPO, "python/lsst/pipe/base")


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class PyReturn(Exception):
    def __init__(self, v):
        self.v = v


class PyBreak(Exception):
    pass


class PyContinue(Exception):
    pass


class PathAbort(Exception):
    """This path is infeasible or accounted for elsewhere."""


class Fail(Exception):
    """An internal obligation (loop invariant, callee precondition) was not established."""

    def __init__(self, name, info):
        self.name, self.info = name, info


EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "LookupError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "OSError": "Exception", "FileNotFoundError": "OSError",
    "AssertionError": "Exception", "StopIteration": "Exception", "AttributeError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "TimeoutError": "OSError", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException", "OverflowError": "ArithmeticError",
}


class Module:
    """A parsed repository source file."""
    cache: dict = {}

    def __init__(self, path):
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ("from", n.module or "", n.level, a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                for sub in (getattr(n, "body", []), getattr(n, "orelse", [])):
                    self._scan(sub)

    def repo_path(self, module, level):
        if level == 0:
            if module == "lsst.pipe.base" or module.startswith("lsst.pipe.base."):
                rel = module[len("lsst.pipe.base"):].strip(".").split(".")
                d = BASE
            else:
                return None
        else:
            d = os.path.dirname(self.path)
            for _ in range(level - 1):
                d = os.path.dirname(d)
            rel = module.split(".") if module else []
        p = os.path.join(d, *[r for r in rel if r])
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return None

    def find_method(self, cls, name):
        """Find cls.name following repository base classes; returns (FunctionDef, owning ClassDef, Module)."""
        seen = set()
        todo = [(cls, self)]
        while todo:
            c, m = todo.pop(0)
            if (c, m.path) in seen:
                continue
            seen.add((c, m.path))
            node = m.classes.get(c)
            if node is None:
                r = m.resolve_class(c)
                if r is None:
                    continue
                node, m = r
            for n in node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in n.decorator_list):
                        continue
                    if any((isinstance(d, ast.Name) and d.id == "overload") for d in n.decorator_list):
                        continue
                    return n, node, m
            for b in node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    todo.append((b.id, m))
        return None

    def resolve_class(self, name):
        if name in self.classes:
            return self.classes[name], self
        imp = self.imports.get(name)
        if imp and imp[0] == "from":
            p = self.repo_path(imp[1], imp[2])
            if p:
                m = get_module(p)
                if imp[3] in m.classes:
                    return m.classes[imp[3]], m
                if imp[3] in m.imports and m.path.endswith("__init__.py") and not (m is self and imp[3] == name):
                    return m.resolve_class(imp[3])
                # star imports of packages
                for n in m.tree.body:
                    if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                        p2 = m.repo_path(n.module or "", n.level)
                        if p2 and imp[3] in get_module(p2).classes:
                            return get_module(p2).classes[imp[3]], get_module(p2)
        return None


def get_module(path):
    if not path.startswith("/"):
        path = os.path.join(BASE, path)
    if path not in Module.cache:
        Module.cache[path] = Module(path)
    return Module.cache[path]


class Frame(dict):
    def __init__(self, func, **kw):
        super().__init__(**kw)
        self.func = func
        self.yields = None
        self.with_body = None
        self.nonlocals = set()


class Snapshot:
    def __init__(self, st):
        self.frames = [(f, dict(f)) for f in st.frames]
        self.heap = dict(st.heap)
        self.fields = dict(st.fields)
        self.pc = list(st.pc)
        self.counter = st.counter
        self.next_addr = st.next_addr
        self.moved = set(st.moved)
        self.bvars = list(st.bvars)
        self.handling = list(st.handling)
        self.ghost = dict(st.ghost)


class Path:
    def __init__(self, snap, kind, value):
        self.snap, self.kind, self.value = snap, kind, value    # kind: return, raise, ok, break, continue

    @property
    def pc(self):
        return [f for _, f in self.snap.pc]


_LOCALS = {}


def local_names(fn):
    """Names a function assigns: 'straight' if only outside loops, otherwise 'loop'."""
    r = _LOCALS.get(id(fn))
    if r is None:
        r = {}
        outer = set()

        def walk(n, inloop):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r[c.name] = "loop"
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for w in ast.walk(c):
                        if isinstance(w, ast.NamedExpr):
                            r[w.target.id] = "loop"
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    outer.update(c.names)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    outer.update((a.asname or a.name).split(".")[0] for a in c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    if inloop or r.get(c.id) == "loop" or isinstance(c.ctx, ast.Del):
                        r[c.id] = "loop"
                    else:
                        r[c.id] = "straight"
                if isinstance(c, ast.ExceptHandler) and c.name:
                    r[c.name] = "loop"
                walk(c, inloop or isinstance(c, (ast.For, ast.While, ast.Match)))
        for st in getattr(fn, "body", []) if isinstance(getattr(fn, "body", None), list) else []:
            walk(ast.Module([st], []), False)
        for n in outer:
            r.pop(n, None)
        _LOCALS[id(fn)] = r
    return r


class Exec:
    def __init__(self, ctx):
        self.ctx = ctx
        self.frames = []
        self.heap = {}
        self.fields = {}
        self.pc = []
        self.counter = 0
        self.hi = 0
        self.next_addr = 1
        self.moved = set()
        self.bvars = []
        self.handling = []
        self.ghost = {}
        self.trace = None
        self.alts = None
        self.depth = 0
        self.notes = set()

    # ---------------------------------------------------------------- state
    def restore(self, s):
        self.frames = [f for f, _ in s.frames]
        for f, c in s.frames:
            f.clear()
            f.update(c)
        self.heap = dict(s.heap)
        self.fields = dict(s.fields)
        self.pc = list(s.pc)
        self.counter = s.counter
        self.next_addr = s.next_addr
        self.moved = set(s.moved)
        self.bvars = list(s.bvars)
        self.handling = list(s.handling)
        self.ghost = dict(s.ghost)

    def fresh(self, name, sort):
        self.counter += 1
        self.hi = max(self.hi, self.counter)
        nm = f"{name}#{self.counter}"
        if not self.bvars:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[b.sort() for b in self.bvars], sort)(*self.bvars)

    def fresh_fn(self, name, *sorts):
        """Fresh function; implicit loop variables are closed over."""
        self.counter += 1
        self.hi = max(self.hi, self.counter)
        nm = f"{name}#{self.counter}"
        f = z3.Function(nm, *[b.sort() for b in self.bvars], *sorts)
        bs = list(self.bvars)
        return lambda *a: f(*bs, *a)

    def assume(self, f):
        f = z3.simplify(f) if not smt.has_quant_cached(f) else f
        if z3.is_true(f):
            return
        self.pc.append(("fact", f))
        if z3.is_false(f):
            raise PathAbort

    def pcs(self):
        return [f for _, f in self.pc]

    def branch(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond) if not smt.has_quant_cached(cond) else cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for _, f in self.pc:
            if f.eq(cond):
                return True
            if z3.is_not(f) and f.arg(0).eq(cond) or z3.is_not(cond) and cond.arg(0).eq(f):
                return False
        pcs = self.pcs()
        neg = z3.Not(cond)
        ft = smt.feasible(pcs + [cond])
        ff = smt.feasible(pcs + [neg])
        if not ft and not ff:
            raise PathAbort
        if ft and not ff:
            self.pc.append(("dec", cond))
            return True
        if ff and not ft:
            self.pc.append(("dec", neg))
            return False
        if self.trace:
            d = self.trace.pop(0)
        else:
            d = True
            self.alts.append(self.taken + [False])
        self.taken.append(d)
        self.pc.append(("dec", cond if d else neg))
        return d

    def choose(self) -> bool:
        """Nondeterministic choice with no condition."""
        if self.trace:
            d = self.trace.pop(0)
        else:
            d = True
            self.alts.append(self.taken + [False])
        self.taken.append(d)
        return d

    def explore(self, thunk, limit=400):
        """Run thunk from the current state along every path; state is restored afterwards."""
        snap = Snapshot(self)
        saved = (self.trace, self.alts, getattr(self, "taken", None))
        out = []
        work = [[]]
        hi0 = self.hi
        n = 0
        while work:
            n += 1
            if n > limit:
                raise Unsupported("too many paths")
            tr = work.pop()
            self.restore(snap)
            self.trace, self.alts, self.taken = list(tr), [], []
            try:
                try:
                    v = thunk()
                    p = Path(Snapshot(self), "ok", v)
                except PyReturn as r:
                    p = Path(Snapshot(self), "return", r.v)
                except PyRaise as r:
                    p = Path(Snapshot(self), "raise", r.exc)
                except PyBreak:
                    p = Path(Snapshot(self), "break", None)
                except PyContinue:
                    p = Path(Snapshot(self), "continue", None)
                out.append(p)
            except PathAbort:
                pass
            work.extend(self.alts)
        self.restore(snap)
        self.trace, self.alts, self.taken = saved
        return out

    # ---------------------------------------------------------------- heap
    def alloc(self, cell):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = cell
        return Ref(a)

    def cell(self, r):
        if isinstance(r, Ref):
            return self.heap[r.addr]
        if isinstance(r, Place):
            return cell_from_terms(r.d, self.place_terms(r), getattr(r, "default", None))
        raise Unsupported(f"not a heap reference: {r}")

    def place_terms(self, p):
        if isinstance(p.base, tuple):
            arrs, _ = self.field_arrays(p.base[1], p.base[2], p.d)
            return [z3.Select(a, p.key) for a in arrs]
        c = self.cell(p.base)
        if p.off is not None:
            return [z3.Select(a, p.key) for a in (c.vals if c.kind == "map" else c.ats)[p.off:p.off + len(comps(p.d))]]
        if c.kind == "map":
            return [z3.Select(a, p.key) for a in c.vals]
        if c.kind == "seq":
            return [z3.Select(a, p.key) for a in c.ats]
        raise Unsupported(f"place base {c.kind}")

    def set_cell(self, r, c):
        if isinstance(r, Ref):
            if r.addr in self.moved:
                raise Unsupported("mutation of a container after ownership moved into another container")
            self.heap[r.addr] = c
            return
        if c.kind in ("list", "dict"):
            c = self.coerce_cell(c, r.d)
        terms = c.terms()
        if isinstance(r.base, tuple):
            arrs, d = self.field_arrays(r.base[1], r.base[2], r.d)
            self.fields[(r.base[1], r.base[2])] = ([z3.Store(a, r.key, t) for a, t in zip(arrs, terms)], d)
            return
        b = self.cell(r.base)
        if r.off is not None:
            arrs = list(b.vals if b.kind == "map" else b.ats)
            for j, t in enumerate(terms):
                arrs[r.off + j] = z3.Store(arrs[r.off + j], r.key, t)
            self.set_cell(r.base, MapC(b.dom, arrs, b.dk, b.dv, b.default) if b.kind == "map" else SeqC(b.n, arrs, b.d))
            return
        if b.kind == "map":
            self.set_cell(r.base, MapC(b.dom, [z3.Store(a, r.key, t) for a, t in zip(b.vals, terms)], b.dk, b.dv, b.default))
        else:
            self.set_cell(r.base, SeqC(b.n, [z3.Store(a, r.key, t) for a, t in zip(b.ats, terms)], b.d))

    def field_arrays(self, ty, attr, d):
        k = (ty, attr)
        if k not in self.fields:
            self.fields[k] = ([z3.Const(f"fld!{ty}.{attr}.{i}", z3.ArraySort(V, s)) for i, s in enumerate(comps(d))], d)
        return self.fields[k]

    # ---------------------------------------------------------------- boxing
    def box(self, v):
        """Encode a value as a V term."""
        if isinstance(v, Sym):
            if v.kind == "val":
                return v.t
            if v.kind == "int":
                return V.vint(v.t)
            if v.kind == "bool":
                return V.vbool(v.t)
            if v.kind == "real":
                return V.vreal(v.t)
            raise Unsupported(f"box {v.kind}")
        if isinstance(v, Const):
            x = v.v
            if x is None:
                return V.none
            if isinstance(x, bool):
                return V.vbool(x)
            if isinstance(x, int):
                return V.vint(x)
            if isinstance(x, float):
                return V.vreal(x)
            if isinstance(x, str):
                return str_const(x)
            if isinstance(x, bytes):
                return str_const("b:" + repr(x))
            raise Unsupported(f"box const {x!r}")
        if isinstance(v, Tup):
            return tup_term([self.box(x) for x in v.items])
        if isinstance(v, ClassVal):
            return obj_const("class:" + v.name)
        if isinstance(v, Ref):
            c = self.heap[v.addr]
            if c.kind == "obj":
                return self.share(v)
            if c.kind in ("set", "seq", "map"):
                return self.freeze(c)
        if isinstance(v, ExcVal):
            return v.fields.setdefault("__id", self.fresh("exc", V))
        if isinstance(v, Stub):
            return obj_const("fn:" + v.name)
        raise Unsupported(f"cannot encode {v} as a term")

    def freeze(self, c):
        """Immutable container used as an element (e.g. frozenset key): uninterpreted injective encoding."""
        terms = c.terms()
        f = z3.Function("freeze_" + c.kind + str(len(terms)) + "_" + "_".join(str(t.sort()) for t in terms), *[t.sort() for t in terms], V)
        return f(*terms)

    def share(self, r):
        c = self.heap[r.addr]
        if c.ident is None:
            ident = V.vobj(self.fresh("new_" + c.cls.name, smt.Obj))
            ci = self.ctx.classes.get(c.cls.name)
            if ci is None:
                raise Unsupported(f"object of undeclared class {c.cls.name} stored in a symbolic container")
            self.assume_new(ident, c.cls.name)
            for attr, v in c.fields.items():
                d = ci.attrs.get(attr)
                if d is None:
                    continue
                self.write_field(ident, c.cls.name, attr, v, d)
            self.heap[r.addr] = ObjC(c.cls, {}, ident)
            return ident
        return c.ident

    def assume_new(self, ident, ty):
        """A newly created object is not an element of any container that existed before it."""
        if self.bvars:
            return
        i, x = z3.Int("i!new"), z3.Const("x!new", V)
        for c in list(self.heap.values()):
            if c.kind == "seq" and c.d == ("val", ty):
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), z3.Select(c.ats[0], i) != ident)))
            elif c.kind == "set" and c.d == ("val", ty):
                self.assume(z3.Not(z3.Select(c.mem, ident)))
            elif c.kind == "map" and c.dv == ("val", ty):
                self.assume(z3.ForAll([x], z3.Implies(z3.Select(c.dom, x), z3.Select(c.vals[0], x) != ident)))

    def write_field(self, ident, ty, attr, v, d):
        arrs, d = self.field_arrays(ty, attr, d)
        terms = self.pack(v, d)
        self.fields[(ty, attr)] = ([z3.Store(a, ident, t) for a, t in zip(arrs, terms)], d)

    def pack(self, v, d):
        k = d[0]
        if k == "int":
            return [self.as_int(v)]
        if k == "real":
            return [self.as_real(v)]
        if k == "bool":
            return [self.as_bool(v)]
        if k == "val":
            return [self.box(v)]
        if k == "tup":
            items = self.tuple_items(v, len(d) - 1)
            return [t for x, dd in zip(items, d[1:]) for t in self.pack(x, dd)]
        if isinstance(v, DomainVal):
            v = self.materialize_seq(v.dom)
        c = self.cell(v)
        if isinstance(v, Ref):
            self.moved.add(v.addr)
        c = self.coerce_cell(c, d)
        return c.terms()

    def coerce_cell(self, c, d):
        if c.kind in ("list", "dict", "emptyset"):
            return self.symbolize(c, d)
        if c.kind == "set" and d[0] == "set" or c.kind == d[0]:
            if c.kind in ("seq",) and comps(c.d) != comps(d[1]):
                raise Unsupported(f"sequence element mismatch {c.d} vs {d[1]}")
            if c.kind == "map" and comps(c.dv) != comps(d[2]):
                raise Unsupported(f"map value mismatch {c.dv} vs {d[2]}")
            return c
        raise Unsupported(f"cannot use {c.kind} as {d}")

    def symbolize(self, c, d):
        """Concrete display -> symbolic container of descriptor d."""
        if c.kind == "list":
            if d[0] == "seq":
                ats = [z3.K(INT, self.default_term(s)) for s in comps(d[1])]
                for i, x in enumerate(c.items):
                    ts = self.pack(x, d[1])
                    ats = [z3.Store(a, z3.IntVal(i), t) for a, t in zip(ats, ts)]
                return SeqC(z3.IntVal(len(c.items)), ats, d[1])
        if c.kind == "dict":
            if d[0] == "map":
                dom = z3.K(V, z3.BoolVal(False))
                vals = [z3.K(V, self.default_term(s)) for s in comps(d[2])]
                for k, x in c.items:
                    kt = self.box(k)
                    dom = z3.Store(dom, kt, z3.BoolVal(True))
                    ts = self.pack(x, d[2])
                    vals = [z3.Store(a, kt, t) for a, t in zip(vals, ts)]
                return MapC(dom, vals, d[1], d[2], c.default)
        raise Unsupported(f"symbolize {c.kind} as {d}")

    def default_term(self, s):
        if s == INT:
            return z3.IntVal(0)
        if s == BOOL:
            return z3.BoolVal(False)
        if s == REAL:
            return z3.RealVal(0)
        if s == V:
            return V.none
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.K(s.domain(), self.default_term(s.range()))
        return z3.Const("dflt_" + str(s), s)

    def unpack(self, d, terms):
        k = d[0]
        if k in ("int", "bool", "real"):
            return Sym(k, terms[0])
        if k == "val":
            return Sym("val", terms[0], d[1])
        if k == "tup":
            out, i = [], 0
            for x in d[1:]:
                n = len(comps(x))
                out.append(self.unpack(x, terms[i:i + n]))
                i += n
            return Tup(out)
        return self.alloc(cell_from_terms(d, terms))

    def unpack_at(self, base, key, d, arrs):
        """The value stored at base[key]: containers inside a tuple stay connected to where they live, other copies are read-only."""
        terms = [z3.Select(a, key) for a in arrs]
        if d[0] == "tup" and any(is_container(x) for x in d[1:]) and isinstance(base, (Ref, Place)):
            out, i = [], 0
            for x in d[1:]:
                n = len(comps(x))
                if is_container(x):
                    q = Place(base, key, x)
                    q.off = i
                    out.append(q)
                else:
                    out.append(self.unpack_copy(x, terms[i:i + n]))
                i += n
            return Tup(out)
        return self.unpack_copy(d, terms)

    def unpack_copy(self, d, terms):
        """A value read out of somewhere else; changing a container in it would be lost, so that is refused."""
        v = self.unpack(d, terms)
        todo = [v]
        while todo:
            w = todo.pop()
            if isinstance(w, Ref):
                self.moved.add(w.addr)
            elif isinstance(w, Tup):
                todo += w.items
        return v

    def unbox(self, d, t):
        """Decode a V term as descriptor d (elements of sets, keys of maps)."""
        if d is None:
            return Sym("val", t, "?")
        k = d[0]
        if k == "int":
            return Sym("int", V.i(t))
        if k == "bool":
            return Sym("bool", V.b(t))
        if k == "real":
            return Sym("real", V.r(t))
        if k == "val":
            return Sym("val", t, d[1])
        if k == "tup":
            return Tup([self.unbox(x, tup_proj(t, i)) for i, x in enumerate(d[1:])])
        raise Unsupported(f"unbox {d}")

    def wf_elem(self, d, t):
        """Well-formedness of an element term t of a set / key of a map with descriptor d."""
        if d is None or d[0] == "val":
            return z3.BoolVal(True)
        if d[0] == "int":
            return V.is_vint(t)
        if d[0] == "bool":
            return V.is_vbool(t)
        if d[0] == "real":
            return V.is_vreal(t)
        if d[0] == "tup":
            n = len(d) - 1
            return t == tup_term([tup_proj(t, i) for i in range(n)])
        return z3.BoolVal(True)

    def desc_of(self, v):
        if isinstance(v, Sym):
            return (v.kind,) if v.kind != "val" else ("val", v.ty or "?")
        if isinstance(v, Const):
            x = v.v
            if isinstance(x, bool):
                return ("bool",)
            if isinstance(x, int):
                return ("int",)
            if isinstance(x, float):
                return ("real",)
            if isinstance(x, str):
                return ("val", "str")
            return ("val", "?")
        if isinstance(v, Tup):
            return ("tup", *[self.desc_of(x) for x in v.items])
        if isinstance(v, Place):
            return v.d
        if isinstance(v, Ref):
            c = self.heap[v.addr]
            if c.kind == "obj":
                return ("val", c.cls.name)
            if c.kind in ("set", "seq", "map"):
                return c.desc
            if c.kind == "list":
                if c.items:
                    return ("seq", self.join_desc([self.desc_of(x) for x in c.items]))
                raise Unsupported("empty list of unknown element type")
            if c.kind == "dict" and c.items:
                return ("map", self.join_desc([self.desc_of(k) for k, _ in c.items]),
                        self.join_desc([self.desc_of(x) for _, x in c.items]))
        if isinstance(v, ClassVal):
            return ("val", "class")
        if isinstance(v, DomainVal):
            return ("seq", self.elem_desc(v.dom))
        raise Unsupported(f"no descriptor for {v}")

    def join_desc(self, ds):
        ds = [d for d in ds if d is not None]
        r = ds[0]
        for d in ds[1:]:
            if d == r:
                continue
            if r[0] == "val" and d[0] == "val":
                r = r if d[1] == "?" else d if r[1] == "?" else ("val", r[1])
            elif r[0] == "tup" and d[0] == "tup" and len(r) == len(d):
                r = ("tup", *[self.join_desc([a, b]) for a, b in zip(r[1:], d[1:])])
            elif is_container(r) or is_container(d):
                if r[0] != d[0]:
                    raise Unsupported(f"join {r} {d}")
            else:
                r = ("val", "?")
        return r

    # ---------------------------------------------------------------- coercions
    def as_int(self, v):
        if isinstance(v, Sym):
            if v.kind == "int":
                return v.t
            if v.kind == "bool":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.kind == "val":
                return V.i(v.t)
        if isinstance(v, Const) and isinstance(v.v, (int, bool)):
            return z3.IntVal(int(v.v))
        raise Unsupported(f"as_int {v}")

    def as_real(self, v):
        if isinstance(v, Sym):
            if v.kind == "real":
                return v.t
            if v.kind == "int":
                return z3.ToReal(v.t)
            if v.kind == "val":
                return V.r(v.t)
        if isinstance(v, Const) and isinstance(v.v, (int, float)):
            return z3.RealVal(v.v)
        raise Unsupported(f"as_real {v}")

    def as_bool(self, v):
        if isinstance(v, Sym) and v.kind == "bool":
            return v.t
        if isinstance(v, Const) and isinstance(v.v, bool):
            return z3.BoolVal(v.v)
        if isinstance(v, Sym) and v.kind == "val":
            return V.b(v.t)
        raise Unsupported(f"as_bool {v}")

    def truth(self, v):
        """z3 Bool (or python bool) of bool(v)."""
        if isinstance(v, Const):
            return z3.BoolVal(bool(v.v))
        if isinstance(v, Sym):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "real":
                return v.t != 0
            if v.kind == "val":
                ty = v.ty
                ci = self.ctx.classes.get(ty)
                if ci is not None and ci.truthy is not None:
                    return z3.And(v.t != V.none, ci.truthy(self, v))
                if ty == "str":
                    return z3.And(v.t != V.none, v.t != str_const(""))
                if ty == "bool?":
                    return z3.And(v.t != V.none, V.b(v.t))
                if ci is not None:
                    return v.t != V.none
                return z3.Function("truthy", V, BOOL)(v.t)
        if isinstance(v, Tup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (Func, Stub, ClassVal, Noop, ModVal, ExcVal)):
            return z3.BoolVal(True)
        if isinstance(v, DomainVal) and isinstance(getattr(v.dom, "items", None), list):
            return z3.BoolVal(bool(v.dom.items))
        if isinstance(v, DomainVal) and hasattr(v.dom, "member"):
            x = z3.Const("x!t", v.dom.sort)
            return z3.Exists([x], v.dom.member(x))
        if isinstance(v, (Ref, Place)):
            c = self.cell(v)
            if c.kind == "seq":
                return c.n > 0
            if c.kind == "set":
                x = z3.Const("x!t", V)
                return z3.Exists([x], z3.Select(c.mem, x))
            if c.kind == "map":
                x = z3.Const("x!t", V)
                return z3.Exists([x], z3.Select(c.dom, x))
            if c.kind == "list":
                return z3.BoolVal(bool(c.items))
            if c.kind == "dict":
                return z3.BoolVal(bool(c.items))
            if c.kind == "obj":
                m = self.find_method(v, "__bool__") or self.find_method(v, "__len__")
                if m is not None:
                    return self.truth(self.call(m, [], {}))
                return z3.BoolVal(True)
        raise Unsupported(f"truth of {v}")

    def tuple_items(self, v, n=None):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Sym) and v.kind == "val" and n is not None:
            ds = None
            if isinstance(v.ty, tuple) and v.ty[0] == "tup":
                ds = v.ty[1:]
            return [self.unbox(ds[i] if ds else None, tup_proj(v.t, i)) for i in range(n)]
        if isinstance(v, Ref) and self.heap[v.addr].kind == "list":
            return list(self.heap[v.addr].items)
        raise Unsupported(f"unpack {v}")

    def eq(self, a, b):
        """z3 Bool of a == b."""
        if isinstance(a, Const) and isinstance(b, Const):
            return z3.BoolVal(a.v == b.v)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.eq(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        if isinstance(a, (Ref, Place)) and isinstance(b, (Ref, Place)):
            ca, cb = self.cell(a), self.cell(b)
            if ca.kind == "set" and cb.kind == "set":
                return ca.mem == cb.mem
            if ca.kind == "map" and cb.kind == "map":
                x = z3.Const("x!e", V)
                return z3.And(ca.dom == cb.dom, z3.ForAll([x], z3.Implies(
                    z3.Select(ca.dom, x), z3.And(*[z3.Select(p, x) == z3.Select(q, x) for p, q in zip(ca.vals, cb.vals)]))))
            if ca.kind in ("seq", "list") and cb.kind in ("seq", "list"):
                if ca.kind == "list" and cb.kind == "list":
                    if len(ca.items) != len(cb.items):
                        return z3.BoolVal(False)
                    return z3.And(*[self.eq(x, y) for x, y in zip(ca.items, cb.items)]) if ca.items else z3.BoolVal(True)
                d = ca.desc if ca.kind == "seq" else cb.desc
                ca, cb = self.coerce_cell(ca, d), self.coerce_cell(cb, d)
                i = z3.Int("i!e")
                return z3.And(ca.n == cb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ca.n), z3.And(
                    *[z3.Select(p, i) == z3.Select(q, i) for p, q in zip(ca.ats, cb.ats)]))))
            if ca.kind == "obj" and cb.kind == "obj":
                m = self.find_method(a, "__eq__")
                if m is not None:
                    return self.truth(self.call(m, [b], {}))
                if isinstance(a, Ref) and isinstance(b, Ref) and a.addr == b.addr:
                    return z3.BoolVal(True)
                if ca.cls.node is not None and is_dataclass(ca.cls.node) and ca.cls.name == cb.cls.name and ca.ident is None and cb.ident is None:
                    return z3.And(*[self.eq(ca.fields[k], cb.fields[k]) for k in ca.fields])
                return z3.BoolVal(False)
            raise Unsupported(f"== on {ca.kind},{cb.kind}")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Const) and x.v is None and isinstance(y, (Ref, Place, Tup, Func, Stub, ClassVal, ExcVal, Noop, DomainVal)):
                return z3.BoolVal(False)
            if isinstance(x, Const) and isinstance(y, (Ref, Place)):
                return z3.BoolVal(False)
        num = lambda v: isinstance(v, Sym) and v.kind in ("int", "real") or isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool)
        if num(a) and num(b):
            if self.is_real(a) or self.is_real(b):
                return self.as_real(a) == self.as_real(b)
            return self.as_int(a) == self.as_int(b)
        isb = lambda v: isinstance(v, Sym) and v.kind == "bool" or isinstance(v, Const) and isinstance(v.v, bool)
        if isb(a) and isb(b):
            return self.as_bool(a) == self.as_bool(b)
        return self.box(a) == self.box(b)

    def is_real(self, v):
        return isinstance(v, Sym) and v.kind == "real" or isinstance(v, Const) and isinstance(v.v, float)

    # ---------------------------------------------------------------- names
    def lookup(self, name, frame):
        if name in frame:
            v = frame[name]
            if isinstance(v, Undef):
                raise Unsupported(f"value of {name} after loop/branch is not tracked ({v.why})")
            return v
        c = frame.func.closure if frame.func is not None else None
        while c is not None:
            if name in c:
                return c[name]
            c = c.func.closure if c.func is not None else None
        if frame.func is not None and frame.func.node is not None:
            kind = local_names(frame.func.node).get(name)
            if kind == "straight":
                self.raise_("UnboundLocalError")
            if kind:
                raise Unsupported(f"local {name} may be unbound")
        return self.lookup_global(name, frame.func.mod)

    def lookup_global(self, name, mod):
        g = self.ctx.globals_.get(name)
        if g is not None:
            return g
        if name in ("_LOG", "LOG", "log"):
            return Noop()
        if mod is not None:
            if name in mod.funcs:
                return self.repo_func(mod.funcs[name], mod)
            if name in mod.classes:
                return ClassVal(name, mod, mod.classes[name])
            if name in mod.consts:
                return self.eval_module_const(mod, name)
            if name in mod.imports:
                imp = mod.imports[name]
                if imp[0] == "from":
                    p = mod.repo_path(imp[1], imp[2])
                    if p is not None:
                        m2 = get_module(p)
                        if imp[3] in m2.funcs or imp[3] in m2.classes or imp[3] in m2.consts:
                            return self.lookup_global(imp[3], m2)
                        r = m2.resolve_class(imp[3]) if imp[3] in m2.imports else mod.resolve_class(name)
                        if r is not None:
                            return ClassVal(imp[3], r[1], r[0])
                        if os.path.isfile(os.path.join(os.path.dirname(p), imp[3] + ".py")):
                            return ModVal(get_module(os.path.join(os.path.dirname(p), imp[3] + ".py")))
                    full = f"{imp[1]}.{imp[3]}" if imp[1] else imp[3]
                    return self.external(full, imp[3])
                return self.external(imp[1], name)
        if name in EXC_PARENT or name in self.ctx.exc_parent:
            return ClassVal(name)
        if name in BUILTINS:
            return Stub(BUILTINS[name], name)
        if name in ("int", "str", "bool", "float", "object", "bytes", "type", "tuple", "list", "dict", "set", "frozenset"):
            return ClassVal(name)
        if name == "NotImplemented":
            return Sym("val", obj_const("NotImplemented"))
        if name == "__debug__":
            return TRUE
        raise Unsupported(f"unknown name {name}")

    def eval_module_const(self, mod, name):
        node = mod.consts[name]
        f = Frame(Func(ast.parse("lambda: 0", mode="eval").body, mod))
        try:
            return self.eval(node, f)
        except Unsupported:
            return Sym("val", obj_const(f"const:{os.path.basename(mod.path)}:{name}"))

    def external(self, full, short):
        for k in (full, short):
            if k in self.ctx.stubs:
                return Stub(self.ctx.stubs[k], k)
            if k in self.ctx.globals_:
                return self.ctx.globals_[k]
        if full in EXTERNAL:
            return EXTERNAL[full]
        if short in self.ctx.classes or short in self.ctx.exc_parent or short in EXC_PARENT:
            return ClassVal(short)
        return ExtMod(full)

    def repo_func(self, node, mod, cls=None, selfv=None, clsval=None):
        q = (cls.name + "." if cls is not None else "") + node.name
        st = self.ctx.contracts.get(q)
        if st is not None and not (self.ctx.verifying == q and self.depth == 0):     # a recursive call goes by the contract
            if selfv is not None:
                return Stub(lambda ex, args, kw, st=st, s=selfv: st(ex, [s, *args], kw), q)
            return Stub(st, q)
        return Func(node, mod, cls, selfv, clsval=clsval)

    def find_method(self, v, name):
        """Bound method of a repo-class object, or None."""
        if isinstance(v, Ref):
            c = self.heap[v.addr]
            if c.kind != "obj":
                return None
            cls = c.cls
        elif isinstance(v, Sym) and v.kind == "val":
            ci = self.ctx.classes.get(v.ty)
            if ci is None:
                return None
            if name in ci.methods:
                return Stub(lambda ex, args, kw, st=ci.methods[name]: st(ex, [v, *args], kw), f"{v.ty}.{name}")
            if ci.repo is None:
                return None
            cls = ClassVal(ci.repo[1], get_module(ci.repo[0]))
        else:
            return None
        if isinstance(v, Ref):
            ci = self.ctx.classes.get(cls.name)
            if ci is not None and name in ci.methods:
                return Stub(lambda ex, args, kw, st=ci.methods[name]: st(ex, [v, *args], kw), f"{cls.name}.{name}")
        if cls.mod is None:
            return None
        r = cls.mod.find_method(cls.name, name)
        if r is None:
            return None
        node, cnode, m = r
        deco = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
        if "staticmethod" in deco:
            return self.repo_func(node, m, cnode)
        if "classmethod" in deco:
            return self.repo_func(node, m, cnode, selfv=cls)
        f = self.repo_func(node, m, cnode, selfv=v)
        if "property" in deco or "cached_property" in deco:
            if isinstance(f, Func):
                f.is_property = True
            else:
                f.is_property = True
        return f

    def mangle(self, attr, frame):
        if attr.startswith("__") and not attr.endswith("__") and frame.func is not None and frame.func.cls is not None:
            return "_" + frame.func.cls.name.lstrip("_") + attr
        return attr

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, attr):
        h = self.ctx.attr_hook(self, o, attr) if self.ctx.attr_hook else None
        if h is not None:
            return h
        if isinstance(o, Noop):
            return Noop()
        if isinstance(o, Ref):
            c = self.heap[o.addr]
            if c.kind == "obj":
                if c.ident is not None:
                    return self.getattr(Sym("val", c.ident, c.cls.name), attr)
                if attr in c.fields:
                    v = c.fields[attr]
                    if isinstance(v, Undef):
                        raise Unsupported(f"field {attr}: {v.why}")
                    return v
                if attr == "__dict__" and "__dict__" in c.fields:
                    return c.fields["__dict__"]
                if attr == "__class__":
                    return c.cls
                m = self.find_method(o, attr)
                if m is not None:
                    if getattr(m, "is_property", False):
                        return self.call(m, [], {})
                    return m
                r = self.class_attr(c.cls, attr)
                if r is not None:
                    return r
                raise Unsupported(f"attribute {c.cls.name}.{attr}")
            return self.container_method(o, attr)
        if isinstance(o, Place):
            return self.container_method(o, attr)
        if isinstance(o, DomainVal):
            if attr == "isdisjoint" and self.kind_of(o) in ("keys", "iter"):
                return self.container_method(self.alloc(self.as_set(o)), attr)
            return self.container_method(self.materialize_seq(o.dom), attr)
        if isinstance(o, Sym) and o.kind == "val":
            ci = self.ctx.classes.get(o.ty)
            if ci is not None:
                if attr in ci.attrs:
                    return self.read_attr(o, ci, attr)
                m = self.find_method(o, attr)
                if m is not None:
                    if getattr(m, "is_property", False):
                        return self.call(m, [], {})
                    return m
            if o.ty == "str":
                return self.str_method(o, attr)
            raise Unsupported(f"attribute {o.ty}.{attr}")
        if isinstance(o, Sym) and o.kind == "int" and attr in INT_METHODS:
            return Stub(lambda ex, a, kw: INT_METHODS[attr](ex, o, a, kw), f"int.{attr}")
        if isinstance(o, Const) and isinstance(o.v, str):
            return self.str_method(o, attr)
        if isinstance(o, Const) and isinstance(o.v, int) and attr in INT_METHODS:
            return Stub(lambda ex, a, kw: INT_METHODS[attr](ex, o, a, kw), f"int.{attr}")
        if isinstance(o, ModVal):
            return self.lookup_global(attr, o.mod)
        if isinstance(o, ExtMod):
            return self.external(o.path + "." + attr, attr)
        if isinstance(o, ClassVal):
            r = self.class_attr(o, attr)
            if r is not None:
                return r
            k = f"{o.name}.{attr}"
            if k in self.ctx.stubs:
                return Stub(self.ctx.stubs[k], k)
            if attr == "__name__":
                return Const(o.name)
            if o.name == "dict" and attr == "fromkeys":
                return Stub(b_fromkeys, "dict.fromkeys")
            if o.name == "int" and attr == "from_bytes":
                return Stub(self.ctx.stubs["int.from_bytes"], "int.from_bytes")
            raise Unsupported(f"class attribute {o.name}.{attr}")
        if isinstance(o, ExcVal):
            if attr in o.fields:
                return o.fields[attr]
            if attr == "args":
                return Tup(o.args)
            if attr == "__class__":
                return ClassVal(o.cls)
            if attr == "add_note":
                return Stub(lambda ex, a, kw: NONE, "add_note")
            if attr == "__cause__":
                return NONE
        if isinstance(o, SuperVal):
            return self.super_attr(o, attr)
        if isinstance(o, Stub) and o.name == "chain" and attr == "from_iterable":
            return EXTERNAL["itertools.chain.from_iterable"]
        if isinstance(o, Stub) and f"{o.name}.{attr}" in self.ctx.stubs:
            return Stub(self.ctx.stubs[f"{o.name}.{attr}"], f"{o.name}.{attr}")
        raise Unsupported(f"attribute {attr} of {o}")

    def super_attr(self, o, attr):
        fr = o.fr
        cls, mod = fr.func.cls, fr.func.mod
        if fr.func.selfv is None:
            raise Unsupported("super() outside a method")
        for b in cls.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                r = mod.find_method(b.id, attr)
                if r is not None:
                    node, cnode, m = r
                    return self.repo_func(node, m, cnode, selfv=fr.func.selfv)
        if attr == "__init__":
            return Stub(lambda ex, a, kw: NONE, "object.__init__")
        raise Unsupported(f"super().{attr}")

    def class_attr(self, cls, attr):
        if cls.node is None and cls.mod is not None:
            cls = ClassVal(cls.name, cls.mod, cls.mod.classes.get(cls.name))
        if f"{cls.name}.{attr}" in self.ctx.globals_:
            return self.ctx.globals_[f"{cls.name}.{attr}"]
        if cls.node is None:
            return None
        if is_enum(cls.node):
            for n in cls.node.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == attr:
                    return Sym("val", enum_const(f"{cls.name}.{attr}"), cls.name)
        r = cls.mod.find_method(cls.name, attr)
        if r is not None:
            node, cnode, m = r
            deco = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
            if "classmethod" in deco:
                return self.repo_func(node, m, cnode, selfv=cls)
            return self.repo_func(node, m, cnode)
        todo = [(cls.node, cls.mod)]
        while todo:
            node, m = todo.pop(0)
            for n in node.body:
                tgt = None
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    tgt = n.targets[0].id
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    tgt = n.target.id
                if tgt == attr:
                    f = Frame(Func(ast.parse("lambda: 0", mode="eval").body, m, node))
                    for n2 in node.body:   # earlier class-level names
                        if n2 is n:
                            break
                    return self.eval(n.value, f)
            for b in node.bases:
                if isinstance(b, ast.Name):
                    r = m.resolve_class(b.id)
                    if r:
                        todo.append(r)
        return None

    def read_attr(self, o, ci, attr):
        d = ci.attrs[attr]
        if attr in ci.mutable:
            arrs, d = self.field_arrays(o.ty, attr, d)
            if is_container(d):
                return Place(("field", o.ty, attr), o.t, d)
            return self.unpack_copy(d, [z3.Select(a, o.t) for a in arrs])
        terms = [z3.Function(f"attr!{o.ty}.{attr}.{i}", V, s)(o.t) for i, s in enumerate(comps(d))]
        v = self.unpack_copy(d, terms)
        self.type_facts(d, terms)
        return v

    def type_facts(self, d, terms):
        if d[0] == "seq":
            self.assume(terms[0] >= 0)

    def setattr(self, o, attr, v):
        if isinstance(o, Ref):
            c = self.heap[o.addr]
            if c.kind == "obj":
                if c.ident is not None:
                    return self.setattr(Sym("val", c.ident, c.cls.name), attr, v)
                m = c.cls.mod.find_method(c.cls.name, attr) if c.cls.mod else None
                if m is not None and attr not in c.fields:
                    # property setter
                    for n in m[1].body:
                        if isinstance(n, ast.FunctionDef) and n.name == attr and any(
                                isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list):
                            self.call(Func(n, m[2], m[1], o), [v], {})
                            return
                f = dict(c.fields)
                f[attr] = v
                self.heap[o.addr] = ObjC(c.cls, f, None)
                return
        if isinstance(o, Sym) and o.kind == "val":
            ci = self.ctx.classes.get(o.ty)
            if ci is not None and attr in ci.attrs and attr in ci.mutable:
                self.write_field(o.t, o.ty, attr, v, ci.attrs[attr])
                return
        if isinstance(o, ExcVal):
            o.fields[attr] = v
            return
        if isinstance(o, Noop):
            return
        raise Unsupported(f"assignment to {attr} of {o}")

    # ---------------------------------------------------------------- strings
    def str_method(self, o, attr):
        def call(ex, args, kw):
            if isinstance(o, Const) and all(isinstance(a, Const) for a in args) and all(isinstance(a, Const) for a in kw.values()) and attr in (
                    "startswith", "endswith", "split", "rsplit", "lower", "upper", "strip", "format", "replace", "join", "capitalize", "encode"):
                if attr not in ("join",):
                    r = getattr(o.v, attr)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
                    return ex.lift(r)
            if attr in ("startswith", "endswith"):
                alts = args[0].items if isinstance(args[0], Tup) else [args[0]]
                f = z3.Function("str." + attr, V, V, BOOL)
                return Sym("bool", z3.Or(*[f(ex.box(o), ex.box(a)) for a in alts]))
            st = ex.ctx.stubs.get("str." + attr)
            if st is not None:
                return st(ex, [o, *args], kw)
            if attr in ("format", "lower", "upper", "strip", "replace", "encode", "capitalize", "lstrip", "rstrip"):
                ts = [ex.box(o)] + [ex.box(a) for a in args] + [ex.box(a) for _, a in sorted(kw.items())]
                f = z3.Function(f"str.{attr}{len(ts)}" + "_".join(sorted(kw)), *[V] * len(ts), V)
                return Sym("val", f(*ts), "str")
            if attr == "join":
                return Sym("val", ex.fresh("joined", V), "str")
            raise Unsupported(f"str.{attr}")
        return Stub(call, "str." + attr)

    def lift(self, r):
        if r is None or isinstance(r, (bool, int, float, str, bytes)):
            return Const(r)
        if isinstance(r, list):
            return self.alloc(ListC([self.lift(x) for x in r]))
        if isinstance(r, tuple):
            return Tup([self.lift(x) for x in r])
        raise Unsupported(f"lift {r!r}")

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, Stub):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, Noop):
            return NONE
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kw)
        if isinstance(f, Sym) and f.kind == "val":
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
            ci = self.ctx.classes.get(f.ty)
        if isinstance(f, ExtMod):
            raise Unsupported(f"call to external {f.path} without a contract")
        raise Unsupported(f"call of {f}")

    def bind(self, f, args, kw):
        a = f.node.args
        fr = Frame(f)
        pos = [*a.posonlyargs, *a.args]
        args = list(args)
        if f.selfv is not None:
            args = [f.selfv, *args]
        if len(args) > len(pos) and a.vararg is None:
            raise Unsupported(f"too many arguments for {f.name}")
        for p, v in zip(pos, args):
            fr[p.arg] = v
        if a.vararg is not None:
            fr[a.vararg.arg] = Tup(args[len(pos):])
        kw = dict(kw)
        for p in pos[len(args):] + a.kwonlyargs:
            if p.arg in kw:
                fr[p.arg] = kw.pop(p.arg)
        for p, dflt in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p.arg not in fr:
                fr[p.arg] = self.eval(dflt, Frame(Func(f.node, f.mod, f.cls, closure=f.closure)))
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in fr:
                if dflt is None:
                    raise Unsupported(f"missing argument {p.arg} of {f.name}")
                fr[p.arg] = self.eval(dflt, Frame(Func(f.node, f.mod, f.cls, closure=f.closure)))
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc(DictC([(Const(k), v) for k, v in kw.items()]))
        elif kw:
            raise Unsupported(f"unexpected keyword {list(kw)} for {f.name}")
        for p in pos:
            if p.arg not in fr:
                raise Unsupported(f"missing argument {p.arg} of {f.name}")
        return fr

    def call_func(self, f, args, kw, with_body=None):
        if with_body is None and is_contextmanager(f.node):
            return GenCM(f, args, kw)
        self.depth += 1
        if self.depth > 25:
            self.depth = 0
            raise Unsupported(f"recursion too deep in {f.name} (needs a contract)")
        fr = self.bind(f, args, kw)
        self.frames.append(fr)
        self.ctx.executed.add((f.mod.path if f.mod else "?", (f.cls.name + "." if f.cls is not None else "") + f.name))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if with_body is not None:
                fr.with_body = with_body
            elif is_generator(f.node):
                fr.yields = self.alloc(ListC([]))
                fr["__yields__"] = fr.yields
            try:
                self.exec_block(f.node.body, fr)
                r = NONE
            except PyReturn as e:
                r = e.v
            if fr.yields is not None:
                return fr["__yields__"]
            return r
        finally:
            if fr in self.frames:
                self.frames = [x for x in self.frames if x is not fr]
            self.depth -= 1

    def construct(self, cls, args, kw):
        n = cls.name
        st = self.ctx.constructors.get(n)
        if st is not None:
            return st(self, args, kw)
        if n in CONVERSIONS:
            return CONVERSIONS[n](self, args, kw)
        if n in EXC_PARENT or n in self.ctx.exc_parent or (cls.node is not None and self.is_exc_class(cls)):
            return ExcVal(n, args)
        if cls.node is None:
            if cls.mod is not None and n in cls.mod.classes:
                cls = ClassVal(n, cls.mod, cls.mod.classes[n])
            else:
                raise Unsupported(f"construct {n}")
        if is_enum(cls.node):
            raise Unsupported(f"enum construction {n}")
        o = self.alloc(ObjC(cls, {}))
        r = cls.mod.find_method(n, "__init__")
        if r is not None:
            node, cnode, m = r
            self.call_func(Func(node, m, cnode, o), args, kw)
            return o
        # dataclass / pydantic-like: class-level annotated fields
        fields = {}
        chain = self.class_chain(cls)
        names = []
        for node, m in reversed(chain):
            for s in node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    if s.target.id in [x[0] for x in names]:
                        names = [x for x in names if x[0] != s.target.id]
                    names.append((s.target.id, s.value, m, node))
        args = list(args)
        for nm, dflt, m, node in names:
            if is_field_noinit(dflt):
                continue
            if args:
                fields[nm] = args.pop(0)
            elif nm in kw:
                fields[nm] = kw.pop(nm)
            elif dflt is not None:
                fields[nm] = self.field_default(dflt, m, node)
            else:
                raise Unsupported(f"missing field {nm} for {n}")
        if args or kw:
            raise Unsupported(f"extra constructor arguments for {n}: {list(kw)}")
        self.heap[o.addr] = ObjC(cls, fields)
        pi = cls.mod.find_method(n, "__post_init__")
        if pi is not None:
            self.call_func(Func(pi[0], pi[2], pi[1], o), [], {})
        return o

    def field_default(self, dflt, m, node):
        f = Frame(Func(ast.parse("lambda: 0", mode="eval").body, m, node))
        if isinstance(dflt, ast.Call):
            fn = dflt.func.attr if isinstance(dflt.func, ast.Attribute) else getattr(dflt.func, "id", "")
            if fn in ("field", "Field"):
                for k in dflt.keywords:
                    if k.arg == "default_factory":
                        return self.call(self.eval(k.value, f), [], {})
                    if k.arg == "default":
                        return self.eval(k.value, f)
                if dflt.args:
                    return self.eval(dflt.args[0], f)
        return self.eval(dflt, f)

    def class_chain(self, cls):
        out, todo = [], [(cls.node, cls.mod)]
        while todo:
            node, m = todo.pop(0)
            out.append((node, m))
            for b in node.bases:
                if isinstance(b, ast.Name):
                    r = m.resolve_class(b.id)
                    if r:
                        todo.append(r)
        return out

    def is_exc_class(self, cls):
        return self.exc_is(cls.name, "BaseException", cls.mod)

    def exc_parents(self, name, mod):
        if name in self.ctx.exc_parent:
            p = self.ctx.exc_parent[name]
            return list(p) if isinstance(p, (tuple, list)) else [p]
        if name in EXC_PARENT:
            p = EXC_PARENT[name]
            return [p] if p else []
        if mod is not None:
            r = mod.resolve_class(name)
            if r is not None:
                return [b.id for b in r[0].bases if isinstance(b, ast.Name)]
        for m in list(Module.cache.values()):
            if name in m.classes:
                return [b.id for b in m.classes[name].bases if isinstance(b, ast.Name)]
        return []

    def exc_is(self, name, target, mod=None):
        seen, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n == target:
                return True
            if n in seen or n is None:
                continue
            seen.add(n)
            todo.extend(self.exc_parents(n, mod))
        return False

    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {fr.func.name}:{getattr(s, 'lineno', 0)}")
        return m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, fr)
        self.eval(s.value, fr)

    def do_yield(self, y, fr):
        if fr.with_body is not None:
            # the generator behind a context manager: the body of the with statement runs here
            if isinstance(y, ast.YieldFrom):
                raise Unsupported("yield from in a context manager")
            fr.with_body(self.eval(y.value, fr) if y.value is not None else NONE)
            return NONE
        if fr.yields is None:
            raise Unsupported("yield outside generator")
        if isinstance(y, ast.YieldFrom):
            src = self.eval(y.value, fr)
            self.call(self.getattr(fr["__yields__"], "extend"), [src], {})
            return NONE
        v = self.eval(y.value, fr) if y.value is not None else NONE
        self.call(self.getattr(fr["__yields__"], "append"), [v], {})
        return NONE

    def x_Import(self, s, fr):
        for a in s.names:
            fr[a.asname or a.name.split(".")[0]] = self.external(a.name, a.name)

    def x_ImportFrom(self, s, fr):
        tmp = ast.Module(body=[s], type_ignores=[])
        for a in s.names:
            p = fr.func.mod.repo_path(s.module or "", s.level)
            if p is not None:
                m2 = get_module(p)
                if a.name in m2.funcs or a.name in m2.classes or a.name in m2.consts:
                    fr[a.asname or a.name] = self.lookup_global(a.name, m2)
                    continue
            fr[a.asname or a.name] = self.external(f"{s.module}.{a.name}", a.name)

    def x_Global(self, s, fr):
        raise Unsupported("global")

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def x_FunctionDef(self, s, fr):
        fr[s.name] = Func(s, fr.func.mod, fr.func.cls, closure=fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported("del slice")
                k = self.eval(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported("del target")

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            v = self.eval(s.value, fr)
            if isinstance(v, Ref):
                c = self.heap[v.addr]
                if c.kind in ("list", "dict") and not c.items:
                    d = self.ann_desc(s.annotation)
                    if d is not None and d[0] == ("seq" if c.kind == "list" else "map"):
                        c.hint = d
                elif c.kind == "set" and c.d is None:
                    d = self.ann_desc(s.annotation)
                    if d is not None and d[0] == "set":
                        self.heap[v.addr] = SetC(c.mem, d[1])
            self.assign(s.target, v, fr)

    def ann_desc(self, a):
        """Descriptor for a type annotation, or None."""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.ann_desc(a.left), self.ann_desc(a.right)
            if isinstance(a.right, ast.Constant) and a.right.value is None:
                return l if l is not None and l[0] == "val" else ("val", "?")
            return l if l == r else ("val", "?")
        if isinstance(a, ast.Subscript):
            n = ast.unparse(a.value).split(".")[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n in ("list", "List", "Sequence", "Iterable", "deque") and len(args) == 1:
                d = self.ann_desc(args[0])
                return ("seq", d) if d is not None else None
            if n in ("set", "frozenset", "Set") and len(args) == 1:
                d = self.ann_desc(args[0])
                return ("set", d) if d is not None else None
            if n in ("dict", "defaultdict", "Mapping", "Dict", "DefaultDict") and len(args) == 2:
                k, v = self.ann_desc(args[0]), self.ann_desc(args[1])
                return ("map", k, v) if k is not None and v is not None else None
            if n == "tuple":
                if any(isinstance(x, ast.Constant) and x.value is Ellipsis for x in args):
                    return ("val", "?")
                ds = [self.ann_desc(x) for x in args]
                return ("tup", *ds) if all(d is not None for d in ds) else None
            return ("val", self.ctx.ann_types.get(n, n))
        if isinstance(a, (ast.Name, ast.Attribute)):
            n = ast.unparse(a).split(".")[-1]
            if n in self.ctx.ann_types:
                return D(self.ctx.ann_types[n])
            if n in ("int", "bool"):
                return (n,)
            if n == "float":
                return ("real",)
            if n in ("list", "set", "dict"):
                return None
            return ("val", n)
        if isinstance(a, ast.Constant) and a.value is None:
            return ("val", "?")
        return None

    def x_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            new = self.augop(s.op, cur, self.eval(s.value, fr))
            self.assign(s.target, new, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            attr = self.mangle(s.target.attr, fr)
            cur = self.getattr(o, attr)
            new = self.augop(s.op, cur, self.eval(s.value, fr))
            if new is not cur:
                self.setattr(o, attr, new)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr)
            k = self.eval(s.target.slice, fr)
            cur = self.getitem(o, k)
            new = self.augop(s.op, cur, self.eval(s.value, fr))
            if new is not cur:
                self.setitem(o, k, new)
        else:
            raise Unsupported("augassign target")

    def augop(self, op, cur, v):
        if isinstance(cur, (Ref, Place)):
            c = self.cell(cur)
            if c.kind in ("set", "emptyset") and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                name = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}.get(type(op))
                if name is None:
                    raise Unsupported("^= on set")
                self.call(self.getattr(cur, name), [v], {})
                return cur
            if c.kind in ("seq", "list") and isinstance(op, ast.Add):
                self.call(self.getattr(cur, "extend"), [v], {})
                return cur
            if c.kind in ("map", "dict") and isinstance(op, ast.BitOr):
                self.call(self.getattr(cur, "update"), [v], {})
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.nonlocals:
                c = fr.func.closure
                while c is not None:
                    if t.id in c:
                        c[t.id] = v
                        return
                    c = c.func.closure if c.func is not None else None
            fr[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.tuple_items(v)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_("ValueError")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.alloc(ListC(items[i:len(items) - after])), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            if isinstance(v, (Ref, Place, DomainVal)):
                if isinstance(v, DomainVal):
                    v = self.materialize_seq(v.dom)
                c = self.cell(v)
                if c.kind == "seq":
                    if not self.branch(c.n == len(t.elts)):
                        self.raise_("ValueError")
                    items = [self.seq_elem(v, c, z3.IntVal(i)) for i in range(len(t.elts))]
                elif c.kind == "set":
                    if len(t.elts) != 1:
                        raise Unsupported("unpack set")
                    x = self.fresh("only", V)
                    y = z3.Const("y!o", V)
                    if not self.branch(card(c.mem) == 1):
                        self.raise_("ValueError")
                    self.assume(z3.ForAll([y], z3.Select(c.mem, y) == (y == x)))
                    items = [self.unbox(c.d, x)]
                else:
                    items = self.tuple_items(v)
            else:
                items = self.tuple_items(v, len(t.elts))
            if len(items) != len(t.elts):
                self.raise_("ValueError")
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        else:
            raise Unsupported(f"assign target {type(t).__name__}")

    def x_Return(self, s, fr):
        raise PyReturn(self.eval(s.value, fr) if s.value is not None else NONE)

    def x_Break(self, s, fr):
        raise PyBreak()

    def x_Continue(self, s, fr):
        raise PyContinue()

    def x_If(self, s, fr):
        if self.branch(self.truth_of(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.branch(self.truth_of(s.test, fr)):
            self.raise_("AssertionError")

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not self.handling:
                raise Unsupported("bare raise")
            raise PyRaise(self.handling[-1])
        e = self.eval_exc(s.exc, fr)
        if s.cause is not None and not (isinstance(s.cause, ast.Constant)):
            try:
                e.fields["__cause__"] = self.eval(s.cause, fr)
            except Unsupported:
                pass
        raise PyRaise(e)

    def eval_exc(self, node, fr):
        """Evaluate an exception expression; its message arguments are not modelled."""
        if isinstance(node, ast.Call):
            f = self.eval(node.func, fr)
            if isinstance(f, ClassVal) and f.name not in self.ctx.constructors:
                args = []
                for a in node.args:
                    try:
                        args.append(self.eval(a, fr))
                    except (Unsupported,):
                        args.append(Undef("exception argument"))
                return ExcVal(f.name, args)
        v = self.eval(node, fr)
        if isinstance(v, ClassVal):
            return ExcVal(v.name)
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, Sym):
            return ExcVal("BaseException?", [v], {"term": v})
        raise Unsupported(f"raise {v}")

    def x_Try(self, s, fr):
        if s.finalbody:
            try:
                self.try_inner(s, fr)
            except (PyRaise, PyReturn, PyBreak, PyContinue) as e:
                self.exec_block(s.finalbody, fr)
                raise
            else:
                self.exec_block(s.finalbody, fr)
        else:
            self.try_inner(s, fr)

    def try_inner(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyRaise as e:
            exc = e.exc
            for h in s.handlers:
                if self.exc_matches(exc, h.type, fr):
                    if h.name:
                        fr[h.name] = exc
                    self.handling.append(exc)
                    n = len(self.handling)
                    self.exec_block(h.body, fr)
                    self.handling = self.handling[:n - 1]
                    return
            raise
        else:
            self.exec_block(s.orelse, fr)

    def exc_matches(self, exc, tnode, fr):
        if tnode is None:
            return True
        tv = self.eval(tnode, fr)
        types = tv.items if isinstance(tv, Tup) else [tv]
        for t in types:
            if not isinstance(t, ClassVal):
                if isinstance(t, ExtMod):
                    if exc.cls == t.path.split(".")[-1]:
                        return True
                    continue
                raise Unsupported(f"except {t}")
            if exc.cls == "BaseException?":
                if t.name in ("BaseException",):
                    return True
                if t.name == "Exception":
                    return True
                raise Unsupported("exception of unknown class")
            if self.exc_is(exc.cls, t.name, fr.func.mod):
                return True
        return False

    def x_With(self, s, fr):
        self.with_items(list(s.items), s, fr)

    def with_items(self, items, s, fr):
        if not items:
            self.exec_block(s.body, fr)
            return
        it = items.pop(0)
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, ContextManager):
            v = cm.enter(self)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.with_items(items, s, fr)
            except PyRaise as e:
                if cm.exit(self, e.exc):
                    return
                raise
            except (PyReturn, PyBreak, PyContinue):
                cm.exit(self, None)
                raise
            else:
                cm.exit(self, None)
            return
        if isinstance(cm, GenCM):
            state = {"n": 0, "leave": None}

            def body(v):
                state["n"] += 1
                if state["n"] > 1:
                    raise Unsupported("context manager yields twice")
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                try:
                    self.with_items(items, s, fr)
                except (PyReturn, PyBreak, PyContinue) as e:
                    state["leave"] = e              # the generator is resumed normally, then the statement leaves
            self.call_func(cm.f, cm.args, cm.kw, with_body=body)
            if state["n"] != 1:
                raise Unsupported("context manager does not yield")
            if state["leave"] is not None:
                raise state["leave"]
            return
        raise Unsupported(f"with {ast.unparse(it.context_expr)}")

    def x_While(self, s, fr):
        from .loops import while_rule
        while_rule(self, s, fr)

    def x_For(self, s, fr):
        from .loops import for_rule
        it = self.eval(s.iter, fr)

        def body(elem):
            self.assign(s.target, elem, fr)
            try:
                self.exec_block(s.body, fr)
            except PyContinue:
                pass
        try:
            done = for_rule(self, it, body, f"{fr.func.name}:for", s, fr)
        except PyBreak:
            return
        if done:
            self.exec_block(s.orelse, fr)

    def x_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        for c in s.cases:
            binds = {}
            cond = self.match(c.pattern, subj, fr, binds)
            if self.branch(cond):
                # captures may depend on the pattern having matched
                binds = {}
                self.match(c.pattern, subj, fr, binds)
                for k, v in binds.items():
                    fr[k] = v
                if c.guard is not None and not self.branch(self.truth_of(c.guard, fr)):
                    continue
                self.exec_block(c.body, fr)
                return

    def match(self, p, v, fr, binds):
        T = z3.BoolVal(True)
        if isinstance(p, ast.MatchAs):
            cond = T if p.pattern is None else self.match(p.pattern, v, fr, binds)
            if p.name:
                binds[p.name] = v
            return cond
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, Const(p.value))
        if isinstance(p, ast.MatchOr):
            return z3.Or(*[self.match(x, v, fr, binds) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, Tup):
                raise Unsupported("match sequence on symbolic value")
            if len(v.items) != len(p.patterns):
                return z3.BoolVal(False)
            return z3.And(T, *[self.match(x, y, fr, binds) for x, y in zip(p.patterns, v.items)])
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            cond = self.isinstance_(v, cls)
            conds = [cond]
            if z3.is_false(z3.simplify(cond)):
                return cond
            v2 = v
            if isinstance(v, Sym) and v.kind == "val" and isinstance(cls, ClassVal) and cls.name in self.ctx.classes:
                v2 = Sym("val", v.t, cls.name)
            for k, sub in zip(p.kwd_attrs, p.kwd_patterns):
                conds.append(self.match(sub, self.getattr(v2, k), fr, binds))
            if p.patterns:
                raise Unsupported("positional class pattern")
            return z3.And(*conds)
        raise Unsupported(f"pattern {type(p).__name__}")

    def isinstance_(self, v, cls):
        if isinstance(cls, Tup):
            return z3.Or(*[self.isinstance_(v, c) for c in cls.items])
        if isinstance(v, Ref):
            c = self.heap[v.addr]
            kinds = {"list": ("list", "Sequence", "Iterable"), "seq": ("list", "Sequence", "Iterable"), "set": ("set", "Set"), "emptyset": ("set",), "dict": ("dict", "Mapping", "MutableMapping"),
                     "map": ("dict", "Mapping", "MutableMapping")}
            if c.kind == "obj":
                if c.cls.mod is None:
                    return z3.BoolVal(c.cls.name == cls.name)
                names = {n.name for n, _ in self.class_chain(ClassVal(c.cls.name, c.cls.mod, c.cls.node or c.cls.mod.classes[c.cls.name]))}
                return z3.BoolVal(cls.name in names)
            return z3.BoolVal(cls.name in kinds[c.kind])
        if isinstance(v, Place):
            return z3.BoolVal(cls.name in {"seq": ("list", "Sequence"), "set": ("set",), "map": ("dict",)}[v.d[0]])
        if isinstance(v, Const):
            pt = {"str": str, "int": int, "bool": bool, "float": float, "bytes": bytes}.get(cls.name)
            if pt is not None:
                return z3.BoolVal(isinstance(v.v, pt))
            return z3.BoolVal(False)
        if isinstance(v, Tup):
            return z3.BoolVal(cls.name in ("tuple", "Sequence"))
        if isinstance(v, ExcVal):
            return z3.BoolVal(self.exc_is(v.cls, cls.name))
        if isinstance(v, Sym):
            if v.kind == "int":
                return z3.BoolVal(cls.name == "int")
            if v.kind == "bool":
                return z3.BoolVal(cls.name in ("int", "bool"))
            if v.kind == "real":
                return z3.BoolVal(cls.name == "float")
            h = self.ctx.isinstance_hook
            if h is not None:
                r = h(self, v, cls.name if isinstance(cls, ClassVal) else cls.path.split(".")[-1])
                if r is not None:
                    return r
            if v.ty == getattr(cls, "name", None):
                return v.t != V.none
        raise Unsupported(f"isinstance({v}, {cls})")

    # ---------------------------------------------------------------- expressions
    def truth_of(self, node, fr):
        """Truth value of a test expression as a z3 Bool, without forking where operands are pure."""
        if isinstance(node, ast.BoolOp):
            acc = []
            isand = isinstance(node.op, ast.And)
            for i, x in enumerate(node.values):
                n0, h0, nd = len(self.pc), self.heap, len(self.taken)
                if i > 0 and not self.is_pure(x):
                    # short circuit matters: decide what we have so far first
                    c = z3.And(*acc) if isand else z3.Or(*acc)
                    d = self.branch(c)
                    if isand and not d:
                        return z3.BoolVal(False)
                    if not isand and d:
                        return z3.BoolVal(True)
                    acc = []
                acc.append(self.truth_of(x, fr))
            if len(acc) == 1:
                return acc[0]
            return z3.And(*acc) if isand else z3.Or(*acc)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return z3.Not(self.truth_of(node.operand, fr))
        return self.truth(self.eval(node, fr))

    def is_pure(self, node):
        """Total, effect-free expressions that may be evaluated regardless of short-circuiting."""
        for n in ast.walk(node):
            if isinstance(n, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Not, ast.And, ast.Or,
                              ast.Load, ast.cmpop)):
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                continue
            return False
        return True

    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.func.name}:{getattr(e, 'lineno', 0)}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return Const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts) and isinstance(e.ctx, ast.Load):
            vals = [(isinstance(x, ast.Starred), self.eval(x.value if isinstance(x, ast.Starred) else x, fr)) for x in e.elts]
            if any(star and isinstance(v, Ref) and self.cell(v).kind in ("set", "map", "seq") for star, v in vals):
                from .containers import Concat, Concrete, to_dom            # a tuple of unknown length
                return DomainVal(Concat([to_dom(self, self.copy_container(v) if isinstance(v, Ref) else v) if star else Concrete([v]) for star, v in vals]))
            out = []
            for star, v in vals:
                out.extend(self.tuple_items(v) if star else [v])
            return Tup(out)
        return Tup(self.eval_elts(e.elts, fr))

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_list(e.elts, fr)
        return self.alloc(ListC([self.eval(x, fr) for x in e.elts]))

    def star_list(self, elts, fr):
        r = self.alloc(ListC([]))
        for x in elts:
            if isinstance(x, ast.Starred):
                self.call(self.getattr(r, "extend"), [self.eval(x.value, fr)], {})
            else:
                self.call(self.getattr(r, "append"), [self.eval(x, fr)], {})
        return r

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.tuple_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, e, fr):
        mem = z3.K(V, z3.BoolVal(False))
        r = self.alloc(SetC(mem, None))
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.call(self.getattr(r, "update"), [self.eval(x.value, fr)], {})
            else:
                self.call(self.getattr(r, "add"), [self.eval(x, fr)], {})
        return r

    def e_Dict(self, e, fr):
        r = self.alloc(DictC([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(self.getattr(r, "update"), [self.eval(v, fr)], {})
            else:
                kv = self.eval(k, fr)
                self.setitem(r, kv, self.eval(v, fr))
        return r

    def e_IfExp(self, e, fr):
        if self.branch(self.truth_of(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            rest_pure = all(self.is_pure(y) for y in e.values[i + 1:])
            if rest_pure and isinstance(v, Sym) and v.kind == "bool":
                vals = [self.eval(y, fr) for y in e.values[i + 1:]]
                if all(isinstance(y, Sym) and y.kind == "bool" or isinstance(y, Const) and isinstance(y.v, bool) for y in vals):
                    ts = [v.t] + [self.as_bool(y) for y in vals]
                    return Sym("bool", z3.And(*ts) if isinstance(e.op, ast.And) else z3.Or(*ts))
            d = self.branch(t)
            if isinstance(e.op, ast.And) and not d:
                return v
            if isinstance(e.op, ast.Or) and d:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return Sym("bool", z3.Not(self.truth_of(e.operand, fr)))
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Const):
                return Const(-v.v)
            return Sym(v.kind, -v.t)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary op")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Const) and isinstance(b, Const) and a.v is not None and b.v is not None:
            import operator
            ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                   ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
                   ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.Div: operator.truediv, ast.BitXor: operator.xor}
            try:
                return self.lift(ops[type(op)](a.v, b.v))
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
        h = self.ctx.binop_hook
        if h is not None:
            r = h(self, op, a, b)
            if r is not None:
                return r
        isstr = lambda v: isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Sym) and v.kind == "val" and v.ty == "str"
        if isinstance(op, ast.Add) and isstr(a) and isstr(b):
            return Sym("val", z3.Function("str.concat", V, V, V)(self.box(a), self.box(b)), "str")
        if isinstance(op, ast.Mod) and isstr(a):
            return Sym("val", self.fresh("fmt", V), "str")
        if isinstance(a, ClassVal) and isinstance(b, ClassVal) and isinstance(op, ast.BitOr):
            return Tup([a, b])
        if isinstance(a, Tup) and isinstance(b, (ClassVal,)) and isinstance(op, ast.BitOr):
            return Tup([*a.items, b])
        if isinstance(a, (ClassVal, ExtMod)) and isinstance(b, (ClassVal, ExtMod)) and isinstance(op, ast.BitOr):
            return Tup([a, b])
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup([*a.items, *b.items])
        if isinstance(a, (Ref, Place, DomainVal)) or isinstance(b, (Ref, Place, DomainVal)):
            return self.container_binop(op, a, b)
        if isinstance(a, Sym) and a.kind == "val" and self.find_method(a, DUNDER.get(type(op), "?")):
            return self.call(self.find_method(a, DUNDER[type(op)]), [b], {})
        if self.is_real(a) or self.is_real(b) or isinstance(op, ast.Div):
            x, y = self.as_real(a), self.as_real(b)
            if isinstance(op, ast.Add):
                return Sym("real", x + y)
            if isinstance(op, ast.Sub):
                return Sym("real", x - y)
            if isinstance(op, ast.Mult):
                return Sym("real", x * y)
            if isinstance(op, ast.Div):
                return Sym("real", x / y)
            raise Unsupported("real op")
        x, y = self.as_int(a), self.as_int(b)
        if isinstance(op, ast.Add):
            return Sym("int", x + y)
        if isinstance(op, ast.Sub):
            return Sym("int", x - y)
        if isinstance(op, ast.Mult):
            return Sym("int", x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if self.branch(y == 0):
                self.raise_("ZeroDivisionError")
            q, r = self.floordiv(x, y)
            return Sym("int", q if isinstance(op, ast.FloorDiv) else r)
        if isinstance(op, ast.Pow) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 2:
            return Sym("int", pow2(y))
        if isinstance(op, ast.LShift):
            return Sym("int", x * pow2(y))
        raise Unsupported(f"int op {type(op).__name__}")

    def floordiv(self, x, y):
        """Python floor division and modulo: q*y + r == x with r between 0 and y."""
        q = self.fresh("q", INT)
        r = self.fresh("r", INT)
        self.assume(x == q * y + r)
        self.assume(z3.Implies(y > 0, z3.And(r >= 0, r < y)))
        self.assume(z3.Implies(y < 0, z3.And(r <= 0, r > y)))
        return q, r

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = []
        for op, rn in zip(e.ops, e.comparators):
            right = self.eval(rn, fr)
            acc.append(self.compare(op, left, right))
            left = right
        t = acc[0] if len(acc) == 1 else z3.And(*acc)
        t = z3.simplify(t) if not smt.has_quant_cached(t) else t
        if z3.is_true(t):
            return TRUE
        if z3.is_false(t):
            return FALSE
        return Sym("bool", t)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            h = self.ctx.eq_hook
            r = h(self, a, b) if h is not None else None
            if r is None:
                r = self.eq(a, b)
            return r if isinstance(op, ast.Eq) else z3.Not(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Ref) and isinstance(b, Ref):
                r = z3.BoolVal(a.addr == b.addr)
            elif isinstance(a, ClassVal) and isinstance(b, ClassVal):
                r = z3.BoolVal(a.name == b.name)
            else:
                r = self.eq(a, b)
            return r if isinstance(op, ast.Is) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else z3.Not(r)
        if isinstance(a, (Ref, Place)) and isinstance(b, (Ref, Place)):
            ca, cb = self.as_set(a), self.as_set(b)
            x = z3.Const("x!s", V)
            sub = lambda p, q: z3.ForAll([x], z3.Implies(z3.Select(p, x), z3.Select(q, x)))
            if isinstance(op, ast.LtE):
                return sub(ca.mem, cb.mem)
            if isinstance(op, ast.GtE):
                return sub(cb.mem, ca.mem)
            if isinstance(op, ast.Lt):
                return z3.And(sub(ca.mem, cb.mem), z3.Not(sub(cb.mem, ca.mem)))
            if isinstance(op, ast.Gt):
                return z3.And(sub(cb.mem, ca.mem), z3.Not(sub(ca.mem, cb.mem)))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            # lexicographic
            strict = isinstance(op, (ast.Lt, ast.Gt))
            base = type(op)
            sop = ast.Lt() if base in (ast.Lt, ast.LtE) else ast.Gt()
            acc = z3.BoolVal(not strict)
            for x, y in reversed(list(zip(a.items, b.items))):
                acc = z3.Or(self.compare(sop, x, y), z3.And(self.eq(x, y), acc))
            return acc
        h = self.ctx.order_hook
        if h is not None:
            r = h(self, op, a, b)
            if r is not None:
                return r
        if self.is_real(a) or self.is_real(b):
            x, y = self.as_real(a), self.as_real(b)
        else:
            x, y = self.as_int(a), self.as_int(b)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported("compare")

    def contains(self, c, x):
        if isinstance(c, Tup):
            return z3.Or(*[self.eq(x, y) for y in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, DomainVal):
            return self.dom_member(c.dom, x)
        if isinstance(c, (Ref, Place)):
            cc = self.cell(c)
            if cc.kind == "set":
                return z3.Select(cc.mem, self.box(x))
            if cc.kind == "map":
                return z3.Select(cc.dom, self.box(x))
            if cc.kind == "seq":
                i = z3.Int("i!c")
                e = self.unpack(cc.d, [z3.Select(a, i) for a in cc.ats])
                return z3.Exists([i], z3.And(0 <= i, i < cc.n, self.eq(e, x)))
            if cc.kind == "list":
                return z3.Or(*[self.eq(x, y) for y in cc.items]) if cc.items else z3.BoolVal(False)
            if cc.kind == "dict":
                return z3.Or(*[self.eq(x, y) for y, _ in cc.items]) if cc.items else z3.BoolVal(False)
            if cc.kind == "obj":
                m = self.find_method(c, "__contains__")
                if m is not None:
                    return self.truth(self.call(m, [x], {}))
        if isinstance(c, Const) and isinstance(c.v, str):
            if isinstance(x, Const):
                return z3.BoolVal(x.v in c.v)
        if isinstance(c, Sym) and c.kind == "val":
            m = self.find_method(c, "__contains__")
            if m is not None:
                return self.truth(self.call(m, [x], {}))
            if c.ty == "str":
                return z3.Function("str.contains", V, V, BOOL)(c.t, self.box(x))
        raise Unsupported(f"in {c}")

    def e_Call(self, e, fr):
        # logging calls: arguments are not evaluated
        if isinstance(e.func, ast.Attribute):
            try_noop = e.func.value
            root = try_noop
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and (root.id in ("_LOG", "LOG", "logging", "warnings") or root.id in self.ctx.noop_names):
                if not (root.id == "logging"):
                    return NONE
                if e.func.attr in ("debug", "info", "warning"):
                    return NONE
        f = self.eval(e.func, fr)
        if isinstance(f, Noop):
            return NONE
        if isinstance(f, Stub) and f.name == "super":
            return SuperVal(fr)
        if isinstance(f, Stub) and f.lazy:
            return f.fn(self, e, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(f, Stub) and getattr(f.fn, "star_ok", False):
                    args.append(StarArg(v))
                else:
                    args.extend(self.tuple_items(v))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, Ref) and self.heap[v.addr].kind == "dict":
                    for kk, vv in self.heap[v.addr].items:
                        kw[kk.v] = vv
                elif isinstance(f, (Stub,)) and getattr(f.fn, "star_ok", False):
                    kw["**"] = v
                else:
                    raise Unsupported("** of a symbolic mapping")
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw, e)

    def e_Lambda(self, e, fr):
        return Func(e, fr.func.mod, fr.func.cls, closure=fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        lit = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                lit.append(v.value)
            else:
                lit.append("{}")
                try:
                    x = self.eval(v.value, fr)
                    if isinstance(x, Const) and isinstance(x.v, (str, int)) and v.format_spec is None and v.conversion == -1:
                        lit[-1] = str(x.v)
                        continue
                    parts.append(self.box(x))
                except Unsupported:
                    parts.append(self.fresh("fpart", V))
        if not parts:
            return Const("".join(lit))
        f = z3.Function("fstr!" + "".join(lit), *[V] * len(parts), V)
        t = f(*parts)
        return Sym("val", t, "str")

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, ClassVal) or isinstance(o, Stub) and o.name in ("defaultdict",):
            return o           # generic alias
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper is not None else None
            if e.slice.step is not None:
                raise Unsupported("slice step")
            return self.getslice(o, lo, hi)
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_GeneratorExp(self, e, fr):
        return GenVal(self, e, fr)

    def e_DictComp(self, e, fr):
        return self.comp(e, fr, "dict")

    def e_Yield(self, e, fr):
        return self.do_yield(e, fr)

    def comp(self, e, fr, kind):
        from .loops import for_rule
        sub = Frame(Func(e, fr.func.mod, fr.func.cls, closure=fr, name="<comp>"))
        self.frames.append(sub)
        if kind == "list":
            acc = self.alloc(ListC([]))
            leaf = lambda: self.call(self.getattr(acc, "append"), [self.eval(e.elt, sub)], {})
        elif kind == "set":
            acc = self.alloc(SetC(z3.K(V, z3.BoolVal(False)), None))
            leaf = lambda: self.call(self.getattr(acc, "add"), [self.eval(e.elt, sub)], {})
        else:
            acc = self.alloc(DictC([]))
            leaf = lambda: self.setitem(acc, self.eval(e.key, sub), self.eval(e.value, sub))
        self.comp_loops(e.generators, 0, sub, leaf)
        self.frames = [x for x in self.frames if x is not sub]
        return acc

    def comp_loops(self, gens, i, sub, leaf):
        from .loops import for_rule
        if i == len(gens):
            leaf()
            return
        g = gens[i]
        it = self.eval(g.iter, sub if i else sub.func.closure if sub.func.closure is not None else sub)

        def body(elem):
            self.assign(g.target, elem, sub)
            for c in g.ifs:
                if not self.branch(self.truth_of(c, sub)):
                    return
            self.comp_loops(gens, i + 1, sub, leaf)
        for_rule(self, it, body, "comprehension", None, sub)


class StarArg:
    def __init__(self, v):
        self.v = v


class SuperVal(Val):
    def __init__(self, fr):
        self.fr = fr


class ContextManager(Val):
    def __init__(self, enter=None, exit=None):
        self._enter, self._exit = enter, exit

    def enter(self, ex):
        return self._enter(ex) if self._enter else NONE

    def exit(self, ex, exc):
        return self._exit(ex, exc) if self._exit else False


class GenCM(Val):
    """A call of a function decorated with contextlib.contextmanager; it runs when the with statement is entered."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class GenVal(Val):
    """Unevaluated generator expression."""

    def __init__(self, ex, node, fr):
        self.node, self.fr = node, fr


def is_dataclass(node):
    for d in node.decorator_list:
        s = ast.unparse(d)
        if "dataclass" in s:
            return True
    return False


def is_enum(node):
    return any(ast.unparse(b).split(".")[-1] in ("Enum", "Flag", "IntEnum", "StrEnum") for b in node.bases)


def is_field_noinit(d):
    return isinstance(d, ast.Call) and any(k.arg == "init" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)


def is_contextmanager(node):
    return any(ast.unparse(d).split(".")[-1] == "contextmanager" for d in getattr(node, "decorator_list", ()))


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_pow2 = z3.Function("pow2", INT, INT)


def pow2(x):
    return _pow2(x)


DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__"}
BUILTINS: dict = {}
INT_METHODS: dict = {}
CONVERSIONS: dict = {}
EXTERNAL: dict = {}

from . import containers  # noqa: E402,F401  (fills the tables above and adds Exec methods)
b_fromkeys = containers.b_fromkeys
