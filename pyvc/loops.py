"""Loop rules.

Every loop over an unbounded domain is cut by an inductive invariant.  Candidate invariants are derived from the
symbolic effect of one generic iteration on each location it modifies (and, for while loops, supplied by the
contract); every candidate is *checked*: established on entry and preserved by an arbitrary iteration.  Candidates that
are not inductive are dropped, so the derivation itself is not trusted.  Nothing is unrolled except iterations over
containers whose elements are literally known.
"""
from __future__ import annotations

import os
import sys
import time
import z3

from . import smt
from .smt import V, INT, BOOL, REAL, VSET, card
from .values import *
from . import engine as E
from .engine import Snapshot, PyBreak, PyReturn, PyRaise, PathAbort, Fail
from .containers import Dom, Concrete, Concat, Nest, to_dom, FALSE_SET

ROOM = 400
STAT = {"loops": 0, "invariants": 0, "dropped": 0}


def for_rule(ex, it, body, name, node, fr):
    dom = to_dom(ex, it)
    if isinstance(dom, Concrete):
        for x in dom.items:
            body(x)
        return True
    if isinstance(dom, Concat):
        for p in dom.parts:
            for_rule(ex, DomainVal(p), body, name, node, fr)
        return True
    if isinstance(dom, Nest):
        dom.run(body)
        return True
    L = Loop(ex, dom, body, name)
    L.hook = ex.ctx.loop_hooks.get(name)
    L.fr = fr
    return L.run()


# ------------------------------------------------------------------------------------------------ locations

def same_val(a, b):
    if a is b:
        return True
    if a is None or b is None or type(a) is not type(b):
        return False
    if isinstance(a, Const):
        return type(a.v) is type(b.v) and a.v == b.v
    if isinstance(a, Sym):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return a.addr == b.addr
    if isinstance(a, Place):
        return a.off == b.off and (a.base == b.base or same_val(a.base, b.base)) and a.key.eq(b.key) if not isinstance(a.base, tuple) else a.base == b.base and a.key.eq(b.key)
    if isinstance(a, Undef):
        return True
    if isinstance(a, DomainVal):
        return a.dom is b.dom
    if isinstance(a, ClassVal):
        return a.name == b.name
    if isinstance(a, Func):
        return a.node is b.node and a.closure is b.closure and (a.selfv is b.selfv or same_val(a.selfv, b.selfv))
    if isinstance(a, (Noop,)):
        return True
    if isinstance(a, Stub):
        return a.name == b.name
    return False


def same_cell(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind in ("set", "map", "seq"):
        return all(x.eq(y) for x, y in zip(a.terms(), b.terms())) and comps(a.desc) == comps(b.desc) if a.kind != "set" else a.mem.eq(b.mem)
    if a.kind == "list":
        return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if a.kind == "dict":
        return len(a.items) == len(b.items) and all(same_val(x, y) and same_val(p, q) for (x, p), (y, q) in zip(a.items, b.items))
    return False


SCALAR = ("int", "bool", "real", "val")


class LocInfo:
    """One modified location: how to havoc it and its component terms."""

    def __init__(self, key, desc=None, default=None, opaque=None, init=None):
        self.key, self.desc, self.default, self.opaque = key, desc, default, opaque
        self.init = init          # initial component terms
        self.H = None             # current havoc terms

    @property
    def kind(self):
        if self.opaque:
            return "opaque"
        if self.key[0] == "field":
            return "field"
        return self.desc[0] if self.desc[0] in ("set", "map", "seq") else "scalar"


def frames_of(snap):
    return snap.frames


def scan(snap_or_ex):
    """All locations of a state: key -> value (Val or cell or field arrays)."""
    s = snap_or_ex
    out = {}
    frames = s.frames if isinstance(s, Snapshot) else [(f, f) for f in s.frames]
    for f, content in frames:
        for n, v in content.items():
            out[("env", id(f), n)] = v
    for a, c in s.heap.items():
        if c.kind == "obj":
            out[("objid", a)] = c
            for n, v in c.fields.items():
                out[("obj", a, n)] = v
        else:
            out[("heap", a)] = c
    for k, v in s.fields.items():
        out[("field", *k)] = v
    for n, v in s.ghost.items():
        out[("ghost", n)] = v
    return out


def changed(k, a, b):
    if k[0] == "heap":
        return not same_cell(a, b)
    if k[0] == "field":
        return not all(x.eq(y) for x, y in zip(a[0], b[0]))
    if k[0] == "objid":
        return a.ident is not b.ident
    return not same_val(a, b)


def mentions(t, names):
    return bool(smt.consts_of(t) & names)


SHALLOW = [False]


class Loop:
    def __init__(self, ex, dom, body, name):
        self.ex, self.dom, self.body, self.name = ex, dom, body, name
        self.infos = {}            # key -> LocInfo
        self.cands = []
        self.extra = []            # names of spec-supplied invariants still standing
        self.hook = None
        self.defs = []             # definitional axioms (prefix sums)
        self.seqitems = {}
        self.same = set()

    # ------------------------------------------------------------------ state set up
    def set_loc(self, li, terms):
        """Write component terms into location li."""
        ex = self.ex
        k = li.key
        if li.opaque:
            v = Undef(li.opaque)
            self.put_val(k, v)
            return
        if k[0] == "field":
            ex.fields[(k[1], k[2])] = (list(terms), li.desc)
            return
        if k[0] == "heap":
            ex.heap[k[1]] = cell_from_terms(li.desc, list(terms), li.default)
            return
        self.put_val(k, ex.unpack(li.desc, list(terms)))

    def put_val(self, k, v):
        ex = self.ex
        if k[0] == "env":
            for f in ex.frames:
                if id(f) == k[1]:
                    if v is None:
                        f.pop(k[2], None)
                    else:
                        f[k[2]] = v
        elif k[0] == "obj":
            c = ex.heap[k[1]]
            fs = dict(c.fields)
            fs[k[2]] = v
            ex.heap[k[1]] = ObjC(c.cls, fs, c.ident)
        elif k[0] == "ghost":
            ex.ghost[k[1]] = v
        elif k[0] == "heap":
            raise Unsupported(f"container modified in loop in an untracked way ({v.why})")
        else:
            raise Unsupported(f"location {k}")

    def comp_sorts(self, li):
        if li.key[0] == "field":
            return [z3.ArraySort(V, s) for s in comps(li.desc)]
        return comps(li.desc)

    def fresh_terms(self, tag):
        out = {}
        for k, li in self.infos.items():
            if li.opaque:
                out[k] = []
                continue
            nm = "_".join(str(x) for x in k if not isinstance(x, int) or k[0] != "env")
            # a component no iteration changes keeps its initial value
            out[k] = [li.init[i] if (k, i) in self.same else self.ex.fresh(f"{tag}.{nm}.{i}", s) for i, s in enumerate(self.comp_sorts(li))]
        return out

    def find_same(self):
        self.same = set()
        for k, li in self.infos.items():
            if li.opaque:
                continue
            fts = [self.final_terms(pi, k) for pi in self.pinfo]
            for i in range(len(self.H[k])):
                if all(ft[i].eq(self.H[k][i]) for ft in fts):
                    self.same.add((k, i))

    def enter(self, terms):
        for k, li in self.infos.items():
            self.set_loc(li, terms[k])
            if not li.opaque and li.kind == "seq":
                self.ex.assume(terms[k][0] >= 0)

    def begin(self):
        """Restore the entry state (with representation changes applied)."""
        ex = self.ex
        ex.restore(self.S0)
        for a, d in self.resym.items():
            c = ex.heap[a]
            if c.kind in ("list", "dict"):
                self.keep_moved = set(ex.moved)
                ex.heap[a] = ex.symbolize(c, d)
            elif c.kind == "set" and c.d is None:
                ex.heap[a] = SetC(c.mem, d[1])

    # ------------------------------------------------------------------ pass 1
    def run(self):
        ex = self.ex
        STAT["loops"] += 1
        self.S0 = Snapshot(ex)
        self.entry_trace = None
        self.base_counter = ex.hi + ROOM
        ex.hi = self.base_counter
        self.resym = {}
        entry_addr = ex.next_addr
        b = z3.Const(f"b{len(ex.bvars)}!{self.base_counter}", self.dom.sort)
        self.b = b
        # what the body modifies is found first with nested loops left without invariants (cheap), then once more with them
        shallow = SHALLOW[0]
        SHALLOW[0] = True
        nested = STAT["loops"]
        for attempt in range(16):
            self.begin()
            base_state = {}
            self.init_locs = scan(ex)
            for k, li in self.infos.items():
                self.fill_init(li)
            ex.counter = self.base_counter - ROOM + 1
            H = self.fresh_terms("H")
            self.enter(H)
            ex.counter = self.base_counter
            pre = scan(ex)
            pcn = len(ex.pc)
            try:
                paths = ex.explore(lambda: self.run_body(b))
            except BaseException:
                SHALLOW[0] = shallow
                raise
            again = self.detect(pre, paths, entry_addr)
            if not again:
                if SHALLOW[0] == shallow or STAT["loops"] == nested:
                    break
                SHALLOW[0] = shallow
        else:
            SHALLOW[0] = shallow
            raise Unsupported("loop modification analysis did not converge")
        SHALLOW[0] = shallow
        self.H = H
        self.Hnames = set()
        for ts in H.values():
            for t in ts:
                self.Hnames.add(t.decl().name())
        self.check_src(paths)
        self.pcn = pcn
        self.normal = [p for p in paths if p.kind == "ok"]
        self.exits = [p for p in paths if p.kind != "ok"]
        if not self.normal and not self.exits:
            raise PathAbort
        self.pinfo = [self.path_info(p) for p in self.normal]
        self.einfo = [self.path_info(p) for p in self.exits]
        self.init = {k: li.init for k, li in self.infos.items()}
        self.find_same()
        if not SHALLOW[0]:
            t0 = time.time()
            self.derive()
            n = len(self.cands)
            self.houdini()
            if os.environ.get("PYVC_LOOPDEBUG"):
                if os.environ["PYVC_LOOPDEBUG"] == "2":
                    print([n for n, _ in self.cands], {k: li.desc for k, li in self.infos.items()})
                print(f"loop {self.name} depth {len(ex.bvars)} paths {len(self.normal)}+{len(self.exits)} candidates {n} kept {len(self.cands)} {time.time() - t0:.1f} s", file=sys.stderr, flush=True)
        return self.conclude()

    def run_body(self, b):
        ex = self.ex
        ex.bvars.append(b)
        ex.pc.append(("dec", self.dom.member(b)))
        e = self.dom.elem(ex, b)
        self.body(e)

    def fill_init(self, li):
        ex = self.ex
        k = li.key
        if li.opaque:
            li.init = []
            return
        if k[0] == "field":
            if (k[1], k[2]) not in ex.fields:
                ex.field_arrays(k[1], k[2], li.desc)
            li.init = list(ex.fields[(k[1], k[2])][0])
            return
        if k[0] == "heap":
            li.init = ex.heap[k[1]].terms()
            return
        v = self.init_locs[k]
        li.init = ex.pack(v, li.desc)

    def detect(self, pre, paths, entry_addr):
        ex = self.ex
        again = False
        self.body_heaps = [p.snap.heap for p in paths if p.kind == "ok"]
        finals = [scan(p.snap) for p in paths if p.kind == "ok"]
        keys = {}
        for fin in finals:
            for k, v in fin.items():
                if k[0] in ("heap", "obj", "objid") and k[1] >= entry_addr:
                    continue
                if k[0] == "env" and not any(id(f) == k[1] for f, _ in self.S0.frames):
                    continue
                if k not in pre:
                    if k[0] == "field":
                        d = v[1]
                        init = [z3.Const(f"fld!{k[1]}.{k[2]}.{i}", z3.ArraySort(V, s)) for i, s in enumerate(comps(d))]
                        if all(x.eq(y) for x, y in zip(v[0], init)):
                            continue
                    keys.setdefault(k, []).append(v)
                elif changed(k, pre[k], v):
                    keys.setdefault(k, []).append(v)
            for k in pre:
                if k not in fin and k[0] == "env":
                    keys.setdefault(k, []).append(None)
        for k, vals in keys.items():
            if k in self.infos:
                li = self.infos[k]
                if li.opaque:
                    continue
                if k[0] in ("heap",):
                    for v in vals:
                        if v.kind not in ("set", "map", "seq"):
                            raise Unsupported("container representation changes in loop")
                        if v.kind == "set" and v.d is not None and li.desc[1] is None:
                            li.desc = ("set", v.d)
                            self.resym.setdefault(k[1], ("set", v.d))
                            again = True
                        elif comps(v.desc) != comps(li.desc):
                            raise Unsupported("container element type changes in loop")
                elif k[0] != "field":
                    # value kind must be stable
                    for v in vals:
                        d = self.scalar_desc(v)
                        if d is None:
                            li.opaque = "rebound in loop"
                            again = True
                        else:
                            j = ex.join_desc([li.desc, d])
                            if comps(j) != comps(li.desc) or j[0] != li.desc[0]:
                                li.desc = j
                                again = True
                continue
            again = True
            self.infos[k] = self.make_info(k, pre.get(k), vals)
        return again

    def scalar_desc(self, v):
        try:
            if isinstance(v, (Sym, Const)):
                return self.ex.desc_of(v)
            if isinstance(v, Tup):
                d = self.ex.desc_of(v)
                return d if all(x[0] in SCALAR for x in d[1:]) else None
            if isinstance(v, Ref) and self.ex.heap.get(v.addr) is not None and self.ex.heap[v.addr].kind == "obj" and self.ex.heap[v.addr].ident is not None:
                return ("val", self.ex.heap[v.addr].cls.name)
        except Unsupported:
            return None
        return None

    def make_info(self, k, old, vals):
        ex = self.ex
        if k[0] == "field":
            return LocInfo(k, vals[0][1])
        if k[0] == "objid":
            raise Unsupported("object shared inside a loop")
        if k[0] == "heap":
            new = vals[0]
            if old.kind in ("list", "dict"):
                d = None
                hint = getattr(old, "hint", None)
                for v in vals:
                    dd = self.cell_desc(v, hint)
                    d = dd if d is None else self.join_cdesc(d, dd)
                if hint is not None:
                    d = hint
                self.resym[k[1]] = d
                return LocInfo(k, d, getattr(old, "default", None))
            if old.kind == "set":
                d = old.d
                for v in vals:
                    if v.kind != "set":
                        raise Unsupported("set representation")
                    d = d if d is not None else v.d
                if old.d is None and d is not None:
                    self.resym[k[1]] = ("set", d)
                return LocInfo(k, ("set", d))
            return LocInfo(k, old.desc, getattr(old, "default", None))
        if old is None:
            return LocInfo(k, opaque="only defined inside the loop")
        ds = [self.scalar_desc(v) if v is not None else None for v in [old, *vals]]
        if any(d is None for d in ds):
            return LocInfo(k, opaque="rebound in loop")
        try:
            d = ex.join_desc(ds)
        except Unsupported:
            return LocInfo(k, opaque="rebound in loop")
        return LocInfo(k, d)

    def cell_desc(self, c, hint):
        ex = self.ex
        if hint is not None:
            return hint
        if c.kind in ("set", "map", "seq"):
            return c.desc
        if c.kind == "list":
            return ("seq", ex.join_desc([self.vdesc(x) for x in c.items]))
        if c.kind == "dict":
            return ("map", ex.join_desc([self.vdesc(x) for x, _ in c.items]), ex.join_desc([self.vdesc(x) for _, x in c.items]))
        raise Unsupported(f"cell {c.kind}")

    def vdesc(self, v):
        """Descriptor of a value created inside the loop body (its heap cell may only exist there)."""
        ex = self.ex
        if isinstance(v, Ref) and v.addr not in ex.heap:
            cs = [h[v.addr] for h in self.body_heaps if v.addr in h]
            if cs and all(c.kind == "obj" and c.cls.name == cs[0].cls.name for c in cs) and cs[0].cls.name in ex.ctx.classes:
                return ("val", cs[0].cls.name)
            if cs and all(c.kind in ("set", "seq", "map") and c.desc == cs[0].desc for c in cs):
                return cs[0].desc
            raise Unsupported("element type of container built in loop")
        return ex.desc_of(v)

    def join_cdesc(self, a, b):
        ex = self.ex
        if a[0] != b[0]:
            raise Unsupported("container kinds differ between paths")
        if a[0] == "seq":
            return ("seq", ex.join_desc([a[1], b[1]]))
        if a[0] == "map":
            return ("map", ex.join_desc([a[1], b[1]]), ex.join_desc([a[2], b[2]]))
        return a

    def check_src(self, paths):
        """The iterated container itself must not change shape while it is iterated."""
        src = self.dom.src
        while isinstance(src, Place):
            src = src.base
        if src is None:
            return
        key = ("heap", src.addr) if isinstance(src, Ref) else ("field", src[1], src[2])
        if key not in self.infos:
            return
        if isinstance(self.dom.src, Place):
            raise Unsupported("container modified while iterated")
        li = self.infos[key]
        for p in paths:
            if p.kind != "ok":
                continue
            c = p.snap.heap[src.addr]
            t = c.terms()[0]
            h = self.H[key][0]
            if c.kind == "map" and z3.is_store(t) and t.arg(0).eq(h) and t.arg(1).eq(self.b) and z3.is_true(t.arg(2)):
                continue
            if not t.eq(h):
                raise Unsupported("container modified while iterated")
            if c.kind == "seq":
                raise Unsupported("list modified while iterated")
        self.src_key = key

    def path_info(self, p):
        decs, facts = [], []
        for kind, f in p.snap.pc[self.pcn:]:
            (decs if kind == "dec" else facts).append(f)
        # the first decision is membership of b
        decs = [d for d in decs if not d.eq(self.dom.member(self.b))]
        return dict(path=p, decs=decs, facts=facts, hfree=[d for d in decs if not mentions(d, self.Hnames)],
                    hdep=[d for d in decs if mentions(d, self.Hnames)],
                    ffree=[f for f in facts if not mentions(f, self.Hnames)], fin=scan(p.snap))

    # ------------------------------------------------------------------ candidate derivation
    def cand(self, name, f):
        skip = self.ex.ctx.loop_skip.get(self.name, ("\0",))
        if skip(name, self) if callable(skip) else name.startswith(skip):
            return
        self.cands.append((name, f))

    def toL0(self, t):
        subs = []
        for k, ts in self.H.items():
            for h, i in zip(ts, self.init[k]):
                if h.sort() == i.sort():
                    subs.append((h, i))
        return z3.substitute(t, *subs) if subs else t

    def conj(self, xs):
        xs = list(xs)
        return z3.BoolVal(True) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)

    def final_terms(self, pi, k):
        """Component terms of location k at the end of path pi."""
        li = self.infos[k]
        v = pi["fin"].get(k)
        if k[0] == "field":
            if v is None:
                return self.H[k]
            return list(v[0])
        if k[0] == "heap":
            return v.terms()
        ex = self.ex
        save = (ex.heap, ex.fields, list(ex.pc), set(ex.moved))
        ex.heap, ex.fields = dict(pi["path"].snap.heap), dict(pi["path"].snap.fields)
        try:
            return ex.pack(v, li.desc)
        finally:
            ex.heap, ex.fields, ex.pc, ex.moved = save

    def derive(self):
        b = self.b
        for n, pi in enumerate(self.pinfo):
            for f in pi["ffree"]:
                self.cand(f"fact{n}", lambda D, cur, c, f=f, pi=pi: forall([b], z3.Implies(self.conj([D(b), *pi["hfree"]]), f)))
        # facts about the state an iteration starts from: candidates about the state before the loop (true if no earlier iteration touched what they read)
        subst = [(h, i) for k, li in self.infos.items() if not li.opaque for h, i in zip(self.H[k], li.init)]
        seen = set()
        for n, pi in enumerate(self.pinfo):
            for f in pi["facts"]:
                if not mentions(f, self.Hnames):
                    continue
                g = z3.substitute(f, *subst)
                if mentions(g, self.Hnames) or not occurs(g, b):
                    continue
                common = all(any(f.eq(f2) for f2 in p2["facts"]) for p2 in self.pinfo)
                key = (g.get_id(), None if common else n)
                if key in seen:
                    continue
                seen.add(key)
                guard = [] if common else pi["hfree"]
                self.cand(f"fact-init{n}", lambda D, cur, c, g=g, guard=guard: forall([b], z3.Implies(self.conj([D(b), *guard]), g)))
        if self.exits or any(not pi["hfree"] or True for pi in self.pinfo):
            disj = [self.conj(pi["hfree"]) for pi in self.pinfo]
            if disj and not any(z3.is_true(d) for d in disj):
                self.cand("continues", lambda D, cur, c: forall([b], z3.Implies(D(b), z3.Or(*disj))))
        for k, li in self.infos.items():
            if li.opaque:
                continue
            fins = [self.final_terms(pi, k) for pi in self.pinfo]
            if li.kind == "seq":
                self.derive_seq(k, li, fins)
            elif li.kind in ("set", "map", "field"):
                for j in range(len(li.init)):
                    self.derive_array(k, li, j, [f[j] for f in fins])
                if li.kind == "field" and li.desc[0] == "seq":
                    pass
            else:
                for j in range(len(li.init)):
                    self.derive_scalar(k, li, j, [f[j] for f in fins])

    # arrays ---------------------------------------------------------------------------------
    def peel(self, t, base):
        """Updates turning array base into t: list of (vars, guard, idxpath, val), or None."""
        if t.eq(base):
            return []
        if z3.is_store(t):
            a, i, v = t.arg(0), t.arg(1), t.arg(2)
            us = self.peel(a, base)
            if us is None:
                return None
            if v.sort().kind() == z3.Z3_ARRAY_SORT:
                inner = None
                for cand in (z3.Select(a, i), z3.simplify(z3.Select(a, i)), z3.Select(base, i)):
                    inner = self.peel(v, cand)
                    if inner is not None:
                        break
                if inner is not None:
                    return us + [(vs, g, (i, *ip), val) for vs, g, ip, val in inner]
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    pass
            return us + [([], z3.BoolVal(True), (i,), v)]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, x, y = t.children()
            ux, uy = self.peel(x, base), self.peel(y, base)
            if ux is not None and uy is not None:
                return [(vs, z3.And(c, g), ip, v) for vs, g, ip, v in ux] + [(vs, z3.And(z3.Not(c), g), ip, v) for vs, g, ip, v in uy]
        rec = self.ex.bulks.get(t.get_id())
        if rec is not None and not isinstance(rec[1], str) and rec[0].eq(t):
            us = self.peel(rec[1], base)
            if us is None:
                return None
            return us + rec[2]
        return None

    def derive_array(self, k, li, j, fins):
        b, H, L0 = self.b, self.H[k][j], self.init[k][j]
        ups = []
        for pi, t in zip(self.pinfo, fins):
            us = self.peel(t, H)
            if us is None:
                us2 = self.peel(z3.simplify(t), H)
                us = us2
            if us is None:
                return
            for u in us:
                ups.append((pi, u))
        if not ups:
            return
        depth = min(len(u[2]) for _, u in ups)
        norm = []
        for pi, (vs, g, ip, val) in ups:
            if len(ip) > depth:
                ip, val = ip[:depth], None
            # rename the update's own variables
            ren = [(v, z3.Const(f"{v}!{len(norm)}", v.sort())) for v in vs]
            if ren:
                g = z3.substitute(g, *ren)
                ip = tuple(z3.substitute(x, *ren) for x in ip)
                val = z3.substitute(val, *ren) if val is not None else None
                vs = [n for _, n in ren]
            cond = self.conj(pi["hfree"] + ([g] if not mentions(g, self.Hnames) and not z3.is_true(g) else []))
            if any(mentions(x, self.Hnames) for x in ip):
                ip0 = tuple(self.toL0(x) for x in ip)
                norm.append((pi, vs, cond, ip, val, True, g))
                continue
            norm.append((pi, vs, cond, ip, val, False, g))
        s = H.sort()
        ksorts = []
        for _ in range(depth):
            ksorts.append(s.domain())
            s = s.range()
        ks = [z3.Const(f"k{n}!o", so) for n, so in enumerate(ksorts)]
        leaf = lambda A, idx: _sel(A, idx)
        hidx = any(n[5] for n in norm)

        def origin(D, cur, c, mode):
            C = cur[k][j]
            alts = []
            for pi, vs, cond, ip, val, _, g in norm:
                parts = [D(b), cond] + [ki == xi for ki, xi in zip(ks, ip)]
                if mode == "val" and val is not None:
                    v0 = val if not mentions(val, self.Hnames) else self.toL0(val)
                    parts.append(leaf(C, ks) == v0)
                alts.append(elim_exists([b, *vs], parts))
            return forall(ks, z3.Or(leaf(C, ks) == leaf(L0, ks), *alts), pats=[leaf(C, ks)])
        if not hidx:
            self.cand(f"origin-val {k}.{j}", lambda D, cur, c: origin(D, cur, c, "val"))
            self.cand(f"origin {k}.{j}", lambda D, cur, c: origin(D, cur, c, "any"))
            if s == INT:
                # counters: each visit moves the cell by a constant
                pass
        if s == BOOL:
            vals = {str(n[4]) for n in norm}
            if vals == {"True"}:
                self.cand(f"grows {k}.{j}", lambda D, cur, c: forall(ks, z3.Implies(leaf(L0, ks), leaf(cur[k][j], ks)), pats=[leaf(L0, ks), leaf(cur[k][j], ks)]))
            if vals == {"False"}:
                self.cand(f"shrinks {k}.{j}", lambda D, cur, c: forall(ks, z3.Implies(leaf(cur[k][j], ks), leaf(L0, ks)), pats=[leaf(cur[k][j], ks)]))
        for n, (pi, vs, cond, ip, val, hd, g) in enumerate(norm):
            if hd or val is None:
                continue

            def effect(D, cur, c, pi=pi, vs=vs, cond=cond, ip=ip, val=val):
                v0 = val if not mentions(val, self.Hnames) else self.toL0(val)
                return forall([b, *vs], z3.Implies(z3.And(D(b), cond), _sel(cur[k][j], ip) == v0))
            self.cand(f"effect{n} {k}.{j}", effect)
            if mentions(val, self.Hnames) and val.sort() == BOOL:
                # monotone flag stored in a cell: value when the old value is False / True
                for const in (False, True):
                    def eff2(D, cur, c, pi=pi, vs=vs, cond=cond, ip=ip, val=val, const=const):
                        vv = z3.substitute(val, (_sel(H, ip), z3.BoolVal(const)))
                        vv = self.toL0(vv)
                        x = _sel(cur[k][j], ip)
                        return forall([b, *vs], z3.Implies(z3.And(D(b), cond), z3.Implies(vv, x) if not const else z3.Implies(x, vv)))
                    self.cand(f"effect{n}m{const} {k}.{j}", eff2)

    # scalars ----------------------------------------------------------------------------------
    def derive_scalar(self, k, li, j, fins):
        b, H, L0 = self.b, self.H[k][j], self.init[k][j]
        ch = [(pi, z3.simplify(t)) for pi, t in zip(self.pinfo, fins)]
        mod = [(pi, t) for pi, t in ch if not t.eq(H)]
        if not mod:
            return
        N = self.Hnames
        sort = H.sort()

        def origin(D, cur, c, withval):
            alts = []
            for pi, t in mod:
                parts = [D(b), *pi["hfree"]]
                if withval:
                    if mentions(t, N):
                        t = self.toL0(t)
                    parts.append(cur[k][j] == t)
                alts.append(elim_exists([b], parts))
            return z3.Or(cur[k][j] == L0, *alts)
        self.cand(f"origin-val {k}.{j}", lambda D, cur, c: origin(D, cur, c, True))
        self.cand(f"origin {k}.{j}", lambda D, cur, c: origin(D, cur, c, False))
        for n, (pi, t) in enumerate(mod):
            if not mentions(t, N):
                self.cand(f"sticky{n} {k}.{j}", lambda D, cur, c, pi=pi, t=t: forall([b], z3.Implies(self.conj([D(b), *pi["hfree"]]), cur[k][j] == t)))
        if sort == BOOL:
            for n, (pi, t) in enumerate(ch):
                for const in (False, True):
                    tt = self.toL0(z3.simplify(z3.substitute(t, (H, z3.BoolVal(const)))))
                    self.cand(f"flag{n}{const} {k}.{j}", lambda D, cur, c, pi=pi, tt=tt, const=const: forall(
                        [b], z3.Implies(self.conj([D(b), *pi["hfree"]]), z3.Implies(tt, cur[k][j]) if not const else z3.Implies(cur[k][j], tt))))
            up = [(pi, z3.simplify(z3.substitute(t, (H, z3.BoolVal(False))))) for pi, t in ch]
            self.cand(f"flagup {k}.{j}", lambda D, cur, c: z3.Implies(cur[k][j], z3.Or(L0, *[elim_exists([b], [D(b), *pi["hfree"], self.toL0(t)]) for pi, t in up])))
            dn = [(pi, z3.simplify(z3.substitute(t, (H, z3.BoolVal(True))))) for pi, t in ch]
            self.cand(f"flagdn {k}.{j}", lambda D, cur, c: z3.Implies(z3.Not(cur[k][j]), z3.Or(z3.Not(L0), *[elim_exists([b], [D(b), *pi["hfree"], z3.Not(self.toL0(t))]) for pi, t in dn])))
            self.cand(f"flagkeep {k}.{j}", lambda D, cur, c: z3.Implies(L0, cur[k][j]))
            self.cand(f"flagkeepn {k}.{j}", lambda D, cur, c: z3.Implies(z3.Not(L0), z3.Not(cur[k][j])))
        if sort in (INT, REAL):
            steps = [(pi, z3.simplify(t - H)) for pi, t in ch]
            if all(not mentions(s, N) for _, s in steps):
                closed = all(not occurs(s, b) and z3.is_int_value(s) for _, s in steps)
                if closed and sort == INT:
                    ks = {s.as_long() for _, s in steps}
                    if len(ks) == 1:
                        kk = ks.pop()
                        self.cand(f"count {k}.{j}", lambda D, cur, c: cur[k][j] == L0 + kk * c)
                    else:
                        if min(ks) >= 0:
                            self.cand(f"up {k}.{j}", lambda D, cur, c: z3.And(cur[k][j] >= L0, cur[k][j] <= L0 + max(ks) * c))
                            for pi, s in steps:
                                if s.as_long() > 0:
                                    self.cand(f"pos {k}.{j}", lambda D, cur, c, pi=pi: forall([b], z3.Implies(self.conj([D(b), *pi["hfree"]]), cur[k][j] > L0)))
                            pos = [pi for pi, s in steps if s.as_long() > 0]
                            self.cand(f"posw {k}.{j}", lambda D, cur, c: z3.Implies(cur[k][j] > L0, z3.Or(*[elim_exists([b], [D(b), *pi["hfree"]]) for pi in pos])))
                if self.dom.ordered:
                    ps = self.ex.fresh_fn("psum", INT, sort)
                    step = steps[-1][1]
                    for pi, s in steps[:-1]:
                        step = z3.If(self.conj(pi["hfree"]), s, step)
                    lo = self.dom.lo
                    zero = z3.IntVal(0) if sort == INT else z3.RealVal(0)
                    x = z3.Int("x!ps")
                    self.defs.append(ps(lo) == zero)
                    self.defs.append(z3.ForAll([x], z3.Implies(z3.And(lo <= x, x < self.dom.hi), ps(x + 1) == ps(x) + z3.substitute(step, (b, x))), patterns=[ps(x)]))
                    self.cand(f"psum {k}.{j}", lambda D, cur, c: cur[k][j] == L0 + ps(lo + c))
                else:
                    # conditional count over an unordered domain: cardinality of the selected subset
                    pass
        if self.dom.ordered and all(not mentions(t, N) for _, t in ch):
            lo = self.dom.lo
            for n, (pi, t) in enumerate(ch):
                self.cand(f"last{n} {k}.{j}", lambda D, cur, c, pi=pi, t=t: z3.Implies(z3.And(c > 0, z3.substitute(self.conj(pi["hfree"]), (b, lo + c - 1))),
                                                                                        cur[k][j] == z3.substitute(t, (b, lo + c - 1))))
            self.cand(f"none-yet {k}.{j}", lambda D, cur, c: z3.Implies(c == 0, cur[k][j] == L0))

    # sequences --------------------------------------------------------------------------------
    def derive_seq(self, k, li, fins):
        b, H, L0 = self.b, self.H[k], self.init[k]
        N = self.Hnames
        n0 = L0[0]
        apps = []           # per path: list of appended element tuples, or ('bulk', ...)
        for pi, f in zip(self.pinfo, fins):
            a = self.peel_seq(f, H)
            if a is None:
                return
            apps.append((pi, a))
        kk = z3.Int("k!q")
        self.cand(f"seq-keep {k}", lambda D, cur, c: forall([kk], z3.Implies(z3.And(0 <= kk, kk < n0), z3.And(*[z3.Select(x, kk) == z3.Select(y, kk) for x, y in zip(cur[k][1:], L0[1:])])),
                                                             pats=[z3.Select(cur[k][1], kk), *([z3.Select(L0[1], kk)] if z3.is_const(L0[1]) and L0[1].decl().kind() == z3.Z3_OP_UNINTERPRETED else [])]))
        self.cand(f"seq-grow {k}", lambda D, cur, c: cur[k][0] >= n0)
        lens = {len(a) if all(x[0] == "one" for x in a) else -1 for _, a in apps}
        if len(lens) == 1 and -1 not in lens:
            m = lens.pop()
            self.cand(f"seq-len {k}", lambda D, cur, c: cur[k][0] == n0 + m * c)
            if self.dom.ordered:
                lo = self.dom.lo
                for pi, a in apps:
                    for q, (_, terms) in enumerate(a):
                        if any(mentions(t, N) for t in terms):
                            terms = [self.toL0(t) for t in terms]
                        self.cand(f"seq-at{q} {k}", lambda D, cur, c, pi=pi, q=q, terms=terms: forall([b], z3.Implies(
                            self.conj([D(b), *pi["hfree"]]), z3.And(*[z3.Select(x, n0 + m * (b - lo) + q) == t for x, t in zip(cur[k][1:], terms)]))))
                        if m == 1:
                            def byidx(D, cur, c, pi=pi, terms=terms):
                                sub = lambda t: z3.substitute(t, (b, kk - n0 + lo))
                                return forall([kk], z3.Implies(z3.And(n0 <= kk, kk < cur[k][0], *[sub(d) for d in pi["hfree"]]),
                                                               z3.And(*[z3.Select(x, kk) == sub(t) for x, t in zip(cur[k][1:], terms)])), pats=[z3.Select(cur[k][1], kk)])
                            self.cand(f"seq-idx {k}", byidx)
        else:
            self.cand(f"seq-len-up {k}", lambda D, cur, c: z3.Implies(c == 0, cur[k][0] == n0))

        # contents
        items = []
        for pi, a in apps:
            for it in a:
                if it[0] == "one":
                    items.append((pi, [], z3.BoolVal(True), it[1]))
                else:
                    for vs, g, terms in it[1]:
                        items.append((pi, vs, g, terms))

        def from_(D, cur, c):
            alts = []
            for pi, vs, g, terms in items:
                parts = [D(b), *pi["hfree"]] + ([g] if not mentions(g, N) else [])
                ts = [t if not mentions(t, N) else self.toL0(t) for t in terms]
                parts += [z3.Select(x, kk) == t for x, t in zip(cur[k][1:], ts)]
                alts.append(elim_exists([b, *vs], parts))
            return forall([kk], z3.Implies(z3.And(n0 <= kk, kk < cur[k][0]), z3.Or(*alts) if alts else z3.BoolVal(False)), pats=[z3.Select(cur[k][1], kk)])
        self.cand(f"seq-from {k}", from_)
        for n, (pi, vs, g, terms) in enumerate(items):
            ts = [t if not mentions(t, N) else self.toL0(t) for t in terms]

            def into(D, cur, c, pi=pi, vs=vs, g=g, ts=ts):
                pre = [D(b), *pi["hfree"]] + ([g] if not mentions(g, N) else [])
                return forall([b, *vs], z3.Implies(self.conj(pre), z3.Exists([kk], z3.And(n0 <= kk, kk < cur[k][0], *[z3.Select(x, kk) == t for x, t in zip(cur[k][1:], ts)]))))
            offs = [j for a_ in (a for p_, a in apps if p_ is pi) for j, it in enumerate(a_) if it[0] == "one" and it[1] is terms and all(z[0] == "one" for z in a_)]
            if not vs and len(offs) == 1:
                # witness version: a ghost array records where the iteration's element was appended
                def into_at(D, cur, c, pi=pi, g=g, ts=ts, n=n, off=offs[0]):
                    st = self.stage
                    if st[0] == "post":
                        P = z3.Store(st[3][(k, n)], st[1], st[2][k][0] + off)
                    else:
                        P = self.ex.fresh("pos", z3.ArraySort(self.dom.sort, INT))
                        if st[0] == "hyp":
                            st[3][(k, n)] = P
                    pre = [D(b), *pi["hfree"]] + ([g] if not mentions(g, N) else [])
                    at = z3.Select(P, b)
                    return forall([b], z3.Implies(self.conj(pre), z3.And(n0 <= at, at < cur[k][0], *[z3.Select(x, at) == t for x, t in zip(cur[k][1:], ts)])))
                self.cand(f"seq-into-at{n} {k}", into_at)
                continue
            self.cand(f"seq-into{n} {k}", into)
        self.seqitems[k] = (items,)

    def peel_seq(self, f, H):
        """Appends turning sequence H into f."""
        if all(x.eq(y) for x, y in zip(f, H)):
            return []
        rec = self.ex.bulks.get(f[1].get_id())
        if rec is not None and rec[0].eq(f[1]) and rec[1] == "seq" and rec[2].eq(f[0]):
            base = rec[3]
            a = self.peel_seq(base, H)
            if a is None:
                return None
            return a + [("bulk", rec[4])]
        if all(z3.is_store(x) for x in f[1:]):
            idx = f[1].arg(1)
            prev = [x.arg(0) for x in f[1:]]
            if z3.simplify(f[0] - idx - 1).eq(z3.IntVal(0)):
                a = self.peel_seq([idx, *prev], H) if not idx.eq(f[0]) else None
                if a is None:
                    # idx may be a simplified form of the base length
                    return None
                return a + [("one", [x.arg(2) for x in f[1:]])]
        if all(x.eq(y) for x, y in zip(f[1:], H[1:])) and z3.simplify(f[0] - H[0]).eq(z3.IntVal(0)):
            return []
        return None

    # ------------------------------------------------------------------ checking
    def D_none(self):
        return lambda x: z3.BoolVal(False)

    def houdini(self):
        ex, dom = self.ex, self.dom
        t_start = time.time()
        self.timeout = 4000
        # initiation
        self.begin()
        for d in self.defs:
            ex.assume(d)
        for li in self.infos.values():
            self.fill_init(li) if not li.opaque else None
        keep = []
        cur0 = {k: li.init for k, li in self.infos.items()}
        pcs = ex.pcs()
        self.extra = []
        self.stage = ("init",)
        for name, g in self.hook_invs(self.D_none(), z3.IntVal(0)):
            if self.valid(pcs, g):
                self.extra.append(name)
            elif os.environ.get("PYVC_LOOPDEBUG"):
                print("loop", self.name, "spec invariant not established:", name)
        for name, f in self.cands:
            g = f(self.D_none(), cur0, z3.IntVal(0))
            gs = g if smt.has_quant_cached(g) else z3.simplify(g)
            if z3.is_true(gs) or self.valid(pcs, g):
                keep.append((name, f))
        self.cands = keep
        # preservation
        rounds = 0
        while True:
            rounds += 1
            self.begin()
            for d in self.defs:
                ex.assume(d)
            ex.counter = self.base_counter - ROOM + 1
            F = self.fresh_terms("F")
            self.enter(F)
            b0 = ex.fresh("b0", dom.sort)
            cnt = ex.fresh("cnt", INT)
            if dom.ordered:
                lo = dom.lo
                ex.assume(cnt == b0 - lo)
                ex.assume(cnt >= 0)
                D = lambda x: z3.And(lo <= x, x < b0)
                D2 = lambda x: z3.And(lo <= x, x < b0 + 1)
            else:
                Dset = ex.fresh("D", z3.ArraySort(dom.sort, BOOL))
                x = z3.Const("x!D", dom.sort)
                ex.assume(z3.ForAll([x], z3.Implies(z3.Select(Dset, x), dom.member(x)), patterns=[z3.Select(Dset, x)]))
                ex.assume(z3.Not(z3.Select(Dset, b0)))
                ex.assume(cnt >= 0)
                D = lambda x: z3.Select(Dset, x)
                D2 = lambda x: z3.Or(z3.Select(Dset, x), x == b0)
            self.stage = ("hyp", b0, F, {})
            for name, f in self.cands:
                ex.assume(f(D, F, cnt))
            for name, g in self.hook_invs(D, cnt):
                if name in self.extra:
                    ex.assume(g)
            self.stage = ("post", *self.stage[1:])
            ex.counter = self.base_counter
            paths = ex.explore(lambda: self.run_body(b0))
            bad = set()
            badx = set()
            for p in paths:
                if p.kind != "ok":
                    continue
                pi = dict(path=p, fin=scan(p.snap))
                self.H, Hsave = F, self.H
                try:
                    cur = {}
                    for k, li in self.infos.items():
                        cur[k] = [] if li.opaque else self.final_terms(pi, k)
                finally:
                    self.H = Hsave
                # anything modified that is not havocked?
                self.check_unmodified(p)
                pcs = p.pc
                goals = []
                for n, (name, f) in enumerate(self.cands):
                    if n in bad:
                        continue
                    goals.append((n, f(D2, cur, cnt + 1)))
                for n in self.failing(pcs, goals, {n for n, _ in goals if self.cands[n][0].startswith("fact")}):
                    bad.add(n)
                if self.extra:
                    keep_state = Snapshot(ex)
                    ex.restore(p.snap)
                    hs = [(name, g) for name, g in self.hook_invs(D2, cnt + 1) if name in self.extra]
                    pcs = ex.pcs()
                    ex.restore(keep_state)
                    for name, g in hs:
                        if not self.valid(pcs, g, hard=True):
                            badx.add(name)
            if not bad and not badx:
                break
            STAT["dropped"] += len(bad)
            if os.environ.get("PYVC_LOOPDEBUG"):
                print("loop", self.name, "dropped", [self.cands[n][0] for n in bad], badx)
            self.extra = [n for n in self.extra if n not in badx]
            self.cands = [c for n, c in enumerate(self.cands) if n not in bad]
            if rounds > 8:
                raise Unsupported("loop invariant inference did not converge")
        STAT["invariants"] += len(self.cands)

    def hook_invs(self, D, cnt):
        """Invariants supplied by the specification, evaluated in the current state."""
        if self.hook is None:
            return []
        try:
            self.ex.loop = self
            return list(self.hook(self.ex, self.fr, self.dom, D, cnt))
        except (KeyError, AttributeError) as e:
            raise Unsupported(f"the loop in {self.name} no longer has the shape its stated invariant refers to ({e!r})")

    def check_unmodified(self, p):
        pass

    def failing(self, pcs, goals, minor=()):
        """Indices of goals not implied by pcs (tries all at once first; minor ones get little effort each)."""
        if not goals:
            return []
        if len(goals) > 1 and self.valid(pcs, z3.And(*[g for _, g in goals]), quick=True):
            return []
        return [n for n, g in goals if not self.valid(pcs, g, quick=n in minor)]

    def valid(self, pcs, g, quick=False, hard=False):
        g2 = g if smt.has_quant_cached(g) else z3.simplify(g)
        if z3.is_true(g2):
            return True
        s = z3.SimpleSolver()
        s.set("mbqi", False)
        # deterministic resource limits first, wall clock as a backstop
        s.set("rlimit", 2_000_000 if quick else 60_000_000 if hard else 8_000_000)
        s.set("timeout", 3000 if quick else 60000 if hard else 2 * self.timeout)
        t0 = time.time()
        s.add(*smt.background())
        s.add(*pcs)
        s.add(z3.Not(g))
        r = s.check()
        smt.STATS.add("z3-loop", time.time() - t0)
        return r == z3.unsat

    # ------------------------------------------------------------------ use
    def conclude(self):
        ex, dom, b = self.ex, self.dom, self.b
        self.begin()
        ex.counter = max(ex.hi, self.base_counter) + 1
        for d in self.defs:
            ex.assume(d)
        if self.exits:
            if not self.normal:
                # every iteration exits: runs iff the domain is non-empty
                cond = z3.Exists([b], dom.member(b))
                take_exit = ex.branch(cond)
            elif all(not ei["hdep"] for ei in self.einfo):
                disj = z3.Or(*[self.conj(ei["hfree"]) for ei in self.einfo])
                cond = z3.Exists([b], z3.And(dom.member(b), disj))
                fs = [z3.ForAll([b], z3.Implies(self.conj([dom.member(b), *pi["hfree"]]), f)) for pi in self.einfo + self.pinfo for f in pi["ffree"]]
                take_exit = ex.branch(cond)
            else:
                take_exit = not ex.choose()
            if take_exit:
                return self.exit_run()
        F = self.fresh_terms("L")
        self.enter(F)
        if dom.ordered:
            D = lambda x: z3.And(dom.lo <= x, x < dom.hi)
            cnt = z3.simplify(z3.If(dom.hi > dom.lo, dom.hi - dom.lo, z3.IntVal(0)))
        else:
            D = dom.member
            cnt = card(dom.mem) if dom.mem is not None else ex.fresh("cnt", INT)
            if dom.mem is not None and (self.cands or self.extra):
                ex.assume(cnt >= 0)
        self.stage = ("use",)
        for name, f in self.cands:
            ex.assume(f(D, F, cnt))
        for name, g in self.hook_invs(D, cnt):
            if name in self.extra:
                ex.assume(g)
        self.record(F, D)
        return True

    def record(self, F, D):
        """Remember bulk effects so that enclosing loops can see through them."""
        ex, b = self.ex, self.b
        names = {n for n, _ in self.cands}
        for k, li in self.infos.items():
            if li.opaque:
                continue
            if li.kind == "seq" and k in self.seqitems and f"seq-from {k}" in names:
                items = self.seqitems[k][0]
                recs = []
                ok = True
                for pi, vs, g, terms in items:
                    if any(mentions(t, self.Hnames) for t in terms) or mentions(g, self.Hnames):
                        ok = False
                    recs.append(([b, *vs], self.conj([D(b), *pi["hfree"], g]), terms))
                if ok:
                    ex.bulks[F[k][1].get_id()] = (F[k][1], "seq", F[k][0], self.init[k], recs)
            elif li.kind in ("set", "map", "field"):
                for j in range(len(li.init)):
                    ups = []
                    good = True
                    for pi in self.pinfo:
                        us = self.peel(self.final_terms(pi, k)[j], self.H[k][j])
                        if us is None:
                            good = False
                            break
                        for vs, g, ip, val in us:
                            val = self.toL0(val) if mentions(val, self.Hnames) else val
                            if any(mentions(x, self.Hnames) for x in ip) or mentions(g, self.Hnames):
                                good = False
                            ups.append(([b, *vs], self.conj([D(b), *pi["hfree"], g]), ip, val))
                    if good and ups:
                        ex.bulks[F[k][j].get_id()] = (F[k][j], self.init[k][j], ups)

    def exit_run(self):
        ex, dom = self.ex, self.dom
        F = self.fresh_terms("X")
        self.enter(F)
        b0 = ex.fresh("at", dom.sort)
        ex.assume(dom.member(b0))
        cnt = ex.fresh("cnt", INT)
        if dom.ordered:
            ex.assume(cnt == b0 - dom.lo)
            D = lambda x: z3.And(dom.lo <= x, x < b0)
        else:
            Dset = ex.fresh("D", z3.ArraySort(dom.sort, BOOL))
            x = z3.Const("x!D", dom.sort)
            ex.assume(z3.ForAll([x], z3.Implies(z3.Select(Dset, x), z3.And(dom.member(x), x != b0)), patterns=[z3.Select(Dset, x)]))
            ex.assume(cnt >= 0)
            D = lambda x: z3.Select(Dset, x)
        if not self.normal:          # no iteration ever completes, so this is the first one
            ex.assume(cnt == 0)
            D = lambda x: z3.BoolVal(False)
        self.stage = ("use",)
        for name, f in self.cands:
            ex.assume(f(D, F, cnt))
        for name, g in self.hook_invs(D, cnt):
            if name in self.extra:
                ex.assume(g)
        ex.counter = self.base_counter
        ex.bvars.append(b0)
        e = dom.elem(ex, b0)
        try:
            self.body(e)
        except (PyBreak, PyReturn, PyRaise):
            ex.bvars.pop()
            ex.counter = max(ex.hi, ex.counter) + 1
            raise
        raise PathAbort


# ------------------------------------------------------------------------------------------------ formula helpers

def _sel(A, idx):
    for i in idx:
        A = z3.Select(A, i)
    return A


def occurs(t, x):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            todo.extend(e.children())
    return False


def forall(vs, body, pats=None):
    vs = [v for v in vs if occurs(body, v)]
    if not vs:
        return body
    if pats:
        ok = [p for p in pats if all(occurs(p, v) for v in vs) and pattern_ok(p)]
        if ok:
            return z3.ForAll(vs, body, patterns=ok)
    return z3.ForAll(vs, body)


def pattern_ok(p):
    if z3.is_select(p) and (z3.is_store(p.arg(0)) or z3.is_const_array(p.arg(0)) or z3.is_app_of(p.arg(0), z3.Z3_OP_ITE)):
        return False
    if z3.is_select(p) and z3.is_select(p.arg(0)):
        return pattern_ok(p.arg(0))
    return True


def elim_exists(vs, parts):
    """Exists vs. And(parts), eliminating variables fixed by an equality k == v."""
    vs = list(vs)
    parts = [p for p in parts if not z3.is_true(p)]
    again = True
    while again:
        again = False
        for p in parts:
            if z3.is_eq(p):
                x, y = p.children()
                for a, t in ((x, y), (y, x)):
                    hit = next((v for v in vs if v.eq(a)), None)
                    if hit is not None and not occurs(t, hit):
                        parts = [z3.substitute(q, (hit, t)) for q in parts if q is not p]
                        vs = [v for v in vs if not v.eq(hit)]
                        again = True
                        break
            if again:
                break
    body = z3.And(*parts) if parts else z3.BoolVal(True)
    vs = [v for v in vs if occurs(body, v)]
    return z3.Exists(vs, body) if vs else body


# ------------------------------------------------------------------------------------------------ while

def while_rule(ex, s, fr):
    import ast
    name = f"{fr.func.name}:while"
    inv = ex.ctx.while_invs.get(fr.func.name)
    W = While(ex, s, fr, name, inv)
    W.run()


class While(Loop):
    def __init__(self, ex, s, fr, name, inv):
        super().__init__(ex, None, None, name)
        self.s, self.fr, self.inv = s, fr, inv

    def run(self):
        ex, s, fr = self.ex, self.s, self.fr
        STAT["loops"] += 1
        self.S0 = Snapshot(ex)
        self.base_counter = ex.hi + ROOM
        ex.hi = self.base_counter
        self.resym = {}
        entry_addr = ex.next_addr

        def step():
            if not ex.branch(ex.truth_of(s.test, fr)):
                raise PathAbort
            try:
                ex.exec_block(s.body, fr)
            except E.PyContinue:
                pass
        shallow, nested = SHALLOW[0], STAT["loops"]
        SHALLOW[0] = True
        try:
            for attempt in range(16):
                self.begin()
                self.init_locs = scan(ex)
                for li in self.infos.values():
                    self.fill_init(li)
                H = self.fresh_terms("H")
                self.enter(H)
                ex.counter = max(ex.counter, self.base_counter)
                pre = scan(ex)
                paths = ex.explore(step)
                if not self.detect(pre, paths, entry_addr):
                    break
            else:
                raise Unsupported("while loop modification analysis did not converge")
        finally:
            SHALLOW[0] = shallow
        self.init = {k: li.init for k, li in self.infos.items()}
        if self.inv is None:
            raise Unsupported(f"while loop in {fr.func.name} without an invariant")
        # initiation
        self.begin()
        for nm, g in self.inv(ex, fr, "init"):
            if not self.prove(ex.pcs(), g):
                raise Fail(f"while-invariant-init:{fr.func.name}:{nm}", "")
        # preservation
        self.begin()
        ex.counter = max(ex.counter, ex.hi) + 1
        F = self.fresh_terms("F")
        self.enter(F)
        for nm, g in self.inv(ex, fr, "assume"):
            ex.assume(g)
        paths = ex.explore(step)
        only_ok = all(p.kind == "ok" for p in paths)
        save = Snapshot(ex)
        for p in paths:
            if p.kind != "ok":
                continue
            ex.restore(p.snap)
            for nm, g in self.inv(ex, fr, "prove"):
                if not self.prove(ex.pcs(), g):
                    raise Fail(f"while-invariant-preserved:{fr.func.name}:{nm}", "")
        ex.restore(save)
        # use
        self.begin()
        ex.counter = max(ex.counter, ex.hi) + 1
        F = self.fresh_terms("W")
        self.enter(F)
        for nm, g in self.inv(ex, fr, "assume"):
            ex.assume(g)
        if ex.branch(ex.truth_of(s.test, fr)):
            if only_ok:   # from every state the invariant allows, the body only runs to its end: no other way out of the loop
                raise PathAbort
            try:
                ex.exec_block(s.body, fr)
            except PyBreak:
                return
            except E.PyContinue:
                pass
            raise PathAbort
        ex.exec_block(s.orelse, fr)
        return

    def prove(self, pcs, g):
        st, _, _ = smt.check_valid(pcs, g, 10000)
        return st == "valid"
