"""P09: a caching butler answers exactly what the butler it wraps would answer, and never hands out its cached object."""
import copy
import uuid
from hlib import *
from lsst.daf.butler import (DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, StorageClass, StorageClassFactory)
from lsst.pipe.base.caching_limited_butler import CachingLimitedButler

UNI = DimensionUniverse()
LIST = StorageClass("VList", pytype=list, parameters={"slice"}, delegate="lsst.daf.butler.tests.ListDelegate")
TUPLE = StorageClass("VTuple", pytype=tuple, converters={"list": "builtins.tuple"})
DICT = StorageClass("VDict", pytype=dict)
FACTORY = StorageClassFactory()
for _sc in (LIST, TUPLE, DICT):
    try:
        FACTORY.registerStorageClass(_sc)
    except Exception:
        pass
TYPES = [DatasetType(n, UNI.empty, sc) for n, sc in (("a", LIST), ("b", LIST), ("c", DICT))]
EMPTY = DataCoordinate.make_empty(UNI)


class Boom(Exception):
    pass


class Store(LimitedButler):
    """The wrapped butler: an id-keyed store of independent copies."""

    def __init__(self):
        self.objs = {}
        self.fail = False
        self.storageClasses = FACTORY
        self.asked = []
        self.puts = []

    def isWriteable(self):
        return True

    @property
    def dimensions(self):
        return UNI

    def put(self, obj, ref, /, *, provenance=None):
        if self.fail:
            raise Boom("disk full")
        if ref.id in self.objs:
            raise Boom("exists")
        self.objs[ref.id] = copy.deepcopy(obj)
        self.puts.append((ref, provenance))
        return ref

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.asked.append(ref.id)
        if ref.id not in self.objs:
            raise FileNotFoundError(str(ref.id))
        o = copy.deepcopy(self.objs[ref.id])
        if parameters:
            o = [o[parameters["slice"]]] if isinstance(parameters["slice"], int) else o[parameters["slice"]]
        if storageClass is not None:
            if isinstance(storageClass, str):
                storageClass = FACTORY.getStorageClass(storageClass)
            if storageClass.pytype is tuple:
                o = tuple(o)
        return o

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        return ("deferred", ref, parameters, storageClass)

    def stored_many(self, refs):
        return {r: r.id in self.objs for r in refs}

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        if self.fail:
            raise Boom("cannot prune")
        self.flags = (disassociate, unstore, tuple(tags), purge)
        for r in refs:
            if unstore:
                self.objs.pop(r.id, None)


def content(t, seed):
    return {"v": [seed, seed + 1]} if t == 2 else [seed, [seed + 1], seed + 2, seed]


def scribble(o):
    if isinstance(o, list):
        o.append(99)
        if o and isinstance(o[0], list):
            o[0].append(98)
        if len(o) > 1 and isinstance(o[1], list):
            o[1].append(97)
    elif isinstance(o, dict):
        o["w"] = 1
        o.get("v", []).append(5)


def check(case):
    refs = [DatasetRef(TYPES[t], EMPTY, run="r", id=uuid.UUID(int=i + 1), conform=True) for i, t in enumerate(case["refs"])]
    names = lambda ks: frozenset("abc"[k] for k in ks)
    w = Store()
    nocopy = names(case["nocopy"])
    b = CachingLimitedButler(w, cache_on_put=names(case["on_put"]), cache_on_get=names(case["on_get"]), no_copy_on_cache=nocopy)
    require(b.isWriteable() is True and b.dimensions is UNI, "pass-through members")
    ref_ids = lambda rs: [str(r.id.int) for r in rs]
    shared = []

    def outcome(f):
        try:
            return ("ok", f())
        except (Boom, FileNotFoundError) as e:
            return ("err", type(e).__name__)
    for op in case["ops"]:
        k = op[0]
        if k == "put":
            i, fail, seed = op[1], op[2], op[3]
            r = refs[i % len(refs)]
            obj = content(case["refs"][i % len(refs)], seed)
            before = copy.deepcopy(w.objs)
            w.fail = fail
            got = outcome(lambda: b.put(obj, r, provenance=None))
            w.fail = False
            if fail or r.id in before:
                require(got == ("err", "Boom") and w.objs == before, f"failed put {got}")
            else:
                require(got[0] == "ok" and got[1] == r and w.objs[r.id] == obj, f"put: {got}")
        elif k == "get":
            i, mode = op[1], op[2]
            r = refs[i % len(refs)]
            islist = r.datasetType.storageClass.pytype is list
            kw = {}
            if mode == "slice" and islist:
                kw = dict(parameters={"slice": slice(0, 2)})
            elif mode == "empty":
                kw = dict(parameters={})
            elif mode == "name":
                kw = dict(storageClass=r.datasetType.storageClass.name)
            elif mode in ("tuple", "tuplename") and islist:
                kw = dict(storageClass=TUPLE if mode == "tuple" else TUPLE.name)
            elif mode == "sc":
                kw = dict(storageClass=r.datasetType.storageClass)
            want = outcome(lambda: w.get(r, **kw))
            got = outcome(lambda: b.get(r, **kw))
            require(got == want, f"get {r.datasetType.name}:{r.id.int} {mode}: {got} but the wrapped butler answers {want}")
            if got[0] == "ok" and r.datasetType.name not in nocopy:
                scribble(got[1])
        elif k == "many":
            rs = [refs[i % len(refs)] for i in op[1]]
            want = w.stored_many(rs)
            got = b.stored_many(iter(rs) if op[2] else rs)
            require(got == want, f"stored_many: {got} but the wrapped butler answers {want}")
            for r in rs:
                require(b.stored(r) == want[r], "stored")
        elif k == "prune":
            rs = [refs[i % len(refs)] for i in op[1]]
            flag, fail = op[2], op[3]
            before = dict(w.objs)
            w.fail = fail
            w.flags = None
            if op[4:] == ["defaults"]:
                flag, flags = False, (True, False, (), False)
                outcome(lambda: b.pruneDatasets(iter(rs)))
            else:
                flags = (not flag, flag, ("t",) if fail is None else (), flag and len(rs) % 2 == 0)
                outcome(lambda: b.pruneDatasets(iter(rs), disassociate=flags[0], unstore=flag, tags=flags[2], purge=flags[3]))
            w.fail = False
            require(w.flags == (None if fail else flags), f"pruneDatasets was called with {flags} and the wrapped butler got {w.flags}")
            want = {i: o for i, o in before.items() if not (flag and not fail and i in {r.id for r in rs})}
            require(w.objs == want, f"prune(unstore={flag}) of {ref_ids(rs)}: left {[i.int for i in w.objs]}, expected {[i.int for i in want]}")
        elif k == "deferred":
            r = refs[op[1] % len(refs)]
            require(b.getDeferred(r, parameters={"slice": 1}, storageClass="VList") == ("deferred", r, {"slice": 1}, "VList"), "getDeferred must forward")
    for r in refs:
        want = outcome(lambda: w.get(r))
        got = outcome(lambda: b.get(r))
        require(got == want, f"final get of {r.datasetType.name}:{r.id.int}: {got} but the wrapped butler answers {want}")


def op(rng, n):
    k = rng.random()
    if k < 0.28:
        return ["put", rng.randrange(n), rng.random() < 0.25, rng.randint(0, 50)]
    if k < 0.68:
        return ["get", rng.randrange(n), rng.choice(["plain", "plain", "slice", "empty", "name", "sc", "tuple", "tuplename"])]
    if k < 0.82:
        return ["many", [rng.randrange(n) for _ in range(rng.randint(0, 4))], rng.random() < 0.5]
    if k < 0.96:
        return ["prune", [rng.randrange(n) for _ in range(rng.randint(0, 3))], rng.random() < 0.8, rng.choice([False, False, False, False, True, None])] + (["defaults"] if rng.random() < .2 else [])
    return ["deferred", rng.randrange(n)]


def gen(rng, tier):
    for on_put in ([], [0]):
        for on_get in ([], [0]):
            for nc in ([], [0]):
                for ops in ([["put", 0, False, 1], ["get", 0, "plain"], ["get", 0, "slice"], ["get", 1, "plain"]],
                            [["put", 0, True, 1], ["many", [0], False], ["get", 0, "plain"]],
                            [["put", 0, False, 1], ["put", 1, False, 2], ["get", 0, "plain"], ["get", 1, "plain"], ["get", 0, "plain"]],
                            [["put", 0, False, 1], ["get", 0, "plain"], ["prune", [0], True, False], ["many", [0, 1], True], ["get", 0, "plain"]],
                            [["put", 0, False, 1], ["get", 0, "plain"], ["prune", [1, 0], True, False], ["get", 0, "plain"]],
                            [["put", 0, False, 1], ["get", 0, "slice"], ["get", 0, "plain"]],
                            [["put", 0, False, 1], ["get", 0, "plain"], ["get", 0, "plain"], ["get", 0, "plain"]]):
                    yield dict(refs=[0, 0], on_put=on_put, on_get=on_get, nocopy=nc, ops=ops)
    for _ in range(40000 if tier == "quick" else 80000):
        n = rng.randint(1, 5)
        yield dict(refs=[rng.choice([0, 0, 1, 2]) for _ in range(n)], on_put=[k for k in range(3) if rng.random() < 0.6], on_get=[k for k in range(3) if rng.random() < 0.6],
                   nocopy=[k for k in range(3) if rng.random() < 0.2], ops=[op(rng, n) for _ in range(rng.randint(2, 14))])


main(gen, check, "P09")
