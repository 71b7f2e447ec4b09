"""P10: a blocking butler waits as long as the timeout of the (parent) dataset type says, on a virtual clock."""
import uuid
from hlib import *
from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, StorageClass
from lsst.pipe.base import blocking_limited_butler as mod

UNI = DimensionUniverse()
COMP = StorageClass("VComp", pytype=dict, components={"x": StorageClass("VX", pytype=list), "y": StorageClass("VX", pytype=list)})
NAMES = ["a", "b", "c"]
TYPES = [DatasetType(n, UNI.empty, COMP) for n in NAMES]
EMPTY = DataCoordinate.make_empty(UNI)
SLACK = 5.0


class Clock:
    def __init__(self, tick):
        self.now, self.tick, self.slept = 1000.0, tick, 0

    def time(self):
        self.now += self.tick
        return self.now

    monotonic = perf_counter = time

    def sleep(self, d):
        require(d >= 0, "negative sleep")
        require(self.now < 1e6, "waits far beyond any timeout")
        self.slept += 1
        self.now += d


class Store(LimitedButler):
    def __init__(self, clock, appears, boom):
        self.clock, self.appears, self.boom, self.t0 = clock, appears, boom, clock.now
        self.calls = []

    def isWriteable(self):
        return False

    @property
    def dimensions(self):
        return UNI

    def put(self, obj, ref, /, *, provenance=None):
        self.calls.append(("put", obj, ref, provenance))
        return ref

    def pruneDatasets(self, refs, *, disassociate=True, unstore=False, tags=(), purge=False):
        self.calls.append(("prune", list(refs), disassociate, unstore, tuple(tags), purge))

    def here(self, ref):
        iv = self.appears[ref.id.int]
        t = self.clock.now - self.t0
        return iv is not None and t >= iv[0] and (iv[1] is None or t < iv[1])

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.calls.append(("get", ref, parameters, storageClass))
        if self.boom is not None and len(self.calls) > self.boom:
            raise ValueError("corrupt file")
        if not self.here(ref):
            raise FileNotFoundError(str(ref.id))
        return ("obj", ref.id.int, str(ref.datasetType.name), str(parameters), str(storageClass))

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        return ("deferred", ref, parameters, storageClass)

    def stored_many(self, refs):
        return {r: self.here(r) for r in refs}


def mkref(i, spec):
    t, comp = spec
    dt = TYPES[t].makeComponentDatasetType("x") if comp else TYPES[t]
    return DatasetRef(dt, EMPTY, run="r", id=uuid.UUID(int=i), conform=True)


def check(case):
    refs = [mkref(i, s) for i, s in enumerate(case["refs"])]
    timeouts = {NAMES[int(k)]: v for k, v in case["timeouts"].items()}
    eff = [timeouts.get(NAMES[s[0]], 0.0) for s in case["refs"]]
    appears = case["appears"]
    saved = mod.time
    try:
        for mode in case["modes"]:
            clock = Clock(case["tick"])
            mod.time = clock
            w = Store(clock, appears, case["boom"])
            b = mod.BlockingLimitedButler(w, timeouts)
            t0 = clock.now
            if mode == "get":
                r, T, iv = refs[0], eff[0], appears[0]
                kw = dict(parameters={"p": 1}, storageClass="S") if case["kw"] else {}
                want = ("obj", 0, r.datasetType.name, str(kw.get("parameters")), str(kw.get("storageClass")))
                try:
                    got = b.get(r, **kw)
                except FileNotFoundError:
                    el = clock.now - t0
                    require(T is not None, "gave up although the timeout is None")
                    require(el > T, f"gave up after {el}s, before the timeout of {T}s")
                    require(el <= T + SLACK, f"gave up only after {el}s, timeout {T}s")
                    require(iv is None or iv[0] > T - 2 * case["tick"] or iv[1] is not None, f"dataset present from {iv} never found, timeout {T}")
                except ValueError:
                    require(case["boom"] is not None and len(w.calls) == case["boom"] + 1, "a failed read other than 'missing' must be passed on at once")
                else:
                    require(got == want, f"get returned {got}")
                    require(iv is not None and clock.now - t0 <= max(iv[0], 0) + SLACK, "answer came late")
                if T == 0.0 and case["tick"] > 0:
                    require(clock.slept == 0, "waits although the dataset type has no timeout")
                if appears[0] is not None and appears[0][0] <= 0 and appears[0][1] is None and case["boom"] is None:
                    require(clock.slept == 0, "waits although the dataset is available")
            elif mode == "many":
                got = b.stored_many(iter(refs) if case["kw"] else refs)
                el = clock.now - t0
                require(set(got) == set(refs), f"answered {set(got)} for {set(refs)}")
                latest = 0
                for r, T, iv in zip(refs, eff, appears):
                    if got[r]:
                        require(iv is not None, "reported as stored but never was")
                    else:
                        require(T is not None, "reported missing although the timeout is None")
                        require(el > T, f"reported missing after {el}s, before the timeout of {T}s")
                        require(iv is None or iv[0] > T - 2 * case["tick"] or iv[1] is not None, f"dataset present from {iv} reported missing, timeout {T}")
                    bound = iv[0] if iv is not None and (T is None or iv[0] <= T) and iv[1] is None else (T or 0)
                    latest = max(latest, bound)
                if all(iv is None or iv[1] is None for iv in appears):
                    require(el <= latest + SLACK, f"answer took {el}s, needed {latest}s")
                    if latest == 0 and case["tick"] > 0:
                        require(clock.slept == 0, "waits for nothing")
            elif mode == "forward":
                require(b.getDeferred(refs[0], parameters={"q": 1}, storageClass="S") == ("deferred", refs[0], {"q": 1}, "S"), "getDeferred")
                require(b.put(5, refs[0], provenance=None) == refs[0] and w.calls[-1] == ("put", 5, refs[0], None), "put")
                b.pruneDatasets(refs, disassociate=False, unstore=True, tags=["t"], purge=True)
                require(w.calls[-1] == ("prune", refs, False, True, ("t",), True), "pruneDatasets")
                require(b.isWriteable() is False and b.dimensions is UNI and clock.slept == 0, "forwarding")
    finally:
        mod.time = saved


def gen(rng, tier):
    for T in ("absent", 0.0, 0.2, 3.0, None):
        for at in (None, 0, 0.1, 2.4, 2.9, 3.4, 40):
            if T is None and at is None:
                continue
            for comp in (False, True):
                yield dict(refs=[[0, comp], [1, False]], timeouts={} if T == "absent" else {"0": T}, appears=[None if at is None else [at, None], [0, None]],
                           tick=0.001, boom=None, kw=comp, modes=["get", "many", "forward"])
    for _ in range(40000 if tier == "quick" else 60000):
        n = rng.randint(1, 5)
        tm = {str(k): rng.choice([None, 0.0, 0.3, 1.0, rng.uniform(0, 20)]) for k in range(3) if rng.random() < 0.7}
        refs = [[rng.randrange(3), rng.random() < 0.3] for _ in range(n)]
        ap = []
        for t, _c in refs:
            forever = tm.get(str(t), 0.0) is None
            a = rng.choice([0, rng.uniform(0, 25), rng.uniform(0, 3)])
            ap.append([a, None] if forever else rng.choice([None, [a, None], [a, None], [a, a + rng.uniform(0.1, 3)]]))
        yield dict(refs=refs, timeouts=tm, appears=ap, tick=rng.choice([0.001, 0.001, 0.3]), boom=rng.choice([None, None, None, 0, 2]), kw=rng.random() < 0.5, modes=["get", "many", "forward"])


main(gen, check, "P10")
