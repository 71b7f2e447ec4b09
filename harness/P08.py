"""P08: QuantumContext only touches datasets of its quantum and gives each request its own answer."""
import uuid
from hlib import *
from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionUniverse, LimitedButler, Quantum, StorageClass
from lsst.pipe.base import QuantumContext, Struct
from lsst.pipe.base.connections import DeferredDatasetRef, InputQuantizedConnection, OutputQuantizedConnection

UNI = DimensionUniverse()
SC = StorageClass("VDict8", pytype=dict)
EMPTY = DataCoordinate.make_empty(UNI)
INST = [DataCoordinate.standardize(instrument=n, universe=UNI) for n in ("A", "B")]
NAMES = ["in1", "in2", "out1", "out2", "t_metadata", "t_log", "both", "metadata_x"]


class Boom(Exception):
    pass


class Store(LimitedButler):
    def __init__(self):
        self.reads, self.writes, self.fail_at, self.n = [], [], None, 0

    def isWriteable(self):
        return True

    @property
    def dimensions(self):
        return UNI

    def tick(self):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            raise Boom()

    def get(self, ref, /, *, parameters=None, storageClass=None):
        self.tick()
        self.reads.append(ref)
        return ("obj", ref.id.int)

    def getDeferred(self, ref, /, *, parameters=None, storageClass=None):
        self.tick()
        self.reads.append(ref)
        return ("handle", ref.id.int)

    def put(self, obj, ref, /, *, provenance=None):
        self.tick()
        self.writes.append((ref, obj, provenance))
        return ref

    def pruneDatasets(self, *a, **k):
        raise AssertionError("not part of this")


def mkref(name, k, ident):
    dims = UNI.conform(["instrument"]) if k else UNI.empty
    return DatasetRef(DatasetType(name, dims, SC), INST[k - 1] if k else EMPTY, run="r", id=uuid.UUID(int=ident), conform=True)


def check(case):
    refs = [mkref(NAMES[n], k, 100 + j) for j, (n, k) in enumerate(case["refs"])]
    ins, outs = {}, {}
    for j in case["ins"]:
        ins.setdefault(refs[j].datasetType, []).append(refs[j])
    for j in case["outs"]:
        outs.setdefault(refs[j].datasetType, []).append(refs[j])
    quantum = Quantum(taskName="t", dataId=EMPTY, inputs=ins, outputs=outs)
    b = Store()
    qid = uuid.UUID(int=5)
    qc = QuantumContext(b, quantum, quantum_id=qid)
    readable = {refs[j].id for j in case["ins"]}
    writeable = {refs[j].id for j in case["outs"] if not refs[j].datasetType.name.endswith(("_metadata", "_log"))}
    require(qc.resources.num_cores >= 1 and qc.quantum is quantum and qc.dimensions is UNI, "attributes")
    require({r[2] for r in qc.allInputs} == readable, f"allInputs {qc.allInputs}")
    require({r[2] for r in qc.allOutputs} == writeable, f"allOutputs {qc.allOutputs}")
    keyset = lambda rs: {(r.datasetType, r.dataId, r.id) for r in rs}
    require(not qc.outputsPut and not qc.dataset_provenance.inputs and qc.dataset_provenance.quantum_id == qid, "fresh context")

    def arg(spec):
        kind, j = spec
        if kind == "none":
            return None
        r = refs[j % len(refs)]
        if kind == "forged":          # same dataset type and data id, other dataset
            r = DatasetRef(r.datasetType, r.dataId, run="r", id=uuid.UUID(int=999), conform=True)
        if kind == "deferred":
            return DeferredDatasetRef(r)
        return r

    def want(a):
        if a is None:
            return None
        if isinstance(a, DeferredDatasetRef):
            return ("handle", a.datasetRef.id.int)
        return ("obj", a.id.int)

    def plain(a):
        return a.datasetRef if isinstance(a, DeferredDatasetRef) else a
    for op in case["ops"]:
        r0, w0, p0, prov0 = len(b.reads), len(b.writes), set(qc.outputsPut), {r.id for r in qc.dataset_provenance.inputs}
        b.n, b.fail_at = 0, op.get("fail")
        err = None
        res = None
        if op["op"] == "get":
            if op["form"] == "one":
                a = arg(op["args"][0])
                args, struct = [a], a
                expect = want(a)
            elif op["form"] in ("list", "tuple"):
                args = [arg(s) for s in op["args"]]
                struct = args if op["form"] == "list" else tuple(args)
                expect = [want(a) for a in args]
            else:
                struct = InputQuantizedConnection()
                args, expect = [], {}
                for name, multi, specs in op["conns"]:
                    v = [arg(s) for s in specs]
                    if not multi:
                        v = v[:1] or [None]
                    args += v
                    setattr(struct, name, v if multi else v[0])
                    expect[name] = [want(a) for a in v] if multi else want(v[0])
            try:
                res = qc.get(struct)
            except (ValueError, Boom) as e:
                err = e
            except TypeError as e:
                raise Violation(f"TypeError: {e}")
            reads = b.reads[r0:]
            for r in reads:
                require(r.id in readable, f"read a dataset that is not an input: {r}")
            prov = {r.id for r in qc.dataset_provenance.inputs}
            require({r.id for r in reads} <= prov, "a dataset was read without being recorded in the provenance")
            require(prov - prov0 <= readable, "the provenance names a dataset that is not an input of the quantum")
            bad = [a for a in args if a is not None and plain(a).id not in readable]
            if err is None:
                require(not bad, f"access to {bad} not refused")
                require(res == expect, f"get returned {res}, expected {expect}")
                require(sorted(r.id for r in reads) == sorted(plain(a).id for a in args if a is not None), "every dataset is read once per request")
            elif isinstance(err, ValueError):
                require(bad, f"refused although every dataset is an input: {err}")
            else:
                require(op.get("fail") is not None, "unexpected failure")
            require(len(b.writes) == w0 and qc.outputsPut == p0, "get wrote something")
        else:
            form = op["form"]
            pairs = []
            mismatch = False
            if form == "one":
                r = arg(op["args"][0])
                if r is None or isinstance(r, DeferredDatasetRef):
                    continue
                struct, vals = r, "v0"
                pairs = [(r, "v0")]
            elif form in ("list", "tuple"):
                rs = [a for a in map(arg, op["args"]) if a is not None and not isinstance(a, DeferredDatasetRef)]
                vals = [f"v{j}" for j in range(len(rs) + op.get("extra", 0))]
                if op.get("extra", 0) < 0:
                    vals = vals[:max(0, len(rs) + op["extra"])]
                struct = rs if form == "list" else tuple(rs)
                mismatch = len(vals) != len(rs)
                pairs = list(zip(rs, vals))
            else:
                struct = OutputQuantizedConnection()
                vals = Struct()
                for name, multi, specs in op["conns"]:
                    v = [a for a in map(arg, specs) if a is not None and not isinstance(a, DeferredDatasetRef)]
                    if not multi:
                        v = v[:1]
                        if not v:
                            continue
                    setattr(struct, name, v if multi else v[0])
                    how = op["how"].get(name, "ok")
                    if how == "absent":
                        continue
                    if how == "none":
                        setattr(vals, name, None)
                        continue
                    if multi:
                        vv = [f"{name}{j}" for j in range(len(v) + (1 if how == "long" else 0))]
                        if len(vv) != len(v):
                            mismatch = True
                            setattr(vals, name, vv)
                            continue
                        setattr(vals, name, vv)
                        pairs += list(zip(v, vv))
                    else:
                        setattr(vals, name, f"{name}!")
                        pairs.append((v[0], f"{name}!"))
            try:
                qc.put(vals, struct)
            except (ValueError, Boom) as e:
                err = e
            writes = b.writes[w0:]
            for r, o, prov in writes:
                require(r.id in writeable, f"wrote a dataset that is not a regular output: {r}")
                require(prov is qc.dataset_provenance, "written without the provenance of this quantum")
            done, todo = [(r.id, o) for r, o, _ in writes], [(r.id, o) for r, o in pairs]
            require(all(done.count(e) <= todo.count(e) for e in done), f"wrote {done}, expected {todo}")
            require(qc.outputsPut - p0 <= keyset([r for r, _, _ in writes]) and keyset([r for r, _, _ in writes]) <= qc.outputsPut, "outputsPut does not list what was written")
            bad = [r for r, _ in pairs if r.id not in writeable]
            if err is None:
                require(not bad and not mismatch, f"accepted {bad} mismatch={mismatch}")
                require(len(writes) == len(pairs), "not everything was written")
            elif isinstance(err, ValueError):
                require(bad or mismatch, f"refused without reason: {err}")
                if mismatch and form != "conn":
                    require(not writes, "wrote although the numbers of values and datasets differ")
            require(len(b.reads) == r0, "put read something")
            require({r[2] for r in qc.allInputs} == readable and {r[2] for r in qc.allOutputs} == writeable, "allowed datasets changed")


def spec(rng, n):
    return [rng.choices(["ref", "deferred", "none", "forged"], [7, 2, 1, 0.5])[0], rng.randrange(n)]


def gen(rng, tier):
    for _ in range(40000 if tier == "quick" else 90000):
        n = rng.randint(2, 7)
        refs = [[rng.randrange(len(NAMES)), rng.randrange(3)] for _ in range(n)]
        seen = set()
        refs = [r for r in refs if (tuple(r) not in seen and not seen.add(tuple(r)))]
        # one dimension choice per dataset type name
        dim = {}
        refs = [[a, dim.setdefault(a, 1 if k else 0) and max(k, 1)] for a, k in refs]
        n = len(refs)
        ins = [j for j in range(n) if NAMES[refs[j][0]].startswith(("in", "both")) or rng.random() < 0.1]
        outs = [j for j in range(n) if not NAMES[refs[j][0]].startswith("in") and (rng.random() < 0.9)]
        clean = rng.random() < 0.6
        ops = []
        for _ in range(rng.randint(1, 5)):
            kind = rng.choice(["get", "put"])
            pool = (ins if kind == "get" else outs) if clean else list(range(n))
            sp = lambda: ([rng.choices(["ref", "deferred", "none"], [7, 2, 1])[0], rng.choice(pool)] if pool else ["none", 0]) if clean else spec(rng, n)
            o = dict(op=kind, form=rng.choice(["one", "list", "tuple", "conn"]), fail=rng.choice([None, None, None, 1, 2]))
            if o["form"] == "conn":
                o["conns"] = [["c%d" % c, rng.random() < 0.5, [sp() for _ in range(rng.randint(0, 3))]] for c in range(rng.randint(0, 3))]
                o["how"] = {"c%d" % c: rng.choice(["ok", "ok", "ok", "absent", "none", "long"]) for c in range(3)}
            else:
                o["args"] = [sp() for _ in range(rng.randint(1, 4))]
                o["extra"] = rng.choice([0, 0, 0, 1, -1])
            ops.append(o)
        yield dict(refs=refs, ins=ins, outs=outs, ops=ops)


main(gen, check, "P08")
