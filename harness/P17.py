"""P17: random sets of connections resolved by the real PipelineGraph, against a direct statement of the outcome."""
from hlib import *
import pickle
from lsst.daf.butler import DatasetType, DimensionUniverse, MissingDatasetTypeError, StorageClass, StorageClassFactory
from lsst.pipe.base.pipeline_graph import ConnectionTypeConsistencyError, DuplicateOutputError, IncompatibleDatasetTypeError, NodeType, PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

F = StorageClassFactory()
for n, t in (("VpInt", int), ("VpBool", bool), ("VpStr", str)):
    F.registerStorageClass(StorageClass(n, pytype=t))
F.registerStorageClass(StorageClass("VpComp", pytype=dict, components={"c": F.getStorageClass("VpBool"), "k": F.getStorageClass("VpStr")}))
U = DimensionUniverse()
ROLES = dict(out="outputs", init_out="init_outputs", init_in="init_inputs", pre="prerequisite_inputs")


class Registry:
    dimensions = U

    def __init__(self, types):
        self.types = types

    def getDatasetType(self, name):
        if name not in self.types:
            raise MissingDatasetTypeError(name)
        return self.types[name]


def build(tasks):
    g = PipelineGraph()
    for n, t in enumerate(tasks):
        cfg = DynamicTestPipelineTaskConfig()
        cfg.dimensions = ["instrument"]
        for k, c in enumerate(t):
            name = c["type"] + (".c" if c["role"] == "comp" or c.get("comp") else "")
            getattr(cfg, ROLES.get(c["role"], "inputs"))[f"c{k}"] = DynamicConnectionConfig(dataset_type_name=name, dimensions=c["dims"], storage_class=c["sc"], is_calibration=c["cal"], minimum=c["minimum"], multiple=True, mock_storage_class=False)
        g.add_task(f"t{n}", DynamicTestPipelineTask, cfg)
    return g


def own(c):
    return DatasetType(c["type"], U.conform([] if c["role"].startswith("init") else c["dims"]), storageClass=c["sc"], isCalibration=c["cal"] and not c["role"].startswith("init"))


def expect(conns, reg):
    """(possible errors, definition, prerequisite, constraint)"""
    W = [c for c in conns if c["role"] in ("out", "init_out")]
    R = [c for c in conns if c not in W]
    bad = set()
    if len(W) > 1:
        bad.add(DuplicateOutputError)
    for w in W:
        if reg is not None and not reg.is_compatible_with(own(w)):
            bad.add(IncompatibleDatasetTypeError)
    pre = {c["role"] == "pre" for c in R} | ({False} if W else set())
    if len(pre) > 1:
        bad.add(ConnectionTypeConsistencyError)
    d = reg if reg is not None else own(W[0]) if W else None
    whole = [c for c in R if not (c["role"] == "comp" or c.get("comp"))]
    if d is None:
        if not whole:
            bad.add(MissingDatasetTypeError)
        else:
            d = own(whole[0])
            if any(own(c) != d for c in whole):
                bad.add(MissingDatasetTypeError)
    else:
        if any(not own(c).is_compatible_with(d) for c in whole):
            bad.add(IncompatibleDatasetTypeError)
    if d is not None:
        for c in R:
            if c not in whole:
                comps = d.storageClass.components
                if "c" not in comps or not F.getStorageClass(c["sc"]).can_convert(comps["c"]):
                    bad.add(IncompatibleDatasetTypeError)
    # with two producers or two unregistered definitions the rest is judged against either
    return bad, d, pre, not W and all(c["minimum"] != 0 or c["role"] == "init_in" for c in R)


def state(g):
    return {n: (g.dataset_types[n] if g.dataset_types.is_resolved(n) else None) for n in g.dataset_types}


def check(case):
    tasks = case["tasks"]
    g = build(tasks)
    names = sorted({c["type"] for t in tasks for c in t})
    conns = {n: [dict(c, task=f"t{i}", conn=f"c{k}") for i, t in enumerate(tasks) for k, c in enumerate(t) if c["type"] == n] for n in names}

    def lookups():
        for n in names:
            W = [c for c in conns[n] if c["role"] in ("out", "init_out")]
            try:
                e = g.producing_edge_of(n)
                require(len(W) < 2, f"{n} has {len(W)} producers, but producing_edge_of returned {e}")
                require((e is None) == (not W) and (e is None or (e.task_label, e.connection_name) == (W[0]["task"], W[0]["conn"])), f"producing_edge_of({n!r}) is {e}")
                p = g.producer_of(n)
                require((p.label if p else None) == (W[0]["task"] if W else None), f"producer_of({n!r}) is {p}")
            except DuplicateOutputError:
                require(len(W) > 1, f"{n} has one producer, but producing_edge_of says several")
            got = sorted((e.task_label, e.connection_name) for e in g.consuming_edges_of(n))
            want = sorted((c["task"], c["conn"]) for c in conns[n] if c not in W)
            require(got == want, f"consuming_edges_of({n!r}) is {got}, expected {want}")
            require(sorted(t.label for t in g.consumers_of(n)) == [t for t, _ in want], f"consumers_of({n!r})")
    lookups()
    x = g.make_xgraph()
    for a, b, k, data in x.edges(keys=True, data=True):
        if k == "INIT":
            continue
        task = a if b.node_type is NodeType.DATASET_TYPE else b
        require(data["is_init"] is (task.node_type is NodeType.TASK_INIT), f"exported edge {a} -> {b} has is_init={data['is_init']!r}")
        require(data["connection_name"] == k and data["parent_dataset_type_name"] == (b if task is a else a).name, f"exported edge {a} -> {b} ({k}) says {data}")
    for no, regs in enumerate(case["registered"]):
        reg = {n: DatasetType(n, U.conform(r["dims"]), storageClass=r["sc"], isCalibration=r["cal"]) for n, r in regs.items()}
        exp = {n: expect(conns[n], reg.get(n)) for n in names}
        bad = set().union(*[e[0] for e in exp.values()]) if exp else set()
        before = state(g)
        err = None
        try:
            if case["how"] == "registry":
                g.resolve(Registry(reg))
            else:
                g.resolve(dimensions=U, dataset_types=reg)
        except Exception as e:
            err = e
        if err is not None:
            require(isinstance(err, tuple(bad)), f"resolution {no} failed with {err!r}, expected {[b.__name__ for b in bad] or 'success'}")
            after = state(g)
            require(before.keys() == after.keys() and all(before[k] is after[k] for k in before), f"resolution {no} failed ({type(err).__name__}) but changed the graph: {[k for k in before if before[k] is not after.get(k)]}")
            continue
        require(not bad, f"resolution {no} succeeded, expected {[b.__name__ for b in bad]}")
        require(g.is_fully_resolved, f"resolution {no}: not fully resolved")
        for n in names:
            _, d, pre, constraint = exp[n]
            node = g.dataset_types[n]
            require(node.dataset_type == d, f"resolution {no}: {n} is {node.dataset_type}, expected {d}")
            require({node.is_prerequisite} == pre, f"resolution {no}: {n} prerequisite {node.is_prerequisite}, expected {pre}")
            require(node.is_initial_query_constraint == constraint, f"resolution {no}: {n} constrains the query: {node.is_initial_query_constraint}, expected {constraint}")
            e = node.producing_edge
            W = [(c["task"], c["conn"]) for c in conns[n] if c["role"] in ("out", "init_out")]
            require(([(e.task_label, e.connection_name)] if e else []) == W, f"resolution {no}: producing edge of {n} is {e}")
            require(sorted((e.task_label, e.connection_name) for e in node.consuming_edges) == sorted((c["task"], c["conn"]) for c in conns[n] if (c["task"], c["conn"]) not in W), f"resolution {no}: consuming edges of {n}: {node.consuming_edges}")
            for e in [*node.consuming_edges, *([e] if e else [])]:
                c, = (c for c in conns[n] if (c["task"], c["conn"]) == (e.task_label, e.connection_name))
                t = e.adapt_dataset_type(node.dataset_type)
                comp = c["role"] == "comp" or c.get("comp")
                require(t.name == n + (".c" if comp else "") and t.storageClass_name == c["sc"] and t.dimensions == node.dimensions, f"connection {e} sees {t}")
        lookups()


def conn(rng, names, profile):
    n = rng.choice(names)
    p = profile[n]
    r = rng.random()
    role = p["role"] if r < .8 else rng.choice(["in", "in", "out", "pre", "comp", "init_in"])
    if role == "readers":
        role = rng.choice(["in", "in", "comp"]) if p["sc"] == "VpComp" else "in"
    sc = p["sc"] if rng.random() < .7 else rng.choice(["VpInt", "VpBool", "VpStr", "VpComp"])
    if role == "comp":
        sc = rng.choice(["VpBool", "VpInt", "VpInt", "VpStr"]) if rng.random() < .6 else "VpBool"
    dims = p["dims"] if rng.random() < .93 else rng.choice([["instrument"], ["instrument", "detector"], []])
    if role.startswith("init"):
        dims = []
    return dict(type=n, role=role, sc=sc, dims=dims, cal=p["cal"] if rng.random() < .96 else not p["cal"], minimum=rng.choice([0, 1, 1, 1, 1]))


def gen(rng, tier):
    while True:
        names = rng.choice([["d"], ["d"], ["d", "e"], ["d", "e", "f"]])
        profile = {}
        for n in names:
            kind = rng.random()
            profile[n] = dict(role="readers" if kind < .65 else "pre" if kind < .85 else "init_in", sc=rng.choice(["VpInt", "VpBool", "VpComp"]), dims=rng.choice([["instrument"], ["instrument", "detector"]]), cal=rng.random() < .1)
            if kind >= .85:
                profile[n].update(dims=[], cal=False)
        tasks = []
        for n in names:
            w = rng.random()
            if w < .45 and profile[n]["role"] != "pre" or w < .03:
                for _ in range(2 if w < .05 else 1):
                    c = conn(rng, [n], profile)
                    c["role"] = "init_out" if profile[n]["role"] == "init_in" else "out"
                    if c["role"] == "out" and c["sc"] == "VpBool" and rng.random() < .5:
                        c["sc"] = profile[n]["sc"]
                    tasks.append([c])
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            t, used = [], set()
            for _ in range(rng.choice([1, 1, 2])):
                c = conn(rng, names, profile)
                if c["role"] == "out":
                    c["role"] = "in"
                t.append(c)
            tasks.append(t)
        rng.shuffle(tasks)
        registered = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            reg = {}
            for n in names:
                if rng.random() < .4:
                    p = profile[n]
                    reg[n] = dict(sc=p["sc"] if rng.random() < .6 else rng.choice(["VpInt", "VpBool", "VpStr", "VpComp"]), dims=p["dims"] if rng.random() < .9 else ["instrument"], cal=p["cal"])
            registered.append(reg)
        yield dict(tasks=tasks, registered=registered, how=rng.choice(["registry", "types"]))


if __name__ == "__main__":
    main(gen, check, "P17")
