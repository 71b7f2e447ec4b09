"""P19: random edit sequences on QuantumGraphSkeleton against a plain model of nodes, edges and attributes."""
import contextlib
import itertools
from hlib import *
from lsst.daf.butler import DataCoordinate, DatasetRef, DatasetType, DimensionRecordSet, DimensionUniverse, StorageClass
from lsst.pipe.base.quantum_graph_skeleton import DatasetKey, PrerequisiteDatasetKey, QuantumGraphSkeleton, QuantumKey, TaskInitKey

U = DimensionUniverse()
TASKS = ["t0", "t1", "t2", "t3"]
NAMES = ["a", "b", "c", "d", "e"]
SC = StorageClass("SkelTest", pytype=dict)
DIDS = [DataCoordinate.standardize({"band": str(i)}, universe=U) for i in range(4)]
EMPTY = DataCoordinate.make_empty(U)
REFS = {}


class NoButler:
    """All records are given: nothing has to be asked of the butler."""

    @contextlib.contextmanager
    def query(self):
        yield None


def ref(name, i, run="run"):
    k = (name, i, run)
    if k not in REFS:
        did = EMPTY if i is None else DIDS[i]
        REFS[k] = DatasetRef(DatasetType(name, did.dimensions, SC), did, run=run)
    return REFS[k]


def qk(l, i):
    return QuantumKey(l, DIDS[i].required_values)


def dk(n, i):
    return DatasetKey(n, (EMPTY if i is None else DIDS[i]).required_values)


class Model:
    def __init__(self, labels):
        self.tasks = set(labels)
        self.nodes = {TaskInitKey(l): {} for l in labels}
        self.edges = set()
        self.globals = set()
        self.records = set()
        self.idx = None

    def index(self):
        if self.idx is None:
            self.idx = ({}, {})
            for a, b in self.edges:
                self.idx[0].setdefault(a, set()).add(b)
                self.idx[1].setdefault(b, set()).add(a)
        return self.idx

    def succ(self, k):
        return set(self.index()[0].get(k, ()))

    def pred(self, k):
        return set(self.index()[1].get(k, ()))

    def drop(self, ks):
        ks = set(ks)
        self.idx = None
        for k in ks:
            self.nodes.pop(k, None)
        self.edges = {(a, b) for a, b in self.edges if a not in ks and b not in ks}

    def desc(self, k):
        out, todo = set(), [k]
        while todo:
            for b in self.succ(todo.pop()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def quanta(self, l):
        return {k for k in self.nodes if isinstance(k, QuantumKey) and k.task_label == l}


def compare(s, m, what):
    m.idx = None
    require(set(s) == set(m.nodes), f"after {what}: nodes differ: {set(s) ^ set(m.nodes)}")
    require(s.n_nodes == len(m.nodes) and s.n_edges == len(m.edges), f"after {what}: {s.n_nodes} nodes, {s.n_edges} edges; expected {len(m.nodes)}, {len(m.edges)}")
    allq = list(s.iter_all_quanta())
    require(len(allq) == len(set(allq)) and set(allq) == {k for k in m.nodes if isinstance(k, QuantumKey)}, f"after {what}: iter_all_quanta {allq}")
    require(s.has_any_quanta == bool(allq), f"after {what}: has_any_quanta")
    for l in TASKS:
        require(s.has_task(l) == (l in m.tasks), f"after {what}: has_task({l}) is {s.has_task(l)}")
        if l in m.tasks:
            require(set(s.get_quanta(l)) == m.quanta(l), f"after {what}: quanta of {l} are {set(s.get_quanta(l))}, the graph has {m.quanta(l)}")
            require(s.get_task_init_node(l) == TaskInitKey(l) and TaskInitKey(l) in s, f"after {what}: init node of {l}")
    for k, st in m.nodes.items():
        require(k in s, f"after {what}: {k} not contained")
        if k.is_task:
            require(set(s.iter_inputs_of(k)) == m.pred(k), f"after {what}: inputs of {k}")
            require(set(s.iter_outputs_of(k)) == m.succ(k), f"after {what}: outputs of {k}")
            if isinstance(k, QuantumKey):
                require(s.get_data_id(k) == st["data_id"], f"after {what}: data ID of {k}")
        else:
            require(s.get_dataset_ref(k) == st.get("ref"), f"after {what}: ref of {k} is {s.get_dataset_ref(k)}, expected {st.get('ref')}")
            require(s.get_data_id(k) == st["data_id"] and s.get_data_id(k).hasRecords() == st["data_id"].hasRecords(), f"after {what}: data ID of {k}")
            r = s.get_dataset_ref(k)
            if r is not None:
                require(r.dataId.hasRecords() == st["ref"].dataId.hasRecords(), f"after {what}: the ref of {k} does not carry the node's expanded data ID")
            if not k.is_prerequisite:
                ps = m.pred(k)
                got = s.get_producer_of(k)
                require((got is None) == (not ps) and (got is None or got in ps), f"after {what}: producer of {k} is {got}, expected {ps}")
                for nm, g in (("skip", s.get_output_for_skip(k)), ("way", s.get_output_in_the_way(k))):
                    require(g == st.get(nm), f"after {what}: {nm} of {k} is {g}, expected {st.get(nm)}")
                    require(g is None or g.dataId.hasRecords() == st[nm].dataId.hasRecords(), f"after {what}: {nm} ref of {k} is stale")
    have = {r.dataId["band"] for rs in s.get_dimension_data() if rs.element.name == "band" for r in rs}
    require(m.records <= have, f"after {what}: dimension records of {m.records - have} are lost")
    for k, st in m.nodes.items():
        if "data_id" in st and st["data_id"].hasRecords() and "band" in st["data_id"].dimensions:
            got = s.get_data_id(k)
            require(got.records["band"] is not None and got.records["band"].name == got["band"], f"after {what}: {k} has the records of another data ID")
    require(set(s.global_init_outputs) == m.globals, f"after {what}: global init-outputs {set(s.global_init_outputs)}")


def step(s, m, op, allow_update=True):
    o = op[0]
    m.idx = None
    if o == "addq":
        l, i = op[1:3]
        if l not in m.tasks:
            return None
        k = s.add_quantum_node(l, DIDS[i], extra=7)
        require(k == qk(l, i), "add_quantum_node returns another key")
        m.nodes.setdefault(k, {}).update(data_id=DIDS[i])
        require(s[k]["extra"] == 7, "an attribute given when adding the node is lost")
    elif o == "addd":
        n, i = op[1:3]
        k = s.add_dataset_node(n, DIDS[i])
        require(k == dk(n, i), "add_dataset_node returns another key")
        m.nodes.setdefault(k, {}).update(data_id=DIDS[i])
    elif o == "addg":
        k = s.add_dataset_node(op[1], EMPTY, is_global_init_output=True)
        m.nodes.setdefault(k, {}).update(data_id=EMPTY)
        m.globals.add(k)
    elif o == "pre":
        n, i, j = op[1:4]
        r = ref("p" + n, i, f"run{j}")
        k = s.add_prerequisite_node(r)
        require(k == PrerequisiteDatasetKey("p" + n, r.id.bytes), "add_prerequisite_node returns another key")
        m.nodes.setdefault(k, {}).update(data_id=r.dataId, ref=r)
        if len(op) > 4:
            q = qk(*op[4])
            if q in m.nodes:
                s.add_input_edge(q, k)
                m.edges.add((k, q))
    elif o == "in":
        q, keys = qk(*op[1]), [dk(*x) for x in op[2]]
        keys = [k for k in keys if k in m.nodes and m.pred(k) != {q} and k not in m.desc(q)]
        if op[3] == "ignore":
            for k in keys:
                got = s.add_input_edge(q, k, ignore_unrecognized_quanta=True)
                require(got == (q in m.nodes), f"add_input_edge answered {got}")
        elif q in m.nodes:
            if op[3] == "many":
                s.add_input_edges(q, keys)
            else:
                for k in keys:
                    require(s.add_input_edge(q, k) is True, "add_input_edge did not report the edge")
        if q in m.nodes:
            m.edges |= {(k, q) for k in keys}
    elif o == "out":
        q, k = qk(*op[1]), dk(*op[2])
        if q not in m.nodes or k not in m.nodes or m.pred(k) or q in m.desc(k):
            return None
        s.add_output_edge(q, k)
        m.edges.add((q, k))
    elif o == "iout":
        l, n = op[1:3]
        k = dk("i" + n, None)
        if l not in m.tasks or m.pred(k):
            return None
        s.add_dataset_node("i" + n, EMPTY)
        m.nodes.setdefault(k, {}).update(data_id=EMPTY)
        s.add_output_edge(s.get_task_init_node(l), k)
        m.edges.add((TaskInitKey(l), k))
    elif o == "iin":
        l, n = op[1:3]
        k, t = dk("i" + n, None), TaskInitKey(op[1])
        if l not in m.tasks or k not in m.nodes or k in m.desc(t):
            return None
        s.add_input_edge(t, k)
        m.edges.add((k, t))
        for q in m.quanta(l):
            s.add_input_edge(q, k)
            m.edges.add((k, q))
    elif o == "rmq":
        q = qk(*op[1])
        if q not in m.nodes:
            return None
        s.remove_quantum_node(q, remove_outputs=op[2])
        m.drop({q} | (m.succ(q) if op[2] else set()))
    elif o == "rmd":
        ks = [dk(*x) for x in op[1]]
        s.remove_dataset_nodes(iter(ks) if op[2] else ks)
        m.drop(ks)
    elif o == "rmt":
        l = op[1]
        if l not in m.tasks or m.quanta(l) or m.succ(TaskInitKey(l)):
            return None
        s.remove_task(l)
        m.tasks.discard(l)
        m.drop([TaskInitKey(l)])
    elif o == "rmin":
        q, ks = qk(*op[1]), [dk(*x) for x in op[2]]
        if q not in m.nodes:
            return None
        s.remove_input_edges(q, ks)
        m.edges -= {(k, q) for k in ks}
    elif o == "rmout":
        k = dk(*op[1])
        if k not in m.nodes or len(m.pred(k)) != 1:
            return None
        s.remove_output_edge(k)
        m.edges = {(a, b) for a, b in m.edges if b != k}
    elif o == "orph":
        s.remove_orphan_datasets()
        m.drop([k for k in m.nodes if not k.is_task and k not in m.globals and not m.succ(k) and not m.pred(k)])
    elif o == "una":
        a, b = op[1:3]
        got = s.remove_unanchored_quanta(a, b)
        want = {}
        if a in m.tasks:
            anchors = m.quanta(b) if b in m.tasks else set()
            un = {q for q in m.quanta(a) if not (m.desc(q) & anchors)}
            doomed = set(un)
            for q in un:
                doomed |= m.desc(q)
            for k in doomed:
                if isinstance(k, QuantumKey):
                    want[k.task_label] = want.get(k.task_label, 0) + 1
            m.drop(doomed)
            for l in want:
                if not m.quanta(l):
                    m.drop(m.succ(TaskInitKey(l)))
                    m.drop([TaskInitKey(l)])
                    m.tasks.discard(l)
        require(dict(got) == want, f"remove_unanchored_quanta({a}, {b}) reports {got}, expected {want}")
    elif o in ("ref", "skip", "way"):
        n, i = op[1:3]
        k, r = dk(n, i), ref(n, i, o)
        if k not in m.nodes:
            return None
        if m.nodes[k]["data_id"].hasRecords():
            r = r.expanded(m.nodes[k]["data_id"])
        if o == "ref":
            s.set_dataset_ref(r, k) if op[3] else s.set_dataset_ref(r)
        elif o == "skip":
            s.set_output_for_skip(r)
        else:
            s.set_output_in_the_way(r)
        m.nodes[k][o] = r
    elif o == "clear":
        k = dk(*op[1])
        if k not in m.nodes:
            return None
        s.discard_output_in_the_way(k)
        m.nodes[k].pop("way", None)
    elif o == "did":
        k = dk(*op[1]) if op[2] else qk(*op[1])
        if k not in m.nodes:
            return None
        new = DataCoordinate.from_full_values(U.conform(["band"]), m.nodes[k]["data_id"].full_values).expanded({"band": U["band"].RecordClass(name=m.nodes[k]["data_id"]["band"])})
        s.set_data_id(k, new)
        m.nodes[k]["data_id"] = new
        for nm in ("ref", "skip", "way"):
            if nm in m.nodes[k]:
                m.nodes[k][nm] = m.nodes[k][nm].expanded(new)
    elif o == "recs":
        names = sorted({st["data_id"]["band"] for st in m.nodes.values() if "data_id" in st and "band" in st["data_id"].dimensions} | {str(i) for i in op[1]})
        cut = op[2] % (len(names) + 1)
        sets = [DimensionRecordSet(U["band"], [U["band"].RecordClass(name=n) for n in ns]) for ns in (names[:cut], names[cut:])]
        s.attach_dimension_records(NoButler(), U.conform(["band"]), iter(sets) if op[2] % 2 else sets)
        m.records |= set(names)
        for k, st in m.nodes.items():
            if "data_id" in st and not st["data_id"].hasRecords():
                st["data_id"] = st["data_id"].expanded({"band": U["band"].RecordClass(name=st["data_id"]["band"])})
                for nm in ("ref", "skip", "way"):
                    if nm in st:
                        st[nm] = st[nm].expanded(st["data_id"])
    elif o == "overall":
        gen0 = [k for k in m.nodes if not k.is_task and not m.pred(k)]
        if any(m.nodes[k].get("ref") is None for k in gen0):
            return None
        got = s.extract_overall_inputs()
        consumed = {k: m.nodes[k]["ref"] for k in gen0 if m.succ(k)}
        require(set(got) <= set(gen0), f"{set(got) - set(gen0)} reported as overall inputs although the graph produces them")
        require(set(consumed) <= set(got), f"overall inputs {set(consumed) - set(got)} missing")
        require(all(got[k] == consumed[k] for k in consumed), "another ref is reported for an overall input")
    elif o == "update" and allow_update:
        labels = [l for l in op[1] if l in m.tasks]
        s2, m2 = QuantumGraphSkeleton(labels), Model(labels)
        for sub in op[2]:
            step(s2, m2, sub, False)
        for a, b in m2.edges:        # keep one producer per dataset
            if not b.is_task and m.pred(b) and m.pred(b) != {a}:
                return None
        trial = Model([])
        trial.nodes, trial.edges = dict(m.nodes), m.edges | m2.edges
        if any(k in trial.desc(k) for k in m.nodes):
            return None
        if any(l not in m2.tasks for l in labels):
            return None
        s.update(s2)
        m.edges |= m2.edges
        m.records |= m2.records
        for k, st in m2.nodes.items():
            m.nodes.setdefault(k, {}).update(st)
        compare(s2, m2, "update (the other skeleton)")
    return True


def check(case):
    labels = case["labels"]
    s, m = QuantumGraphSkeleton(labels), Model(labels)
    compare(s, m, "construction")
    for op in case["ops"]:
        step(s, m, op)
        compare(s, m, op)


def rop(rng, depth=0):
    q = lambda: [rng.choice(TASKS), rng.randrange(3)]
    d = lambda: [rng.choice(NAMES), rng.randrange(3)]
    o = rng.choices(["addq", "addd", "pre", "in", "out", "iout", "iin", "rmq", "rmd", "rmt", "rmin", "rmout", "orph", "una", "ref", "skip", "way", "clear", "did", "overall", "recs", "addg", "update"],
                    [8, 8, 3, 14, 14, 3, 3, 2, 1, 1, 1, 1, 1, 1.5, 5, 3, 3, 1, 3, 1, .7, 0 if depth else .3, 0 if depth else 1])[0]
    if o == "addq":
        return [o, *q()]
    if o == "addd":
        return [o, *d()]
    if o == "addg":
        return [o, rng.choice("gh")]
    if o == "pre":
        return [o, *d(), rng.randrange(2)] + ([q()] if rng.random() < .7 else [])
    if o == "in":
        return [o, q(), [d() for _ in range(rng.randrange(1, 4))], rng.choice(["one", "many", "ignore"])]
    if o == "out":
        return [o, q(), d()]
    if o in ("iout", "iin"):
        return [o, rng.choice(TASKS), rng.choice("xyz")]
    if o == "rmq":
        return [o, q(), rng.random() < .5]
    if o == "rmd":
        return [o, [d() for _ in range(rng.randrange(1, 3))], rng.random() < .5]
    if o == "rmt":
        return [o, rng.choice(TASKS)]
    if o == "rmin":
        return [o, q(), [d() for _ in range(rng.randrange(1, 3))]]
    if o in ("rmout", "clear"):
        return [o, d()]
    if o == "una":
        return [o, *rng.sample(TASKS, 2)]
    if o in ("ref", "skip", "way"):
        return [o, *d(), rng.random() < .5]
    if o == "recs":
        return [o, [rng.randrange(4) for _ in range(rng.randrange(3))], rng.randrange(12)]
    if o == "did":
        return [o, d(), True] if rng.random() < .5 else [o, q(), False]
    if o == "update":
        return [o, rng.sample(TASKS, rng.randrange(1, 5)), [rop(rng, 1) for _ in range(rng.randrange(1, 14))]]
    return [o]


def gen(rng, tier):
    while True:
        labels = TASKS[:rng.randrange(2, 5)]
        n = rng.choice([6, 20, 40, 70])
        ops = [rop(rng) for _ in range(n)]
        if rng.random() < .5:       # start from a populated graph
            pre = [["addq", l, i] for l in labels for i in range(3)] + [["addd", n_, i] for n_ in NAMES for i in range(3)]
            rng.shuffle(pre)
            ops = pre + [rop(rng) for _ in range(0)] + ops
            if rng.random() < .5:
                ops += [["ref", n_, i, True] for n_ in NAMES for i in range(3)] + [["overall"]]
        yield dict(labels=labels, ops=ops)


if __name__ == "__main__":
    main(gen, check, "P19")
