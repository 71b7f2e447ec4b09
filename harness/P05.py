"""P05: predicted quantum graphs through storage, partial reading, assembly and changes of the output run, against plain dictionaries."""
import itertools
import os
import shutil
import tempfile
import uuid
from hlib import *
from lsst.daf.butler import DataCoordinate
from lsst.pipe.base.quantum_graph._common import IncompleteQuantumGraphError
from lsst.pipe.base.quantum_graph import PredictedDatasetModel, PredictedQuantumDatasetsModel, PredictedQuantumGraph, PredictedQuantumGraphComponents
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, InMemoryRepo

DIMS = {"d": ("instrument", "detector"), "i": ("instrument",), "0": (), "f": ("instrument", "physical_filter")}
SCRATCH = tempfile.mkdtemp(prefix="p05_")
_built = {}


def conn(name, dims, multiple, minimum=1):
    return DynamicConnectionConfig(dataset_type_name=name, dimensions=list(DIMS[dims]), multiple=multiple, minimum=minimum)


def build(pipe):
    """Bytes of the components' models and everything else needed to make fresh components (built once per pipeline)."""
    key = json.dumps(pipe)
    if key not in _built:
        with InMemoryRepo("base.yaml") as repo:
            dims = {"in_" + k: k for k in DIMS} | {"pre_d": "d", "pre_i": "i"}
            for t in pipe["tasks"]:
                for n in t["outputs"]:
                    dims[n] = t["dims"]
            for t in pipe["tasks"]:
                many = lambda n: dims[n] != t["dims"] and not (dims[n] in "0i" and t["dims"] in "idf")
                repo.add_task(t["label"], dimensions=DIMS[t["dims"]],
                              inputs={f"c{j}": conn(n, dims[n], many(n)) for j, n in enumerate(t["inputs"])},
                              prerequisite_inputs={f"p{j}": conn(n, dims[n], many(n), 0) for j, n in enumerate(t["pre"])},
                              init_inputs={f"ii{j}": DynamicConnectionConfig(dataset_type_name=n) for j, n in enumerate(t["init_in"])},
                              init_outputs={f"io{j}": DynamicConnectionConfig(dataset_type_name=n) for j, n in enumerate(t["init_out"])},
                              outputs={f"o{j}": conn(n, t["dims"], False) for j, n in enumerate(t["outputs"])})
            builder = repo.make_quantum_graph_builder(output_run="out_run")
            c = builder.finish(output="out", attach_datastore_records=False)
            _built[key] = (c.pipeline_graph, c.dimension_data, c.header.model_dump_json(), c.init_quanta.model_dump_json(), [q.model_dump_json() for q in c.quantum_datasets.values()])
    return _built[key]


def fresh(pipe, drop, foreign):
    """New components of this pipeline with some of the quanta, and some inputs that are in the output run but not produced by the graph."""
    pg, dd, header, init, quanta = build(pipe)
    c = PredictedQuantumGraphComponents(pipeline_graph=pg)
    c.header = type(c.header).model_validate_json(header)
    c.dimension_data = dd
    c.init_quanta = type(c.init_quanta).model_validate_json(init)
    qs = [PredictedQuantumDatasetsModel.model_validate_json(q) for q in quanta]
    qs = [q for i, q in enumerate(qs) if i not in drop]
    if foreign:
        # as in a graph that extends a run: inputs of the output run that the graph does not produce
        for q in qs:
            for d in itertools.chain.from_iterable(q.inputs.values()):
                if d.dataset_type_name.startswith(("in_", "pre_")) and d.dataset_id.int % 2:
                    d.run = "out_run"
    for q in qs:
        c.quantum_datasets[q.quantum_id] = q
    c.set_thin_graph()
    c.set_header_counts()
    return c


def plain(models):
    f = lambda ds: {n: [(str(d.dataset_id), d.dataset_type_name, tuple(d.data_coordinate), d.run) for d in l] for n, l in ds.items()}
    return {str(q.quantum_id): (q.task_label, tuple(q.data_coordinate), f(q.inputs), f(q.outputs)) for q in models}


def ids_in(q):
    return {d[0] for l in q[2].values() for d in l}


def ids_out(q):
    return {d[0] for l in q[3].values() for d in l}


def dependencies(quanta):
    return {(a, b) for a in quanta for b in quanta if a != b and ids_out(quanta[a]) & ids_in(quanta[b])}


def check_counts(c, quanta, init):
    require(c.header.n_quanta == len(quanta), f"header counts {c.header.n_quanta} quanta of {len(quanta)}")
    per = {l: sum(1 for q in quanta.values() if q[0] == l) for l in c.pipeline_graph.tasks}
    require({l: n for l, n in c.header.n_task_quanta.items() if n or per.get(l)} == {l: n for l, n in per.items() if n}, f"header counts {c.header.n_task_quanta} quanta per task, there are {per}")
    n = len(set().union(*[ids_in(q) | ids_out(q) for q in (*quanta.values(), *init.values())]))
    require(c.header.n_datasets == n, f"header counts {c.header.n_datasets} datasets of {n}")


def check_thin(c, quanta):
    thin = {(l, str(q.quantum_id), tuple(q.data_coordinate)) for l, qs in c.thin_graph.quanta.items() for q in qs}
    require(thin == {(q[0], i, q[1]) for i, q in quanta.items()}, "the thin graph lists other quanta")
    require(sum(len(qs) for qs in c.thin_graph.quanta.values()) == len(quanta), "the thin graph lists a quantum twice")
    edges = [(str(a), str(b)) for a, b in c.thin_graph.edges]
    require(set(edges) == dependencies(quanta) and len(edges) == len(set(edges)), f"the thin graph has edges {sorted(set(edges) ^ dependencies(quanta))[:4]} wrong")


def check_graph(g, quanta, loaded, thin, init, want_build):
    """An assembled graph: `quanta` all quanta of the file, `loaded` the ids read in full, thin: whether the thin graph was read."""
    known = quanta if thin else {i: quanta[i] for i in loaded}
    pg = g.pipeline_graph
    require(len(g) == len(known), f"the graph has {len(g)} quanta, not {len(known)}")
    require(sorted(str(i) for i in g) == sorted(known), "iteration gives other quanta")
    by = {(l, d.full_values): str(i) for l, m in g.quanta_by_task.items() for d, i in m.items()}
    require(by == {(q[0], q[1]): i for i, q in known.items()}, "quanta_by_task differs")
    qx, bx = g.quantum_only_xgraph, g.bipartite_xgraph
    require({(str(a), str(b)) for a, b in qx.edges} == dependencies(known), "dependencies between quanta differ")
    for i, q in known.items():
        for x in (qx, bx):
            st = x.nodes[uuid.UUID(i)]
            require(st["task_label"] == q[0] and st["data_id"].full_values == q[1], f"quantum {i} is listed as {st['task_label']}@{st['data_id']}")
    full = {i: quanta[i] for i in loaded}
    exp_edges = {(d, i) for i, q in full.items() for d in ids_in(q)} | {(i, d) for i, q in full.items() for d in ids_out(q)}
    require({(str(a), str(b)) for a, b in bx.edges} == exp_edges, "edges between quanta and datasets differ")
    datasets = {d[0]: d for q in full.values() for l in (*q[2].values(), *q[3].values()) for d in l}
    require({str(n) for n in bx} == set(datasets) | set(known), "nodes of the bipartite graph differ")
    for i, d in datasets.items():
        st = bx.nodes[uuid.UUID(i)]
        require((st["dataset_type_name"], st["data_id"].full_values, st["run"]) == d[1:], f"dataset {d} is listed as {st['dataset_type_name']}@{st['data_id']} in {st['run']}")
    for (a, b, st) in bx.edges(data=True):
        q, d, read = (str(b), str(a), True) if str(b) in full else (str(a), str(b), False)
        names = {n for n, l in full[q][2 if read else 3].items() if d in {e[0] for e in l}}
        require(st["is_read"] == read and {e.connection_name for e in st["pipeline_edges"]} == names and len(st["pipeline_edges"]) == len(names), f"edge {d}-{q} belongs to connections {[e.connection_name for e in st['pipeline_edges']]}, not {names}")
    by = {(n, d.full_values): str(i) for n, m in g.datasets_by_type.items() for d, i in m.items()}
    exp = {(d[1], d[2]): i for i, d in datasets.items()}
    if init is not None:
        exp.update({(d[1], d[2]): d[0] for q in init.values() for l in (*q[2].values(), *q[3].values()) for d in l})
    require(by == exp, "datasets_by_type differs")
    if init is not None:
        for q in init.values():
            if q[0]:
                got = {n: (str(r.id), r.run) for n, r in g.get_init_inputs(q[0]).items()}
                require(got == {n: (l[0][0], l[0][3]) for n, l in q[2].items()}, f"init-inputs of {q[0]} are {got}")
            got = {n: (str(r.id), r.run) for n, r in g.get_init_outputs(q[0]).items()}
            require(got == {n: (l[0][0], l[0][3]) for n, l in q[3].items()}, f"init-outputs of {q[0]!r} are {got}")
    if want_build is None:
        return
    ask = [i for i in want_build if i in known]
    modes = [(ask, lambda: g.build_execution_quanta(uuid.UUID(i) for i in ask))]
    modes += [([i for i in known if known[i][0] == l], lambda l=l: g.build_execution_quanta(task_label=l)) for l in pg.tasks]
    modes += [(list(known), lambda: g.build_execution_quanta())]
    for k, (ask, f) in enumerate(modes[len(ask) % 2:] if len(ask) % 3 else modes[::-1]):
        check_built(g, f, ask, full, init)


def check_built(g, build, ask, full, init):
    pg = g.pipeline_graph
    missing = [i for i in ask if i not in full]
    try:
        got = build()
    except IncompleteQuantumGraphError:
        require(init is None or missing, "building quanta failed although everything was read")
        return
    require(not missing, f"quanta {missing} were built without having been read")
    require(init is not None, "quanta were built although the init quanta had not been read")
    require({str(i) for i in got} == set(ask), "other quanta were built")
    for i, q in got.items():
        e = full[str(i)]
        node = pg.tasks[e[0]]
        require(q.taskClass is node.task_class and q.dataId.full_values == e[1] and q.dataId.hasRecords(), f"quantum {i} is {q.taskName}@{q.dataId}")
        require(g.quantum_only_xgraph.nodes[i]["quantum"] is q and g.bipartite_xgraph.nodes[i]["quantum"] is q, f"the graphs do not have the quantum {i}")
        for mapping, exp in ((q.inputs, e[2]), (q.outputs, e[3])):
            refs = {(str(r.id), r.datasetType.name, r.dataId.full_values, r.run) for rs in mapping.values() for r in rs}
            require(refs == {d for l in exp.values() for d in l}, f"datasets of quantum {i} differ: {refs ^ {d for l in exp.values() for d in l}}")
            require(all(r.datasetType == dt and r.dataId.hasRecords() for dt, rs in mapping.items() for r in rs), "a dataset is listed under another type or without records")
        iq = next(x for x in init.values() if x[0] == e[0])
        require({str(r.id) for r in q.initInputs.values()} == ids_in(iq), f"init-inputs of quantum {i} differ")


def check(case):
    c = fresh(case["pipe"], set(case["drop"]), case["foreign"])
    quanta, init = plain(c.quantum_datasets.values()), plain(c.init_quanta.root)
    check_thin(c, quanta)
    check_counts(c, quanta, init)
    run = "out_run"
    pick = lambda sel: [list(quanta)[k % len(quanta)] for k in sel] if quanta else []
    d = tempfile.mkdtemp(dir=SCRATCH)
    try:
        for n, op in enumerate(case["ops"]):
            if op[0] == "run":
                new = f"run{n}"
                old_q, old_i = quanta, init
                c.update_output_run(new)
                quanta, init = plain(c.quantum_datasets.values()), plain(c.init_quanta.root)
                require(c.header.output_run == new, "the header keeps the old run")
                require({str(i) for i in c.quantum_datasets} == set(quanta), "quanta are listed under stale ids")
                require(not (set(old_q) | set(old_i)) & (set(quanta) | set(init)), "a quantum keeps its id")
                produced = set().union(*[ids_out(q) for q in (*old_q.values(), *old_i.values())])
                ren = {}
                for olds, news in ((old_q, quanta), (old_i, init)):
                    a = {(q[0], q[1]): q for q in olds.values()}
                    b = {(q[0], q[1]): q for q in news.values()}
                    require(a.keys() == b.keys() and len(olds) == len(news), "quanta were added, lost or mixed up")
                    for k in a:
                        for side in (2, 3):
                            require(a[k][side].keys() == b[k][side].keys() and all(len(a[k][side][x]) == len(b[k][side][x]) for x in a[k][side]), f"connections of {k} changed")
                            for x in a[k][side]:
                                for p, q_ in zip(a[k][side][x], b[k][side][x]):
                                    require(p[1:3] == q_[1:3], f"{p} became {q_}")
                                    if p[0] in produced:
                                        require(q_[3] == new and q_[0] not in produced, f"output {p} became {q_}")
                                        require(ren.setdefault(p[0], q_[0]) == q_[0], f"output {p} has several new ids")
                                    else:
                                        require(p == q_, f"input {p}, which the graph does not produce, became {q_}")
                require(len(set(ren.values())) == len(ren), "two outputs share a new id")
                check_thin(c, quanta)
                check_counts(c, quanta, init)
                run = new
                continue
            if op[0] == "assemble":
                check_graph(c.assemble(), quanta, set(quanta), True, init, pick(op[1]))
                continue
            path = os.path.join(d, f"g{n}.qg")
            if n % 3 == 1:
                c.header.version = 0        # as if it had been read from a file of the first format version
            c.write(path, zstd_level=op[1], zstd_dict_size=op[2], zstd_dict_n_inputs=op[3])
            with PredictedQuantumGraph.open(path, page_size=op[4]) as reader:
                loaded, thin, has_init = set(), False, False
                for r in op[5]:
                    if r[0] == "thin":
                        reader.read_thin_graph()
                        thin = True
                    elif r[0] == "init":
                        reader.read_init_quanta()
                        has_init = True
                    elif r[0] == "dims":
                        reader.read_dimension_data()
                    elif r[0] == "all":
                        reader.read_all()
                        thin = has_init = True
                        loaded = set(quanta)
                    elif r[0] == "everything":
                        reader.read_execution_quanta()
                        has_init, loaded = True, set(quanta)
                    elif r[0] == "unknown":
                        try:
                            reader.read_quantum_datasets([uuid.UUID(int=(uuid.UUID(i).int + 1) % 2**128) for i in pick(r[1][:1])] or [uuid.uuid4()])
                        except LookupError:
                            pass
                        else:
                            require(False, "a quantum that is not in the file was read")
                    else:
                        sel = pick(r[1])
                        (reader.read_execution_quanta if r[0] == "quanta" else reader.read_quantum_datasets)(iter([uuid.UUID(i) for i in sel]))
                        has_init = has_init or r[0] == "quanta"
                        loaded |= set(sel)
                rc = reader.components
                require(plain(rc.quantum_datasets.values()) == {i: quanta[i] for i in loaded} and {str(i) for i in rc.quantum_datasets} == loaded, "the quanta read differ from those written")
                if thin:
                    check_thin(rc, quanta)
                if has_init:
                    require(plain(rc.init_quanta.root) == init, "init quanta differ")
                check_counts(rc, quanta, init)
                h = rc.header
                require((h.output_run, h.output, h.inputs, h.graph_type) == (run, "out", ["input_chain"], "predicted"), "the header differs")
                build_ = pick(op[6]) if rc.dimension_data is not None else None
                check_graph(reader.finish(), quanta, loaded, thin, init if has_init else None, build_)
                if op[7]:
                    again = os.path.join(d, f"h{n}.qg")
                    complete = thin and loaded == set(quanta) and has_init and rc.dimension_data is not None
                    try:
                        rc.write(again)
                    except (RuntimeError, IncompleteQuantumGraphError):
                        require(not complete, "a graph that was read in full cannot be written again")
                    else:
                        require(loaded == set(quanta) and (thin or not quanta), f"a graph of which {len(loaded)} of {len(quanta)} quanta were read was written")
                        if has_init:
                            with PredictedQuantumGraph.open(again) as r2:
                                r2.read_all()
                                require(plain(r2.components.quantum_datasets.values()) == quanta, "the second file differs")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_pipe(rng):
    tasks, avail, inits = [], [], []
    for i in range(rng.randrange(1, 5)):
        dm = rng.choice("dddfi0")
        inputs = rng.sample(avail, min(len(avail), rng.randrange(0, 3)))
        if not inputs or rng.random() < .3:
            inputs.append("in_" + dm)
        if rng.random() < .2:
            inputs.append(inputs[0])        # the same dataset type in two connections
        outputs = [f"ds{i}{c}" for c in "ab"[:rng.randrange(1, 3)]]
        pre = ["pre_" + k for k in "di" if rng.random() < .2]
        init_in = rng.sample(inits, min(len(inits), rng.randrange(0, 2)))
        init_out = [f"schema{i}"] if rng.random() < .5 else []
        tasks.append(dict(label=f"t{i}", dims=dm, inputs=inputs, outputs=outputs, pre=pre, init_in=init_in, init_out=init_out))
        avail += outputs
        inits += init_out
    return dict(tasks=tasks)


def gen(rng, tier):
    pipes, k = [], 0
    while True:
        if k % 60 == 0:
            pipes.append(gen_pipe(rng))
        k += 1
        pipe = pipes[-1] if rng.random() < .7 else rng.choice(pipes)
        sel = lambda m=5: [rng.randrange(60) for _ in range(rng.randrange(0, m))]
        ops = []
        for _ in range(rng.randrange(1, 4)):
            o = rng.random()
            if o < .25:
                ops.append(["run"])
            elif o < .35:
                ops.append(["assemble", sel()])
            else:
                reads = []
                for _ in range(rng.randrange(1, 4)):
                    reads.append(rng.choice([["thin"], ["init"], ["dims"], ["all"], ["everything"], ["quanta", sel()], ["quanta", sel(3)], ["datasets", sel()], ["unknown", sel()]]))
                ops.append(["file", rng.choice([1, 3, 10]), rng.choice([0, 256, 32768]), rng.choice([1, 4, 512]), rng.choice([1, 100, 300, 5000, 100000]), reads, sel(), rng.random() < .4])
        yield dict(pipe=pipe, drop=sorted({rng.randrange(20) for _ in range(rng.randrange(0, 6))}) if rng.random() < .6 else [], foreign=rng.random() < .3, ops=ops)


if __name__ == "__main__":
    import atexit
    atexit.register(shutil.rmtree, SCRATCH, True)
    main(gen, check, "P05")
