"""P20: whole graph builds over random pipelines and random existing outputs, against a direct statement of what is skipped, re-run, refused and kept."""
import fnmatch
from hlib import *
from lsst.daf.butler import DataCoordinate
from lsst.pipe.base.all_dimensions_quantum_graph_builder import AllDimensionsQuantumGraphBuilder
from lsst.pipe.base.quantum_graph_builder import InitInputMissingError, OutputExistsError
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, InMemoryRepo

DIMS = {"d": ("instrument", "detector"), "i": ("instrument",), "0": ()}


def conn(name, dims, multiple, minimum=1):
    return DynamicConnectionConfig(dataset_type_name=name, dimensions=list(DIMS[dims]), multiple=multiple, minimum=minimum)


def check(case):
    if "direct" in case:
        return direct(case)
    with InMemoryRepo("base.yaml") as repo:
        b = repo.butler
        tasks = case["tasks"]
        dims = {"in_" + k: k for k in DIMS} | {"in_x": "0"}
        dims.update({"pre_" + k: k for k in DIMS})
        for t in tasks:
            for n in t["outputs"]:
                dims[n] = t["dims"]
        wide = {"0": 0, "i": 1, "d": 2}
        for t in tasks:
            repo.add_task(t["label"], dimensions=DIMS[t["dims"]],
                          inputs={f"c{j}": conn(n, dims[n], wide[dims[n]] > wide[t["dims"]], mn) for j, (n, mn) in enumerate(t["inputs"])},
                          prerequisite_inputs={f"p{j}": conn(n, dims[n], wide[dims[n]] > wide[t["dims"]], mn) for j, (n, mn) in enumerate(t.get("pre", ()))},
                          outputs={f"o{j}": conn(n, t["dims"], False) for j, n in enumerate(t["outputs"])})
        if case.get("pre_existing") is not None:
            # Prerequisites (and optional overall inputs) exist only in part, in two input runs searched in order.
            b.collections.register("second_run")
            b.collections.redefine_chain(repo.input_chain, ["input_run", "second_run"])
            repo.pipeline_graph.resolve(b.registry)
            for name in {n for t in tasks for n, _ in t.get("pre", ())} | set(case["partial"]):
                if name in repo.pipeline_graph.dataset_types:
                    b.registry.registerDatasetType(repo.pipeline_graph.dataset_types[name].dataset_type)
        repo.make_quantum_graph_builder(output_run=case["output_run"])      # inserts the overall inputs, registers dataset types
        pg = repo.pipeline_graph
        IDS = {"0": [()], "i": [("Cam1",)], "d": [("Cam1", k) for k in (1, 2, 3, 4)]}
        ident = {}
        overall = {}
        for r, name, i in sorted(map(list, case.get("pre_existing") or ()), key=lambda e: e[0] != "input_run"):
            if name not in pg.dataset_types:
                continue
            v = IDS[dims[name]][i % len(IDS[dims[name]])]
            dt = pg.dataset_types[name].dataset_type
            if (r, name, v) in ident:
                continue
            [ref] = b.registry.insertDatasets(dt, [DataCoordinate.from_required_values(dt.dimensions, v)], run=r)
            ident[r, name, v] = ref.id
            overall.setdefault((name, v), (r, ref.id))
        for r in case["runs"]:
            b.collections.register(r)
        for run, name, i in case["existing"]:
            dt = pg.dataset_types[name].dataset_type
            vals = IDS[{0: "0", 1: "i", 2: "d"}[len(dt.dimensions.required)]]
            v = vals[i % len(vals)]
            if (run, name, v) in ident:
                continue
            did = DataCoordinate.from_required_values(dt.dimensions, v)
            [ref] = b.registry.insertDatasets(dt, [did], run=run)
            ident[run, name, v] = ref.id
        labels = list(pg.tasks)
        by = {t["label"]: t for t in tasks}
        order = [by[l] for l in labels]
        producer = {n: t["label"] for t in tasks for n in t["outputs"]}
        meta = {t["label"]: pg.tasks[t["label"]].metadata_output.parent_dataset_type_name for t in tasks}
        outs, inits = {}, {}
        for t in tasks:
            node = pg.tasks[t["label"]]
            outs[t["label"]] = [e.parent_dataset_type_name for e in node.iter_all_outputs()]
            inits[t["label"]] = [e.parent_dataset_type_name for e in node.init.iter_all_outputs()]
        skip_in, out_run, clobber = case["skip_in"], case["output_run"], case["clobber"]

        def find(name, v):
            for r in skip_in:
                if (r, name, v) in ident:
                    return r
        over = lambda v, d: [w for w in IDS[d] if w[:len(v)] == v[:len(w)]]
        quanta = [(t["label"], v) for t in order for v in IDS[t["dims"]]]
        ins = {q: [(n, w) for n, _ in (*by[q[0]]["inputs"], *by[q[0]].get("pre", ())) for w in over(q[1], dims[n])] for q in quanta}
        skipped = {q for q in quanta if find(meta[q[0]], q[1])}
        pats = case["retained"]
        if pats is not None:
            kept = {n for n in pg.dataset_types if any(fnmatch.fnmatchcase(n, p) for p in pats)}
            while True:
                more = {(producer[n], w) for q in quanta if q not in skipped for n, w in ins[q] if n in producer and n not in kept} & skipped
                if not more:
                    break
                skipped -= more
        expect = None
        have = {(n, w): ("input_run", None) for n in dims if n.startswith("in_") and n not in case.get("partial", ()) for w in IDS[dims[n]]}
        have.update(overall)
        run_exists = out_run in case["runs"]
        quanta_in, quanta_out = {}, {}
        for q in quanta:
            if q in skipped:
                for n in outs[q[0]]:
                    r = find(n, q[1])
                    if r:
                        have[n, q[1]] = (r, ident[r, n, q[1]])
            else:
                quanta_out[q] = {}
                for n in outs[q[0]]:
                    i = ident.get((out_run, n, q[1])) if run_exists else None
                    if i is not None and not clobber:
                        expect = OutputExistsError
                    quanta_out[q][n, q[1]] = have[n, q[1]] = (out_run, i)
        if expect is None:
            dropped, lacking, both = set(), set(), False
            for t in order:
                mine = [q for q in quanta if q[0] == t["label"] and q not in skipped]
                for q in mine:
                    quanta_in[q] = {k: have[k] for k in ins[q] if k in have}
                    got = {n: sum(1 for k in quanta_in[q] if k[0] == n) for n, _ in t["inputs"]}
                    if any(got[n] < mn for n, mn in t["inputs"]):
                        dropped.add(q)
                    if any(sum(1 for k in quanta_in[q] if k[0] == n) < mn for n, mn in t.get("pre", ())):
                        lacking.add(q)
                for q in set(mine) & dropped:
                    for n in outs[q[0]]:
                        have.pop((n, q[1]))
                if not (set(mine) - dropped) and any(q[0] == t["label"] for q in skipped):
                    if any(find(n, ()) is None for n in inits[t["label"]]):
                        expect = InitInputMissingError
                        break
                if lacking:
                    if lacking & dropped:
                        return     # either error may come first
                    expect = FileNotFoundError
                    break
        kw = {} if pats is None else dict(retained_dataset_types=pats)
        try:
            qg = AllDimensionsQuantumGraphBuilder(pg, b, input_collections=[repo.input_chain], output_run=out_run, skip_existing_in=skip_in, clobber=clobber, **kw).build(attach_datastore_records=False)
        except (OutputExistsError, InitInputMissingError, FileNotFoundError) as e:
            require(expect is not None and isinstance(e, expect), f"the build is refused ({type(e).__name__}: {e}) but {expect.__name__ if expect else 'nothing'} was due")
            return
        require(expect is None, f"the build succeeds where {expect and expect.__name__} was due")
        got = {}
        for node in qg:
            q = (node.taskDef.label, node.quantum.dataId.required_values)
            require(q not in got, f"quantum {q} appears twice")
            got[q] = node.quantum
        expected = {q for q in quanta if q not in skipped and q not in dropped}
        require(set(got) == expected, f"quanta missing from the graph: {sorted(expected - set(got))}, unexpected: {sorted(set(got) - expected)}; skipped {sorted(skipped)}")
        for q, quantum in got.items():
            for what, mapping, exp in (("inputs", quantum.inputs, quanta_in[q]), ("outputs", quantum.outputs, quanta_out[q])):
                refs = {(r.datasetType.name, r.dataId.required_values): r for rs in mapping.values() for r in rs}
                require(set(refs) == set(exp), f"{what} of {q} are {sorted(refs)}, not {sorted(exp)}")
                for k, (run, i) in exp.items():
                    require(refs[k].run == run, f"{what[:-1]} {k} of {q} is in run {refs[k].run}, not {run}")
                    require(i is None or refs[k].id == i, f"{what[:-1]} {k} of {q} is not the existing dataset")
                    require(i is not None or what == "inputs" or refs[k].id not in ident.values(), f"output {k} of {q} takes the identity of another dataset")


def direct(case):
    """_unskip_ancestors on a bare skeleton: long chains and wide graphs the registry would be too slow for."""
    from lsst.pipe.base.quantum_graph_skeleton import QuantumGraphSkeleton
    import lsst.pipe.base.quantum_graph_builder as qgb
    if not hasattr(AllDimensionsQuantumGraphBuilder, "_unskip_ancestors"):
        raise Unavailable("_unskip_ancestors")
    from lsst.daf.butler import DimensionUniverse
    u = DimensionUniverse()
    did = [DataCoordinate.standardize(band=str(i), universe=u) for i in range(case["ids"])]
    n = case["direct"]
    sk = QuantumGraphSkeleton([f"t{i}" for i in range(n)])
    keys = {(i, j): sk.add_quantum_node(f"t{i}", did[j]) for i in range(n) for j in range(case["ids"])}
    outk = {}
    for (i, j), q in keys.items():
        outk[i, j] = sk.add_dataset_node(f"o{i}", did[j])
        sk.add_output_edge(q, outk[i, j])
    ext = sk.add_dataset_node("ext", did[0])
    edges = set()
    for i, j, k, m in case["edges"]:
        if k < i:
            sk.add_input_edge(keys[i, j], outk[k, m])
            edges.add(((i, j), (k, m)))
    for q in keys.values():
        sk.add_input_edge(q, ext)
    skip = {(i, j): bool(case["skip"][i * case["ids"] + j]) for i, j in keys}
    dec = {keys[k]: v for k, v in skip.items()}
    retained = frozenset(f"o{i}" for i in case["kept"])
    builder = object.__new__(AllDimensionsQuantumGraphBuilder)
    count = builder._unskip_ancestors(sk, dec, retained)
    was = sum(skip.values())
    while True:
        more = {b for a, b in edges if not skip[a] and skip[b] and b[0] not in case["kept"]}
        if not more:
            break
        for b_ in more:
            skip[b_] = False
    require(set(dec) == set(keys.values()), "the quanta with a decision changed")
    bad = [k for k in keys if bool(dec[keys[k]]) != skip[k]]
    require(not bad, f"quanta {bad[:5]} end up {'skipped' if dec[keys[bad[0]]] else 're-run'}" if bad else "")
    require(count == was - sum(skip.values()), f"{count} quanta reported as re-run, {was - sum(skip.values())} were")


def gen_direct(rng):
    n, ids = rng.randrange(2, 9), rng.randrange(1, 5)
    return dict(direct=n, ids=ids, edges=[[rng.randrange(n), rng.randrange(ids), rng.randrange(n), rng.randrange(ids)] for _ in range(rng.randrange(1, 4 * n))],
                skip=[int(rng.random() < .75) for _ in range(n * ids)], kept=[i for i in range(n) if rng.random() < .3])


def gen(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 8:
            yield gen_direct(rng)
            continue
        tasks, avail = [], [("in_d", "d"), ("in_i", "i"), ("in_0", "0")]
        dims_of = dict(avail)
        with_pre = rng.random() < .6
        partial = [n for n in ("in_d", "in_i", "in_0") if rng.random() < .4] if with_pre else []
        for i in range(rng.randrange(1, 6)):
            d = rng.choice("dddi0")
            new = [n for n, _ in avail if not n.startswith("in_")]
            inputs = [[n, 1] for n in rng.sample(new, min(len(new), rng.randrange(0, 3)))]
            if not inputs or rng.random() < .3:
                inputs.append(["in_" + d, 1])
            for c in inputs:
                if not c[0].startswith("in_") and rng.random() < .25:
                    c[1] = 0
            if all(c[1] == 0 for c in inputs):
                inputs[0][1] = 1
            outputs = [f"ds{i}{c}" for c in "ab"[:rng.randrange(1, 3)]]
            tasks.append(dict(label=f"t{i}", dims=d, inputs=inputs, outputs=outputs))
            if with_pre and rng.random() < .6:
                tasks[-1]["pre"] = [["pre_" + k, int(rng.random() < .3)] for k in rng.sample("di0", rng.randrange(1, 3))]
            if with_pre:
                for c in inputs:
                    if c[0] in partial:
                        c[1] = 0
                if all(c[1] == 0 for c in inputs):
                    inputs.append(["in_x", 1])
            avail += [(n, d) for n in outputs]
            dims_of.update({n: d for n in outputs})
        out_run = "out_run"
        runs = [r for r in ("prior1", "prior2", out_run) if rng.random() < .7]
        skip_in = [r for r in runs if rng.random() < .7]
        rng.shuffle(skip_in)
        existing = []
        for r in runs:
            dens = rng.choice([0, .3, .7, .9]) if r != out_run else rng.choice([0, .05, .3, .6])
            full = rng.random() < .7
            for t in tasks:
                if dens and rng.random() < .97:
                    existing += [[r, n, 0] for n in (t["label"] + "_config",)]
                for i in range(4 if t["dims"] == "d" else 1):
                    if rng.random() < dens:
                        if rng.random() < .9:
                            existing.append([r, t["label"] + "_metadata", i])
                        for n in t["outputs"] + [t["label"] + "_log"]:
                            if full or rng.random() < .5:
                                existing.append([r, n, i])
        retained = None
        if skip_in and rng.random() < .6:
            pool = ["*_metadata", "*_config", "ds0*", "ds*a", "ds1?", "*_log"] + [n for t in tasks for n in t["outputs"]]
            retained = ["*"] if rng.random() < .1 else rng.sample(pool, rng.randrange(1, 4))
        more = {}
        if with_pre:
            pre_density = rng.choice([.4, .85, .95])
            more = dict(partial=partial, pre_existing=[[r, n, i] for r in ("input_run", "second_run") for n in ["pre_d", "pre_i", "pre_0"] + partial for i in range(4 if n.endswith("d") else 1) if rng.random() < (.6 if n in partial else pre_density)])
        yield dict(**more, tasks=tasks, runs=runs, output_run=out_run, skip_in=skip_in, clobber=rng.random() < .6, existing=existing, retained=retained)


if __name__ == "__main__":
    main(gen, check, "P20")
