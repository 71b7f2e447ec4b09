"""P12: a pipeline written as YAML and read back is the same pipeline."""
import os
import shutil
import tempfile
from hlib import *
from lsst.pipe.base.pipelineIR import ConfigIR, ContractIR, LabeledSubset, ParametersIR, PipelineIR, TaskIR
from lsst.pipe.base.pipeline import Pipeline

SCRATCH = tempfile.mkdtemp(prefix="p12-")


def same(a, b):
    """Equality that distinguishes types (True / 1 / 1.0) and handles nan."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


def view(p):
    tasks = []
    for l, t in p.tasks.items():
        cfg = [[c.python or None, c.dataId or None, list(c.file or []), dict(c.rest)] for c in t.config or []]
        tasks.append([l, t.label, t.klass, cfg])
    return dict(description=p.description, instrument=p.instrument, parameters=dict(p.parameters.mapping), tasks=tasks,
                subsets=[[l, s.label, sorted(s.subset), s.description] for l, s in p.labeled_subsets.items()],
                steps=[[s.label, s.dimensions] for s in p.steps], contracts=sorted([c.contract, c.msg or ""] for c in p.contracts))


def build(case):
    d = dict(description=case["description"], tasks={})
    for l, k, cfg in case["tasks"]:
        t = {"class": k}
        if cfg:
            t["config"] = [dict(c) for c in cfg]
        d["tasks"][l] = t if cfg or case["long"] else k
    for k in ("parameters", "instrument"):
        if case[k]:
            d[k] = case[k]
    if case["subsets"]:
        d["subsets"] = {l: {"subset": list(s), "description": t} if t is not None else list(s) for l, s, t in case["subsets"]}
    if case["steps"]:
        d["steps"] = [dict(label=l, dimensions=x) for l, x in case["steps"]]
    if case["contracts"]:
        d["contracts"] = [dict(contract=c, msg=m) if m is not None else c for c, m in case["contracts"]]
    return d


def check(case):
    import copy
    p = PipelineIR(copy.deepcopy(build(case)))
    v = view(p)
    exp = dict(description=case["description"], instrument=case["instrument"] or None, parameters=case["parameters"] or {})
    require(all(same(v[k], exp[k]) for k in exp), f"read as {[(k, v[k]) for k in exp]}")
    want = [[l, l, k, [[c.get("python") or None, c.get("dataId") or None, [c["file"]] if isinstance(c.get("file"), str) else c.get("file") or [],
                        {n: x for n, x in c.items() if n not in ("python", "dataId", "file")}] for c in cfg]] for l, k, cfg in case["tasks"]]
    require(same(v["tasks"], want), f"tasks read as {v['tasks']}, expected {want}")
    require(same(v["subsets"], [[l, l, sorted(set(s)), t] for l, s, t in case["subsets"]]), f"subsets read as {v['subsets']}")
    require(same(v["steps"], [[l, x] for l, x in case["steps"]]), f"steps read as {v['steps']}")
    require(same(v["contracts"], sorted([c, m or ""] for c, m in case["contracts"])), f"contracts read as {v['contracts']}")
    text = str(p)
    require(same(view(p), v), "writing changed the pipeline")
    if case["how"] == 0:
        q = PipelineIR.from_string(text)
    elif case["how"] == 1:
        path = os.path.join(SCRATCH, "p.yaml")
        p.write_to_uri(path)
        q = PipelineIR.from_uri(path)
        require(same(view(p), v), "writing changed the pipeline")
    elif case["how"] == 2:
        q = PipelineIR(copy.deepcopy(p.to_primitives()))
    else:
        q = Pipeline.fromIR(p)
        q = Pipeline.fromString(str(q))._pipelineIR
    w = view(q)
    for k in v:
        require(same(w[k], v[k]), f"{k} written and read back: {w[k]}, was {v[k]}")
    require(q == p, "the pipeline read back is not equal to the original")
    require(str(q) == str(PipelineIR.from_string(str(q))) if not any(len(s) > 1 for _, s, _ in case["subsets"]) else True, "writing again gives another document")


TEXT = ["d", "", "two\nlines", "trailing\n", " lead\nx", "tab\there\ny", "quote ' \" :", "# no comment", "é\nü", "a\n\n\nb  \nc", "yes", "1.0", "null", "- x", "{a: b}", "x: y\nz: w", "\\n", "a\r\nb", "%x\n%y"]
VALUES = [0, 1, -1, True, False, None, 1.5, 1e300, 0.1, float("inf"), float("-inf"), 1e20, 12345678901234567890, "x", "1", "true", "null", "", "a\nb", "parameters.p", [], [1, "a", None], {"k": [1, {"z": 2}]}, [[1], [2]], "2020-01-01", "1e3", "0x10", "~", "on"]


def config(rng):
    c = {}
    for k in rng.sample(["x", "y", "a.b", "m['k'].z", "connections.o"], rng.randint(0, 3)):
        c[k] = rng.choice(VALUES)
    if rng.random() < 0.3:
        c["python"] = rng.choice([t for t in TEXT if t])
    if rng.random() < 0.3:
        c["file"] = rng.choice(["f.py", ["f.py"], ["g.py", "f.py", "g.py"], "$D/x.py"])
    if rng.random() < 0.2:
        c["dataId"] = rng.choice([{"visit": 1}, {"instrument": "I", "detector": 0}])
    return c or {"x": 1}


def gen(rng, tier):
    for _ in range(30000 if tier == "quick" else 300000):
        labels = rng.sample(["a", "b", "c-d", "e f", "g:h", "1", "yes", "k.l", "null"], rng.randint(1, 5))
        tasks = [[l, rng.choice(["m.A", "m.n.B"]), [config(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]] for l in labels]
        subsets = [[l, rng.sample(labels, rng.randint(0, len(labels))), rng.choice([None, None, *TEXT])] for l in rng.sample(["s", "t-t", "true", "2"], rng.choice([0, 1, 2]))]
        steps = [[l, rng.choice([[], ["visit"], ["tract", "patch"], "visit, detector"])] for l, _, _ in subsets if rng.random() < 0.6]
        rng.shuffle(steps)
        contracts = [[rng.choice(labels) + ".x " + rng.choice(["== 1", "==\n2", "> '#'"]) + f" {n}", rng.choice([None, *[t for t in TEXT if t]])] for n in range(rng.choice([0, 0, 1, 2]))]
        if contracts and rng.random() < 0.3:
            contracts.append([contracts[0][0], rng.choice([None, "other"])])
        yield dict(description=rng.choice(TEXT), tasks=tasks, long=rng.random() < 0.5, parameters={k: rng.choice(VALUES) for k in ("p", "q r") if rng.random() < 0.4}, instrument=rng.choice([None, "i.I"]),
                   subsets=subsets, steps=steps, contracts=contracts, how=rng.randint(0, 3))


try:
    main(gen, check, "P12")
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
