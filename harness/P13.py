"""P13: importing pipelines, against an independent computation of the combined pipeline."""
import copy
import os
import re
import shutil
import tempfile
from hlib import *
import yaml
from lsst.pipe.base.pipelineIR import PipelineIR

SCRATCH = tempfile.mkdtemp(prefix="p13-")


class Refused(Exception):
    pass


def mentions(text, label):
    return re.search(r"(?<![A-Za-z0-9_])" + re.escape(label) + r"\.", text) is not None


def doc(p):
    """The YAML document of a generated pipeline (without its imports)."""
    d = {"description": "d"}
    if p["tasks"] or not p["imports"]:
        d["tasks"] = {l: ({"class": t["class"], "config": t["config"][0] if t.get("single") else t["config"]} if t["config"] else t["class"]) for l, t in p["tasks"].items()}
    if p.get("share"):      # equal config mappings become one object: the dumper writes anchors and aliases
        import json
        one = {}
        share = lambda c: one.setdefault(json.dumps(c, sort_keys=True), c)
        for t in d.get("tasks", {}).values():
            if isinstance(t, dict):
                t["config"] = [share(c) for c in t["config"]] if isinstance(t["config"], list) else share(t["config"])
    for k in ("subsets", "parameters"):
        if p[k]:
            d[k] = copy.deepcopy(p[k])
    if p["steps"]:
        d["steps"] = [dict(label=l, dimensions=v) for l, v in p["steps"]]
    if p["contracts"]:
        d["contracts"] = list(p["contracts"])
    if p["instrument"]:
        d["instrument"] = p["instrument"]
    return d


def write(p, n=[0]):
    n[0] += 1
    path = os.path.join(SCRATCH, f"p{n[0]}.yaml")
    d = doc(p)
    if p["imports"]:
        ims = []
        for im in p["imports"]:
            loc = write(im["pipeline"])
            if im["options"]:
                ims.append(dict(location=loc, **im["options"]))
            else:
                ims.append(loc)
        d["imports"] = ims
    with open(path, "w") as f:
        yaml.safe_dump(d, f, sort_keys=False)
    return path


def overrides(configs):
    """The elementary overrides in order; consecutive plain ones act as one mapping."""
    out = []
    for c in configs or []:
        c = dict(c)
        fs, py, did = c.pop("file", None), c.pop("python", None), c.pop("dataId", None)
        fs = [] if fs is None else fs if isinstance(fs, list) else [fs]
        if not fs and not py and out and out[-1][0] == "keys" and out[-1][1] == did and not out[-1][4]:
            out[-1][2].update(c)
        else:
            out.append(["keys", did, dict(c), list(fs), py])
    return [o for o in out if o[2] or o[3] or o[4]]


# ---- the oracle
def model(p):
    m = dict(tasks={l: (t["class"], copy.deepcopy(t["config"])) for l, t in p["tasks"].items()}, subsets={l: set(v) for l, v in p["subsets"].items()},
             steps=dict((l, d) for l, d in p["steps"]), contracts=list(p["contracts"]), parameters=dict(p["parameters"]), instrument=p["instrument"], vague=set())
    ims = [imported(model(im["pipeline"]), im["options"]) for im in p["imports"]]
    tasks, subsets, steps, pars = {}, {}, {}, {}
    for i in ims:
        if m["instrument"] is None:
            m["instrument"] = i["instrument"]
        elif i["instrument"] is not None and i["instrument"] != m["instrument"]:
            raise Refused("instruments")
        if set(tasks) & set(i["tasks"]) or set(subsets) & set(i["subsets"]):
            raise Refused("duplicates")
        tasks.update(i["tasks"])
        subsets.update(i["subsets"])
        if set(tasks) & set(subsets):
            raise Refused("labels")
        pars.update(i["parameters"])
        m["contracts"] += i["contracts"]
        m["vague"] |= i["vague"]
        for l, d in i["steps"].items():
            if steps.setdefault(l, d) != d:
                raise Refused("steps")
    for l, d in m["steps"].items():
        if steps.setdefault(l, d) != d:
            raise Refused("steps")
    if set(subsets) & set(m["tasks"]):
        raise Refused("labels")
    subsets.update(m["subsets"])
    for l, (k, c) in m["tasks"].items():
        if l in tasks and tasks[l][0] == k:
            tasks[l] = (k, tasks[l][1] + c)
        else:
            tasks[l] = (k, c)
    pars.update(m["parameters"])
    m.update(tasks=tasks, subsets=subsets, steps=steps, parameters=pars)
    if any(not s <= set(tasks) for s in subsets.values()) or set(subsets) & set(tasks) or not set(steps) <= set(subsets):
        raise Refused("inconsistent")
    return m


def imported(m, o):
    inc, exc, ren = o.get("include"), o.get("exclude"), o.get("rename", {})
    inc, exc = ([x] if isinstance(x, str) else x for x in (inc, exc))
    if inc and exc:
        raise Refused("both")
    if len(set(ren.values())) != len(ren) or set(ren) & set(ren.values()):
        raise Refused("rename")

    def expand(ls):
        return None if ls is None else set(ls) | {t for l in ls for t in m["subsets"].get(l, ())}
    inc, exc = expand(inc), expand(exc)
    keep = {l for l in m["tasks"] if (l in inc if inc else l not in exc if exc is not None else inc is None)}
    for l in keep & set(ren):
        if ren[l] in m["tasks"]:
            raise Refused("rename onto a task")
    if any(ren[l] in m["subsets"] for l in keep & set(ren)):
        raise Unspecified()
    gone = set(m["tasks"]) - keep
    left = keep - set(ren)
    tasks = {ren.get(l, l): t for l, t in m["tasks"].items() if l in keep}
    if o.get("labeledSubsetModifyMode") == "EDIT":
        subsets = {l: s & left for l, s in m["subsets"].items()}
    else:
        subsets = {l: s for l, s in m["subsets"].items() if s and s <= left}
    contracts = [] if o.get("importContracts") is False else [c for c in m["contracts"] if not any(mentions(c, g) for g in gone)]
    steps = {} if o.get("importSteps") is False else {l: d for l, d in m["steps"].items() if l in subsets}
    inst = m["instrument"] if "instrument" not in o else None if o["instrument"] == "None" else o["instrument"]
    return dict(m, tasks=tasks, subsets=subsets, contracts=contracts, steps=steps, instrument=inst, vague=m["vague"] | (keep & set(ren)) | {ren[l] for l in keep & set(ren)})


class Unspecified(Exception):
    pass


def check(case):
    for n in os.listdir(SCRATCH):
        os.unlink(os.path.join(SCRATCH, n))
    path = write(case)
    try:
        exp = model(case)
    except Refused as e:
        exp = e
    except Unspecified:
        return
    try:
        got = PipelineIR.from_uri(path)
    except ValueError as e:
        require(isinstance(exp, Refused), f"refused although consistent: {e}")
        return
    require(not isinstance(exp, Refused), f"accepted although the pipelines conflict ({exp})")
    require(set(got.tasks) == set(exp["tasks"]), f"tasks {sorted(got.tasks)}, expected {sorted(exp['tasks'])}")
    for l, t in got.tasks.items():
        k, c = exp["tasks"][l]
        require(t.label == l, f"task {l} is labeled {t.label}")
        require(t.klass == k, f"task {l} is {t.klass}, expected {k}")
        mine = [dict(x.rest, **{n: v for n, v in dict(file=x.file, python=x.python, dataId=x.dataId).items() if v}) for x in t.config or []]
        require(overrides(mine) == overrides(c), f"overrides of {l}: {overrides(mine)}, expected {overrides(c)}")
    gs = {l: set(s.subset) for l, s in got.labeled_subsets.items()}
    require(gs == exp["subsets"], f"subsets {gs}, expected {exp['subsets']}")
    require(all(l == s.label for l, s in got.labeled_subsets.items()), "subset under another label")
    require(dict(got.parameters.mapping) == exp["parameters"], f"parameters {got.parameters.mapping}, expected {exp['parameters']}")
    require({s.label: s.dimensions for s in got.steps} == exp["steps"], f"steps {got.steps}, expected {exp['steps']}")
    require(len(got.steps) == len(exp["steps"]), "a step appears twice")
    require(got.instrument == exp["instrument"], f"instrument {got.instrument}, expected {exp['instrument']}")
    clear = lambda cs: sorted(c for c in cs if not any(mentions(c, v) for v in exp["vague"]))
    require(clear(c.contract for c in got.contracts) == clear(exp["contracts"]), f"contracts {[c.contract for c in got.contracts]}, expected {exp['contracts']}")


TL = ["a", "b", "c", "d", "e_a"]
SL = ["s", "t", "u"]


def config(rng):
    c = {}
    for k in ("x", "y", "z.w"):
        if rng.random() < 0.45:
            c[k] = rng.choice([1, 2, "parameters.p"])
    if rng.random() < 0.2:
        c["python"] = rng.choice(["config.q=1", "config.q=2\nconfig.r=3"])
    if rng.random() < 0.2:
        c["file"] = rng.choice(["f1.py", ["f1.py"], ["f2.py", "f3.py"]])
    if rng.random() < 0.1:
        c["dataId"] = {"visit": rng.randint(1, 2)}
    return c


def pipe(rng, depth, labels, sl):
    imports = []
    if depth and rng.random() < 0.85:
        for _ in range(rng.choice([1, 1, 2, 3])):
            sub = pipe(rng, depth - 1, rng.sample(TL, rng.randint(1, 3)), rng.sample(SL, rng.randint(0, 2)))
            known = sorted({*sub["tasks"], *sub["subsets"], *(x for im in sub["imports"] for x in im["pipeline"]["tasks"])})
            o = {}
            r = rng.random()
            if r < 0.3:
                o["include"] = rng.sample(known, rng.randint(1, len(known))) if known else []
            elif r < 0.6:
                o["exclude"] = rng.sample(known, rng.randint(0, min(2, len(known))))
            elif r < 0.63:
                o["include"] = rng.choice(TL)
                o["exclude"] = [rng.choice(TL)] if rng.random() < 0.5 else []
            if rng.random() < 0.3 and sub["tasks"]:
                o["rename"] = {l: rng.choice(["n1", "n2", "a", "b"]) for l in rng.sample(sorted(sub["tasks"]), rng.randint(1, min(2, len(sub["tasks"]))))}
            if rng.random() < 0.4:
                o["labeledSubsetModifyMode"] = rng.choice(["EDIT", "DROP"])
            if rng.random() < 0.15:
                o["importContracts"] = rng.random() < 0.5
            if rng.random() < 0.15:
                o["importSteps"] = rng.random() < 0.5
            if rng.random() < 0.1:
                o["instrument"] = rng.choice(["None", "i.J"])
            imports.append(dict(pipeline=sub, options=o))
    tasks = {}
    for l in labels:
        cs = [config(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        tasks[l] = dict(config=cs, single=len(cs) == 1 and rng.random() < 0.5)
        tasks[l]["class"] = rng.choice(["m.A", "m.A", "m.B"])
    share = rng.random() < 0.2
    if share and len(labels) > 1:
        tasks[labels[1]]["config"] = [dict(c) for c in tasks[labels[0]]["config"]]
        tasks[labels[1]]["single"] = tasks[labels[0]]["single"]
    have = sorted({*labels, *(x for im in imports for x in im["pipeline"]["tasks"] if rng.random() < 0.5)})
    subsets = {l: rng.sample(have, rng.randint(0, min(3, len(have)))) for l in sl}
    steps = [[l, rng.choice([["visit"], ["tract", "patch"]])] for l in sl if rng.random() < 0.5]
    contracts = [rng.choice(["{}.x == {}.y", "{}.x ==\n {}.x"]).format(rng.choice(have), rng.choice(have)) for _ in range(rng.choice([0, 0, 1, 2]))] if have else []
    return dict(imports=imports, tasks=tasks, subsets=subsets, steps=steps, contracts=contracts, parameters={k: rng.randint(0, 5) for k in ("p", "q") if rng.random() < 0.3},
                instrument=rng.choice([None, None, None, "i.I", "i.J"]), share=share)


def gen(rng, tier):
    yield dict(imports=[dict(pipeline=dict(imports=[], tasks={l: {"class": "m.A", "config": [{"x": 1}]} for l in "abc"}, subsets={"s": ["a", "b"]}, steps=[["s", ["visit"]]], contracts=[], parameters={}, instrument=None),
                             options=dict(include=["a", "c"], rename={"a": "n1"}))], tasks={}, subsets={}, steps=[], contracts=[], parameters={}, instrument=None)
    for _ in range(30000 if tier == "quick" else 400000):
        depth = rng.choice([1, 1, 2])
        yield pipe(rng, depth, rng.sample(TL, rng.randint(0, 3)), rng.sample(SL, rng.choice([0, 0, 1, 2])))


try:
    main(gen, check, "P13")
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
