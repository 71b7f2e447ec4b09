"""P14: reducing a pipeline to some labels, against an independent computation."""
import copy
import itertools
import re
from hlib import *
import yaml
from lsst.pipe.base.pipelineIR import PipelineIR, PipelineSubsetCtrl

LABELS = ["a", "ba", "a_b", "c", "a1", "d:e", "Ab", "x-y"]


def build(case):
    d = {"description": "d", "tasks": {}}
    for l in case["tasks"]:
        d["tasks"][LABELS[l]] = {"class": "m." + LABELS[l].title(), "config": [{"v": l}]} if l % 2 else "m.T"
    if case["subsets"]:
        d["subsets"] = {f"s{n}": ({"subset": [LABELS[l] for l in ls], "description": f"D{n}"} if n % 2 else [LABELS[l] for l in ls]) for n, ls in enumerate(case["subsets"])}
    if case["steps"]:
        d["steps"] = [{"label": f"s{n}", "dimensions": ["visit"][: n % 2]} for n in case["steps"]]
    cons = []
    for ls, style in case["contracts"]:
        t = {0: " == ", 1: " ==\n", 2: " and\n  (", 3: "=="}[style].join(f"{LABELS[l]}.v" for l in ls)
        if style == 2 and len(ls) > 1:
            t += ")" * (len(ls) - 1)
        cons.append({"contract": t, "msg": "M"} if style else t)
    if cons:
        d["contracts"] = cons
    if case["params"]:
        d["parameters"] = {"p": 1}
    d["instrument"] = "i.I" if case["params"] else None
    return d


def view(p):
    return dict(tasks={l: (t.label, t.klass, [(c.python, c.dataId, list(c.file), dict(c.rest)) for c in t.config or []]) for l, t in p.tasks.items()},
                subsets={l: (s.label, set(s.subset), s.description) for l, s in p.labeled_subsets.items()}, steps=[(s.label, list(s.dimensions)) for s in p.steps],
                contracts=[(c.contract, c.msg) for c in p.contracts], other=(p.description, p.instrument, dict(p.parameters.mapping)))


def check(case):
    d = build(case)
    p = PipelineIR(copy.deepcopy(d))
    before = view(p)
    names = [LABELS[l] for l in case["want"]] + [f"s{n}" for n in case["want_subsets"]] + (["nope"] if case["unknown"] else [])
    mode = PipelineSubsetCtrl.DROP if case["drop"] else PipelineSubsetCtrl.EDIT
    known = set(before["tasks"]) | set(before["subsets"])
    try:
        r = p.subset_from_labels(set(names), mode)
    except ValueError:
        require(set(names) - known, f"labels {names} refused although all are known")
        require(view(p) == before, "the original pipeline was changed by a refused request")
        return
    require(not set(names) - known, f"unknown labels {set(names) - known} accepted")
    require(view(p) == before, "the original pipeline was changed")
    got = view(r)
    keep = set(names) & set(before["tasks"])
    for s in set(names) & set(before["subsets"]):
        keep |= before["subsets"][s][1]
    require(set(got["tasks"]) == keep, f"tasks {set(got['tasks'])}, expected {keep}")
    require(list(got["tasks"]) == [l for l in before["tasks"] if l in keep], "order of the tasks changed")
    require(all(got["tasks"][l] == before["tasks"][l] for l in keep), "a remaining task changed")
    exp = {}
    for l, (lab, members, desc) in before["subsets"].items():
        if case["drop"]:
            if members and members <= keep:
                exp[l] = (lab, members, desc)
        else:
            exp[l] = (lab, members & keep, desc)
    require(got["subsets"] == exp, f"subsets {got['subsets']}, expected {exp}")
    require(got["steps"] == [s for s in before["steps"] if s[0] in exp], f"steps {got['steps']}")
    gone = set(before["tasks"]) - keep
    expc = [c for c in before["contracts"] if not any(re.search(r"(?<![A-Za-z0-9_])" + re.escape(g) + r"\.", c[0]) for g in gone)]
    require(got["contracts"] == expc, f"contracts {got['contracts']}, expected {expc} after removing {gone}")
    require(got["other"] == before["other"], "description, instrument or parameters changed")
    # the result is independent of the original
    for s in r.labeled_subsets.values():
        s.subset.add("zzz")
    for t in r.tasks.values():
        for c in t.config or []:
            c.rest["zzz"] = 1
    r.contracts.clear()
    require(view(p) == before, "the result shares state with the original")


def gen(rng, tier):
    for want in itertools.product([0, 1], repeat=3):
        for drop in (True, False):
            for subsets in ([], [[0, 1], [2], []], [[0, 1, 2], [1]]):
                for ws in range(len(subsets) + 1):
                    yield dict(tasks=[0, 1, 2], subsets=subsets, steps=list(range(len(subsets))), contracts=[[[0, 1], 0], [[1, 2], 1], [[0, 2], 2], [[1], 3]], want=[i for i in range(3) if want[i]],
                               want_subsets=list(range(ws)), unknown=False, drop=drop, params=False)
    for _ in range(20000 if tier == "quick" else 200000):
        n = rng.randint(1, 8)
        tasks = rng.sample(range(8), n)
        subsets = [rng.sample(tasks, rng.randint(0, n)) for _ in range(rng.randint(0, 4))]
        steps = [s for s in range(len(subsets)) if rng.random() < 0.6]
        rng.shuffle(steps)
        yield dict(tasks=tasks, subsets=subsets, steps=steps, contracts=[[rng.sample(tasks, rng.randint(1, min(3, n))), rng.randint(0, 3)] for _ in range(rng.randint(0, 4))],
                   want=[t for t in tasks if rng.random() < 0.5], want_subsets=[s for s in range(len(subsets)) if rng.random() < 0.3], unknown=rng.random() < 0.06, drop=rng.random() < 0.5, params=rng.random() < 0.5)


main(gen, check, "P14")
