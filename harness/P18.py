"""P18: random pipelines, steps and edits; order, step lookup and verification state of the real PipelineGraph."""
from hlib import *
import io
import pickle
from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import InvalidStepsError, NodeType, PipelineGraph, PipelineGraphError, UnresolvedGraphError
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

U = DimensionUniverse()
FIELDS = ("inputs", "prerequisite_inputs", "outputs", "init_inputs", "init_outputs")


def add_task(g, label, t, auto=True):
    cfg = DynamicTestPipelineTaskConfig()
    cfg.dimensions = t["dims"]
    for field in FIELDS:
        for n, name in enumerate(t[field]):
            kw = dict(storage_class="TaskMetadata", mock_storage_class=False) if name.endswith("_metadata") else {}
            dims = [] if field.startswith("init") else t["type_dims"][name]
            getattr(cfg, field)[f"{field}{n}"] = DynamicConnectionConfig(dataset_type_name=name, dimensions=dims, multiple=True, **kw)
    g.add_task(label, DynamicTestPipelineTask, cfg)


def reads(t):
    return {*t["inputs"], *t["prerequisite_inputs"], *t["init_inputs"]}


def writes(l, t):
    return {*t["outputs"], *t["init_outputs"], l + "_config", l + "_log", l + "_metadata"}


class Model:
    def __init__(self):
        self.tasks, self.subsets, self.steps, self.verified = {}, {}, {}, False

    def copy(self):
        m = Model()
        m.tasks, m.subsets, m.steps, m.verified = dict(self.tasks), {k: set(v) for k, v in self.subsets.items()}, dict(self.steps), self.verified
        return m

    def flow_ok(self):
        if not self.steps:
            return True
        seen, wanted = set(), set()
        for s in self.steps:
            if s not in self.subsets or seen & self.subsets[s]:
                return False
            members = self.subsets[s]
            seen |= members
            for l in members:
                if writes(l, self.tasks[l]) & wanted:
                    return False
            for l in members:
                wanted |= reads(self.tasks[l])
        return seen >= set(self.tasks)

    @staticmethod
    def fits(need, have):
        pair = {"visit", "exposure"}
        return need <= have or bool(pair & need - have and pair & have - need)

    def dims_ok(self):
        for s, d in self.steps.items():
            need = set(U.conform(d).names)
            for l in self.subsets[s]:
                t = self.tasks[l]
                if not self.fits(need, set(U.conform(t["dims"]).names)) or any(not self.fits(need, set(U.conform(t["type_dims"][n]).names)) for n in t["outputs"]):
                    return False
        return True


def lookup(g, m, where):
    for l in m.tasks:
        try:
            got = g.get_task_step(l)
        except InvalidStepsError:
            require(not m.steps, f"{where}: get_task_step says there are no steps, but there are {list(m.steps)}")
            continue
        except UnresolvedGraphError:
            require(m.steps and not m.verified, f"{where}: get_task_step says unverified")
            continue
        require(m.steps and m.verified, f"{where}: get_task_step({l!r}) answered {got!r} although the steps {'have not been verified since the last change' if m.steps else 'are gone'}")
        require(got in m.steps and l in m.subsets[got], f"{where}: get_task_step({l!r}) is {got!r}, steps are { {s: m.subsets[s] for s in m.steps} }")
    require(list(g.steps) == list(m.steps) and len(g.steps) == len(m.steps), f"{where}: steps are {list(g.steps)}, expected {list(m.steps)}")
    require(g.steps.verified == (m.verified or not m.steps), f"{where}: steps.verified is {g.steps.verified}")
    for s in m.subsets:
        require(g.task_subsets[s].is_step == (s in m.steps) == (s in g.steps), f"{where}: is_step of {s}")
        require(set(g.task_subsets[s]) == m.subsets[s], f"{where}: members of {s}")
        if m.verified and s in m.steps:
            require(set(g.task_subsets[s].dimensions.names) == set(U.conform(m.steps[s]).names), f"{where}: dimensions of step {s}")
    require(set(g.tasks) == set(m.tasks), f"{where}: tasks {set(g.tasks)}")


def order(g, m, where, steps=True):
    require(g.has_been_sorted, f"{where}: not sorted")
    nodes = [(k, n) for k, n, _ in g.iter_nodes()]
    names = set().union(*[reads(t) | writes(l, t) for l, t in m.tasks.items()]) if m.tasks else set()
    want = {(NodeType.TASK, l) for l in m.tasks} | {(NodeType.TASK_INIT, l) for l in m.tasks} | {(NodeType.DATASET_TYPE, n) for n in names}
    require(len(nodes) == len(set(nodes)) and set(nodes) == want, f"{where}: sorted nodes are {nodes}, expected {want}")
    at = {n: i for i, n in enumerate(nodes)}
    for l, t in m.tasks.items():
        T, I = at[NodeType.TASK, l], at[NodeType.TASK_INIT, l]
        require(I < T, f"{where}: {l} before its construction")
        for n in (*t["inputs"], *t["prerequisite_inputs"]):
            require(at[NodeType.DATASET_TYPE, n] < T, f"{where}: {l} before its input {n}")
        for n in t["init_inputs"]:
            require(at[NodeType.DATASET_TYPE, n] < I, f"{where}: construction of {l} before its input {n}")
        for n in (*t["outputs"], l + "_log", l + "_metadata"):
            require(T < at[NodeType.DATASET_TYPE, n], f"{where}: {l} after its output {n}")
        for n in (*t["init_outputs"], l + "_config"):
            require(I < at[NodeType.DATASET_TYPE, n], f"{where}: construction of {l} after its output {n}")
    require(list(g.tasks) == [n for k, n in nodes if k is NodeType.TASK], f"{where}: tasks view in another order")
    require(list(g.dataset_types) == [n for k, n in nodes if k is NodeType.DATASET_TYPE], f"{where}: dataset types view in another order")
    if steps and m.steps:
        step = {l: i for i, s in enumerate(m.steps) for l in m.subsets[s]}
        seq = [step[l] for l in g.tasks]
        require(seq == sorted(seq), f"{where}: tasks {list(g.tasks)} are not in the order of the steps")
    return nodes


def resolve(g, m, where):
    flow, ok = m.flow_ok(), None
    ok = flow and m.dims_ok()
    try:
        g.resolve(dimensions=U, dataset_types={})
    except InvalidStepsError as e:
        require(not ok, f"{where}: steps refused ({e}), expected to be accepted")
        # refused: the steps stay unverified (as they were, if they were verified for the same definitions)
        return False
    require(ok, f"{where}: steps { {s: sorted(m.subsets.get(s, ())) for s in m.steps} } accepted, expected InvalidStepsError")
    m.verified = True
    require(g.is_fully_resolved, f"{where}: not fully resolved")
    order(g, m, where)
    return True


def check(case):
    g, m = PipelineGraph(), Model()
    for l in case["order"]:
        add_task(g, l, case["tasks"][l])
        m.tasks[l] = case["tasks"][l]
    for s, members in case["subsets"].items():
        g.add_task_subset(s, members)
        m.subsets[s] = set(members)
    others, partial = [], False
    for n, (op, *a) in enumerate(case["ops"]):
        where = f"after op {n} {op} {a}"
        if op == "assign":
            g.steps = a[0]
            m.steps, m.verified = {s: m.steps.get(s, ()) for s in a[0]}, False
        elif op == "append":
            g.steps.append(a[0], a[1])
            m.steps[a[0]], m.verified = a[1], False
        elif op == "remove":
            if a[0] not in m.steps:
                continue
            g.steps.remove(a[0])
            del m.steps[a[0]]
            m.verified = False
        elif op == "clear":
            g.steps.clear()
            m.steps, m.verified = {}, False
        elif op == "dims":
            if a[0] not in m.subsets:
                continue
            try:
                g.task_subsets[a[0]].dimensions = a[1]
            except PipelineGraphError:
                require(a[0] not in m.steps, f"{where}: refused")
            else:
                require(a[0] in m.steps, f"{where}: not a step")
                m.steps[a[0]], m.verified = a[1], False
        elif op == "member":
            s, l = a
            if s not in m.subsets:
                continue
            if l in m.tasks:
                g.task_subsets[s].add(l)
                m.subsets[s].add(l)
                m.verified = False
            else:
                try:
                    g.task_subsets[s].add(l)
                except PipelineGraphError:
                    pass
                else:
                    raise Violation(f"{where}: added a task that does not exist")
        elif op == "discard":
            s, l = a
            if s not in m.subsets:
                continue
            g.task_subsets[s].discard(l)
            m.subsets[s].discard(l)
            m.verified = False
        elif op == "drop":
            if a[0] not in m.subsets:
                continue
            g.remove_task_subset(a[0])
            del m.subsets[a[0]]
            if m.steps.pop(a[0], None) is not None:
                m.verified = False
        elif op == "rmtask":
            if a[0] not in m.tasks:
                continue
            g.remove_tasks([a[0]])
            del m.tasks[a[0]]
            for v in m.subsets.values():
                v.discard(a[0])
            m.verified = False
            require(not g.has_been_sorted, f"{where}: still sorted")
        elif op == "addtask":
            if a[0] in m.tasks:
                continue
            add_task(g, a[0], case["tasks"][a[0]])
            m.tasks[a[0]] = case["tasks"][a[0]]
            m.verified = False
            require(not g.has_been_sorted, f"{where}: still sorted")
            lookup(g, m, where + " (in no subset yet)")
            if a[1] in m.subsets:
                g.task_subsets[a[1]].add(a[0])
                m.subsets[a[1]].add(a[0])
        elif op == "sort":
            g.sort()
            order(g, m, where, steps=False)
        elif op == "resolve":
            partial = not resolve(g, m, where) and (partial or m.flow_ok())
        elif op in ("copy", "pickle", "stream"):
            if op != "copy" and partial:
                continue  # half resolved by a refused resolve: not a state that can be stored
            if op == "copy":
                h = g.copy()
            elif op == "pickle":
                h = pickle.loads(pickle.dumps(g))
            else:
                b = io.BytesIO()
                g._write_stream(b)
                b.seek(0)
                h = PipelineGraph._read_stream(b)
            if op != "copy" and not m.tasks:
                continue
            lookup(h, m, where + " (the copy)")
            require(h.has_been_sorted == g.has_been_sorted or not m.tasks, f"{where}: sorted {h.has_been_sorted}, original {g.has_been_sorted}")
            if g.has_been_sorted:
                require([(k, n_) for k, n_, _ in h.iter_nodes()] == [(k, n_) for k, n_, _ in g.iter_nodes()], f"{where}: order differs")
            require({n_: (h.dataset_types[n_].dataset_type if h.dataset_types.is_resolved(n_) else None) for n_ in h.dataset_types} == {n_: (g.dataset_types[n_].dataset_type if g.dataset_types.is_resolved(n_) else None) for n_ in g.dataset_types}, f"{where}: dataset types differ")
            if a[0]:
                others.append((g, m.copy(), where + " (the original)"))
                g = h
            else:
                others.append((h, m.copy(), where + " (the copy)"))
        lookup(g, m, where)
    for h, mm, where in others:
        lookup(h, mm, where + ", at the end")
    # two graphs made from the same content in different orders come out in the same order
    if m.tasks and m.flow_ok() and m.dims_ok():
        resolve(g, m, "at the end")
        made = []
        for labels in (sorted(m.tasks), sorted(m.tasks, reverse=True), [l for l in case["order"] if l in m.tasks]):
            h = PipelineGraph()
            for l in labels:
                add_task(h, l, m.tasks[l])
            for s in m.subsets:
                h.add_task_subset(s, m.subsets[s])
            for s, d in m.steps.items():
                h.steps.append(s, d)
            resolve(h, m, f"made anew in the order {labels}")
            made.append([(k, n) for k, n, _ in h.iter_nodes()])
        require(made[0] == made[1] == made[2], f"order depends on the order of construction: {made}")


def gen(rng, tier):
    I, D = ["instrument"], ["instrument", "detector"]
    VI, EX = ["visit"], ["exposure"]
    while True:
        n = rng.randint(1, 5)
        labels = rng.sample("abcdef", n)
        tasks, made, imade = {}, [], []
        k = 0
        type_dims = {}
        for l in labels:
            dims = rng.choice([I, D, I, D, VI, EX])
            t = dict(dims=dims, type_dims={}, **{f: [] for f in FIELDS})
            for d in rng.sample(made, min(len(made), rng.choice([0, 0, 1, 1, 2]))):
                t["inputs"].append(d)
            if rng.random() < 0.3 or not t["inputs"]:
                d = rng.choice(["raw1", "raw2"])
                type_dims[d] = I
                t["inputs"].append(d)
            if rng.random() < 0.2:
                type_dims["pre"] = I
                t["prerequisite_inputs"].append("pre")
            for _ in range(rng.randint(0, 2)):
                k += 1
                d = f"d{k}"
                type_dims[d] = dims if rng.random() < 0.8 else I
                t["outputs"].append(d)
                made.append(d)
            for d in imade:
                if rng.random() < 0.4:
                    t["init_inputs"].append(d)
            if rng.random() < 0.4:
                k += 1
                t["init_outputs"].append(f"i{k}")
                imade.append(f"i{k}")
            if rng.random() < 0.2:
                prev = [p for p in tasks]
                if prev:
                    p = rng.choice(prev)
                    if p + "_metadata" not in t["inputs"]:
                        type_dims[p + "_metadata"] = tasks[p]["dims"]
                        t["inputs"].append(p + "_metadata")
            tasks[l] = t
        for t in tasks.values():
            t["type_dims"] = {n_: type_dims[n_] for f in FIELDS[:3] for n_ in t[f]}
        # steps: cut a valid order, then perhaps spoil it
        parts = rng.randint(1, min(3, n))
        cuts = sorted(rng.sample(range(1, n), parts - 1)) if n > 1 else []
        groups = [labels[i:j] for i, j in zip([0, *cuts], [*cuts, n])]
        if rng.random() < 0.3:
            rng.shuffle(groups)
        subsets = {f"s{i}": list(x) for i, x in enumerate(groups)}
        if rng.random() < 0.3:
            subsets["other"] = rng.sample(labels, rng.randint(0, n))
        if rng.random() < 0.25:
            a, b = rng.choice(list(subsets)), rng.choice(labels)
            if b in subsets[a]:
                subsets[a].remove(b)
            else:
                subsets[a].append(b)
        if rng.random() < 0.15:
            subsets["empty"] = []
        names = [f"s{i}" for i in range(len(groups))]
        if rng.random() < 0.15 and "empty" in subsets:
            names.insert(rng.randint(0, len(names)), "empty")
        if rng.random() < 0.1:
            names.append("nope")
        order_ = labels[:]
        rng.shuffle(order_)
        ops = []
        if rng.random() < 0.5:
            ops.append(["assign", names])
        else:
            ops += [["append", s, rng.choice([[], [], I, D, ["detector"], VI, EX])] for s in names]
        for _ in range(rng.randint(1, 6)):
            ops.append(rng.choice([["resolve"], ["resolve"], ["resolve"], ["copy", rng.random() < 0.5], ["pickle", rng.random() < 0.5], ["stream", rng.random() < 0.5], ["sort"], ["rmtask", rng.choice(labels)], ["addtask", rng.choice(labels), rng.choice(names)],
                                   ["drop", rng.choice(list(subsets))], ["discard", rng.choice(names), rng.choice(labels)], ["member", rng.choice(names), rng.choice([*labels, "zz"])], ["dims", rng.choice(list(subsets)), rng.choice([[], I, D, VI, EX])], ["clear"], ["remove", rng.choice(names)],
                                   ["assign", rng.sample(names, len(names))], ["append", rng.choice(list(subsets)), rng.choice([[], I])]]))
            if rng.random() < 0.4:
                ops.append(["resolve"])
        if rng.random() < 0.25:
            late = rng.choice(labels)
            ops[-1:-1] = [["rmtask", late], ["resolve"], ["addtask", late, rng.choice([*names, ""])]]
        yield dict(tasks=tasks, order=order_, subsets=subsets, ops=ops)


if __name__ == "__main__":
    main(gen, check, "P18")
