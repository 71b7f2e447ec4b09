"""P15: random pipelines and random selection expressions, against direct set semantics."""
from hlib import *
from lsst.daf.butler import DimensionUniverse
from lsst.pipe.base.pipeline_graph import InvalidExpressionError, PipelineGraph
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, DynamicTestPipelineTask, DynamicTestPipelineTaskConfig

U = DimensionUniverse()
PREC = {"|": 0, "&": 1, "~": 2}


class Registry:
    dimensions = U

    def getDatasetType(self, name):
        from lsst.daf.butler import MissingDatasetTypeError
        raise MissingDatasetTypeError(name)


def build(case):
    g = PipelineGraph()
    for label, t in case["tasks"].items():
        cfg = DynamicTestPipelineTaskConfig()
        cfg.dimensions = ["instrument"]
        for field, names in t.items():
            for n, name in enumerate(names):
                dims = [] if field.startswith("init") or name in case["init_types"] else ["instrument"]
                getattr(cfg, field)[f"{field}{n}"] = DynamicConnectionConfig(dataset_type_name=name, dimensions=dims)
        g.add_task(label, DynamicTestPipelineTask, cfg)
    for label, members in case["subsets"].items():
        g.add_task_subset(label, members)
    if case["mode"] == "sorted":
        g.sort()
    elif case["mode"] == "resolved":
        g.resolve(Registry())
    return g


def render(e, rng_bits, parent=-1):
    sp = lambda: " " * next(rng_bits) + "\t" * (next(rng_bits) // 2)
    k = e[0]
    if k == "id":
        return sp() + (e[1] + ":" if e[1] else "") + e[2] + sp()
    if k == "dir":
        return sp() + e[1] + sp() + render(["id", e[2], e[3]], rng_bits)
    if k == "~":
        s = "~" + render(e[1], rng_bits, 2)
    else:
        # the operators associate, so the side does not matter
        s = render(e[1], rng_bits, PREC[k]) + k + render(e[2], rng_bits, PREC[k])
    return sp() + ("(" + s + ")" if PREC[k] < parent or next(rng_bits) == 2 else s) + sp()


class Refused(Exception):
    pass


class Oracle:
    def __init__(self, case):
        self.tasks, self.subsets = case["tasks"], case["subsets"]
        auto = {l: (l + "_log", l + "_metadata") for l in self.tasks}
        self.types = {l + s for l in self.tasks for s in ("_log", "_metadata", "_config")} | {n for t in self.tasks.values() for f in t.values() for n in f}
        self.maker = {n: l for l, t in self.tasks.items() for n in (*t["outputs"], *auto[l])}
        self.init_maker = {n: l for l, t in self.tasks.items() for n in (*t["init_outputs"], l + "_config")}
        self.users = {n: {l for l, t in self.tasks.items() if n in t["inputs"] or n in t["prerequisite_inputs"] or n in t["init_inputs"]} for n in self.types}
        self.users = {n: self.users.get(n, set()) for n in self.types}
        runtime = self.runtime = {l: {self.maker[n] for f in ("inputs", "prerequisite_inputs") for n in t[f] if n in self.maker} for l, t in self.tasks.items()}
        self.anc = {l: self.closure(l, lambda k: runtime[k]) for l in self.tasks}
        self.desc = {l: {m for m in self.tasks if l in self.anc[m]} for l in self.tasks}

    def closure(self, l, step):
        seen, todo = set(), [l]
        while todo:
            for m in step(todo.pop()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen

    def name(self, q, label):
        found = [k for k, there in (("T", label in self.tasks), ("D", label in self.types), ("S", label in self.subsets)) if there and q in (None, k)]
        if len(found) != 1:
            raise Refused()
        return found[0]

    def eval(self, e):
        k = e[0]
        if k == "id":
            what, n = self.name(e[1], e[2]), e[2]
            if what == "T":
                return {n}
            if what == "S":
                return set(self.subsets[n])
            if n in self.init_maker:
                raise Refused()
            return {self.maker[n]} if n in self.maker else set()
        if k == "dir":
            op, what, n = e[1], self.name(e[2], e[3]), e[3]
            if what == "S":
                raise Refused()
            rel, inc = (self.anc if op[0] == "<" else self.desc), op.endswith("=")
            if what == "T":
                return rel[n] | ({n} if inc else set())
            if op[0] == "<":
                if n in self.init_maker:
                    raise Refused()
                if n not in self.maker:
                    return set()
                return self.anc[self.maker[n]] | ({self.maker[n]} if inc else set())
            if inc and n in self.init_maker:
                raise Refused()
            r = {self.maker[n]} if inc and n in self.maker else set()
            for u in self.users[n]:
                r |= {u} | self.desc[u]
            return r
        if k == "~":
            return set(self.tasks) - self.eval(e[1])
        a, b = self.eval(e[1]), self.eval(e[2])
        return a | b if k == "|" else a & b


def check(case):
    g = build(case)
    o = Oracle(case)
    labels = set(g.tasks)
    for text, e in case["exprs"]:
        if e is None:
            for f in (g.select_tasks, g.select):
                try:
                    r = f(text)
                except InvalidExpressionError:
                    continue
                raise Violation(f"{text!r} is not an expression, but {f.__name__} gave {r}")
            continue
        try:
            want = o.eval(e)
        except Refused:
            want = None
        for f in (g.select_tasks, g.select):
            try:
                r = f(text)
            except InvalidExpressionError as err:
                require(want is None, f"{f.__name__}({text!r}) refused ({err}), expected {want}")
                continue
            require(want is not None, f"{f.__name__}({text!r}) gave {r}, expected a refusal")
            if f == g.select_tasks:
                require(r == want, f"select_tasks({text!r}) gave {sorted(r)}, expected {sorted(want)}")
                continue
            require(set(r.tasks) == want and len(r.tasks) == len(want), f"select({text!r}) has tasks {sorted(r.tasks)}, expected {sorted(want)}")
            for l in want:
                a, b = g.tasks[l], r.tasks[l]
                require(list(map(repr, a.iter_all_inputs())) == list(map(repr, b.iter_all_inputs())) and list(map(repr, a.iter_all_outputs())) == list(map(repr, b.iter_all_outputs())) and a.config is b.config and (not a.has_resolved_dimensions or a.dimensions == b.dimensions), f"select({text!r}) changed task {l}")
            types = {e_.parent_dataset_type_name for l in want for it in (g.tasks[l], g.tasks[l].init) for e_ in (*it.iter_all_inputs(), *it.iter_all_outputs())}
            require(set(r.dataset_types) == types, f"select({text!r}) has dataset types {sorted(r.dataset_types)}, expected {sorted(types)}")
            for n in types:
                require(r.dataset_types.is_resolved(n) == g.dataset_types.is_resolved(n), f"select({text!r}): {n} resolution not preserved")
                if g.dataset_types.is_resolved(n):
                    require(r.dataset_types[n] == g.dataset_types[n], f"select({text!r}): {n} changed")
            require(not r.task_subsets, f"select({text!r}) kept task subsets")
            require(r.has_been_sorted or not g.has_been_sorted, f"select({text!r}): not sorted")
            if g.has_been_sorted:
                seen = []
                for l in r.tasks:
                    require(not any(l in o.runtime[m] for m in seen), f"select({text!r}): {l} follows a task that reads its outputs")
                    seen.append(l)
        require(set(g.tasks) == labels and set(g.task_subsets) == set(case["subsets"]), "selection changed the graph selected from")


BAD = ["", "a b", "a |", "& a", "~", "(a", "a)", "<", "<(a)", "<~a", "a < b", "X:a", "T:", "a:b", "a @ b", "a || b", "()", "a ~ b", "a & | b", "< < a", "a.b", "T:T:a", ">= >a", "a, b", "'a'"]


def gen(rng, tier):
    k = 0
    while True:
        k += 1
        n = rng.randint(1, 5)
        labels = rng.sample(["a", "b", "c1", "T", "_x", "e2"], n)
        types = rng.sample(["d1", "d2", "d3", "d4", "d5", "a", "s", "b", "S"], 7)
        init_types = types[:2]
        run_types = types[2:]
        order = labels[:]
        rng.shuffle(order)
        tasks = {l: dict(inputs=[], prerequisite_inputs=[], outputs=[], init_inputs=[], init_outputs=[]) for l in labels}
        made, unmade = [], run_types[:]
        imade, iunmade = [], init_types[:]
        ext = {}
        for l in order:
            t = tasks[l]
            # no name twice among a task's own connections
            for d in rng.sample(made, min(len(made), rng.randint(0, 2))):
                t["inputs"].append(d)
            if unmade and rng.random() < 0.4:
                d = unmade[-1] if rng.random() < 0.5 else rng.choice(unmade)
                unmade.remove(d)
                ext[d] = "prerequisite_inputs" if rng.random() < 0.4 else "inputs"
            for d, f in ext.items():
                if rng.random() < 0.5:
                    t[f].append(d)
            for _ in range(rng.randint(0, 2)):
                if unmade:
                    d = unmade.pop(rng.randrange(len(unmade)))
                    t["outputs"].append(d)
                    made.append(d)
            for d in imade:
                if rng.random() < 0.5:
                    t["init_inputs"].append(d)
            if iunmade and rng.random() < 0.5:
                d = iunmade.pop()
                t["init_outputs"].append(d)
                imade.append(d)
        subsets = {}
        for s in ("s", "q-1", "S"):
            if s not in tasks and rng.random() < 0.5:
                subsets[s] = rng.sample(labels, rng.randint(0, n))
        names = sorted(set(labels) | set(subsets) | {d for t in tasks.values() for f in t.values() for d in f}) + [labels[0] + s for s in ("_log", "_metadata", "_config")] + (["nope"] if rng.random() < 0.1 else [])

        def ident():
            return [rng.choice([None, None, None, "T", "D", "S"]), rng.choice(names)]

        o = Oracle(dict(tasks=tasks, subsets=subsets))

        def good(e):
            try:
                o.eval(e)
                return True
            except Refused:
                return False

        def leaf():
            for _ in range(20):
                e = ["id", *ident()] if rng.random() < 0.5 else ["dir", rng.choice(["<", "<=", ">", ">="]), *ident()]
                if good(e) or rng.random() < 0.03:
                    return e
            return ["id", "T", labels[0]]

        def tree(d):
            r = rng.random()
            if d == 0 or r < 0.2:
                return leaf()
            if r < 0.4:
                return ["~", tree(d - 1)]
            return [rng.choice("|&"), tree(d - 1), tree(d - 1)]

        def bits():
            while True:
                yield rng.choice([0, 0, 0, 0, 0, 1, 2]) if rng.random() < 0.5 else 0
        exprs = []
        for _ in range(12):
            e = leaf() if rng.random() < 0.3 else ["id", *ident()] if rng.random() < 0.2 else tree(rng.randint(1, 4))
            exprs.append([render(e, bits()), e])
        exprs.append([rng.choice(BAD), None])
        yield dict(tasks=tasks, subsets=subsets, init_types=init_types, mode=rng.choice(["plain", "sorted", "resolved"]), exprs=exprs)


if __name__ == "__main__":
    main(gen, check, "P15")
