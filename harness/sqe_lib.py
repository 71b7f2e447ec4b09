"""Shared by P06 and P07: real SingleQuantumExecutor runs on in-memory data with a scripted task, against a direct statement of the outcome."""
import uuid
from hlib import *
from lsst.daf.butler import Quantum
from lsst.daf.butler.logging import ButlerLogRecords
from lsst.pipe.base import AnnotatedPartialOutputsError, NoWorkFound, QuantumSuccessCaveats as F, TaskMetadata
from lsst.pipe.base.single_quantum_executor import SingleQuantumExecutor
from lsst.pipe.base.tests.in_memory_limited_butler import InMemoryLimitedButler
from lsst.pipe.base.tests.mocks import DynamicConnectionConfig, InMemoryRepo, MockDataset

D, I = ["instrument", "detector"], ["instrument"]
_SETUP = {}


def setup(minimum):
    if minimum not in _SETUP:
        repo = InMemoryRepo("base.yaml")
        c = lambda n, d, m=False, mn=1: DynamicConnectionConfig(dataset_type_name=n, dimensions=d, multiple=m, minimum=mn)
        repo.add_task("t", dimensions=I, inputs={"a": c("da", D, True, minimum), "b": c("db", I), "c": c("dc", D, True, 0)}, outputs={"o": c("do", I), "p": c("dp", D, True)})
        qg = repo.make_quantum_graph()
        (qid, quantum), = qg.build_execution_quanta(task_label="t").items()
        node = qg.pipeline_graph.tasks["t"]
        types = [n.dataset_type for n in qg.pipeline_graph.dataset_types.values()]
        _SETUP[minimum] = (repo, qid, quantum, node, types)
    return _SETUP[minimum]


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


def mock(ref):
    return MockDataset(dataset_id=ref.id, dataset_type=ref.datasetType.to_simple(), data_id=dict(ref.dataId.mapping), run=ref.run)


class Butler(InMemoryLimitedButler):
    closed = 0

    def close(self):
        self.closed += 1


class Rec:
    def __init__(self, ids):
        self.records = {i: None for i in ids}


class FakeTask:
    def __init__(self, plan, log):
        self.plan, self.log = plan, log

    def getFullMetadata(self):
        m = TaskMetadata()
        m["t"] = TaskMetadata()
        m["t"]["mark"] = 7
        return m

    def runQuantum(self, qc, inputs, outputs):
        self.log.append(("run", {k: [r.id for r in (v if isinstance(v, (list, tuple)) else [v])] for k, v in inputs}))
        for k, v in outputs:
            for r in v if isinstance(v, (list, tuple)) else [v]:
                if (r.datasetType.name, r.dataId.get("detector")) in self.plan["write"]:
                    qc.put(mock(r), r)
        what = self.plan["run"]
        if what == "nowork":
            raise NoWorkFound("nothing")
        if what == "boom":
            raise self.plan["exc"]
        if what == "partial":
            raise AnnotatedPartialOutputsError("partial") from self.plan["exc"]
        if what == "partial-bare":
            raise self.plan["bare"]


class Factory:
    def __init__(self, plan, log):
        self.plan, self.log = plan, log

    def makeTask(self, node, butler, refs):
        self.log.append(("make",))
        if self.plan["make"] == "boom":
            raise self.plan["exc"]
        return FakeTask(self.plan, self.log)


def check(case):
    repo, qid, quantum, node, types = setup(case["minimum"])
    refs = {}
    for rs in [*quantum.inputs.values(), *quantum.outputs.values()]:
        for r in rs:
            refs[r.datasetType.name, r.dataId.get("detector")] = r
    META, LOG = "t_metadata", "t_log"
    outs = {k: r for k, r in refs.items() if k[0] not in ("da", "db", "dc")}
    ins = {k: r for k, r in refs.items() if k[0] in ("da", "db", "dc")}
    butler = Butler(repo.butler.dimensions, types)
    missing = {tuple(k) for k in case["missing"]}
    for k, r in ins.items():
        if k not in missing:
            butler.put(mock(r), r)
    known = {tuple(k) for k in case["known"]}
    q = quantum
    if case["known"]:
        q = Quantum(taskName=quantum.taskName, taskClass=quantum.taskClass, dataId=quantum.dataId, initInputs=quantum.initInputs, inputs=quantum.inputs, outputs=quantum.outputs,
                    datastore_records={"x": Rec([]), "y": Rec([ins[k].id for k in known])})
    plan = dict(case["plan"])
    log = []
    made = []

    def factory(quantum):
        made.append(1)
        return butler
    kw = dict(skip_existing=case["skip"], clobber_outputs=case["clobber"], assume_no_existing_outputs=case["assume"], raise_on_partial_outputs=case["raise_partial"], job_metadata=case["job"], task_factory=Factory(plan, log))
    ex = SingleQuantumExecutor(limited_butler_factory=factory, **kw) if case["factory"] else SingleQuantumExecutor(butler=butler, **kw)
    have = {k for k in ins if k not in missing}
    kept = {k for k in ins if k in have or k in known}
    previous = []           # logs of earlier attempts still recorded in the stored log
    oldlog = None
    for k in case["stored"]:
        k = tuple(k)
        if k[0] == LOG:
            rec = ButlerLogRecords.from_records([])
            rec.extra = {"exception": {"type_name": "old.Error", "message": "old", "metadata": {}}}
            butler.put(rec, refs[k])
        elif k[0] == META:
            butler.put(TaskMetadata(), refs[k])
        else:
            butler.put(mock(refs[k]), refs[k])
        have.add(k)
    attempts = [case["plan"], *case["more"]]
    ran_before = 0
    previous_quanta = []
    attached = []
    if (LOG, None) in have:
        attached_log = ["old.Error"]
    else:
        attached_log = None
    for no, p in enumerate(attempts):
        plan.clear()
        plan.update(p)
        plan["write"] = {tuple(k) for k in p["write"]}
        plan["exc"] = Boom("boom %d" % no)
        plan["bare"] = AnnotatedPartialOutputsError("bare")
        log.clear()
        made.clear()
        closed0 = butler.closed
        old = set(have)
        result = error = None
        rid = uuid.uuid4()
        records = ButlerLogRecords.from_records([]) if case["records"] else None
        try:
            result = ex.execute(node, quantum=q, quantum_id=rid, log_records=records)
        except Exception as e:
            error = e
        now = {k for k, r in refs.items() if butler.stored(r)}
        require(butler.closed - closed0 == (1 if case["factory"] else 0), f"the butler was closed {butler.closed - closed0} times")
        O = set(outs)
        what = f"attempt {no}"
        if not case["assume"] and case["skip"] and (META, None) in have:
            require(error is None, f"{what}: skipping failed: {error!r}")
            require(result.skipped_existing is True and not result.adjusted_no_work, f"{what}: not reported as skipped")
            require(now == old and not log, f"{what}: skipped, but something ran or changed: {now ^ old} {log}")
            continue
        if not case["assume"] and have & O and not case["clobber"]:
            require(isinstance(error, RuntimeError), f"{what}: outputs exist without clobbering: {error!r}, expected RuntimeError")
            require(now == old and not log, f"{what}: refused, but something ran or changed: {sorted(now ^ old)} {log}")
            continue
        if case["assume"] and have & O:
            return          # outside the caller's promise
        had_log = attached_log if (LOG, None) in have else None
        have -= O
        counts = {n: sum(1 for k in kept if k[0] == n) for n in ("da", "db", "dc")}
        lost = len(kept) != len(ins)
        nowork = lost and (counts["da"] < case["minimum"] or counts["db"] < 1)
        require(error is None or result is None, "")
        flags = None
        if nowork:
            expect, writes, err = "nowork", set(), None
            require(not log, f"{what}: no work, but the task was made or run")
        else:
            writes, err = set(), None
            if plan["make"] == "boom":
                err = plan["exc"]
            else:
                writes = plan["write"] & O
                flags = {"nowork": NoWorkFound.FLAGS, "partial": AnnotatedPartialOutputsError.FLAGS, "partial-bare": AnnotatedPartialOutputsError.FLAGS}.get(plan["run"], F.NO_CAVEATS)
                if plan["run"] == "boom":
                    err = plan["exc"]
                elif plan["run"].startswith("partial") and case["raise_partial"]:
                    err = plan["exc"] if plan["run"] == "partial" else plan["bare"]
                task_outputs = {k for k in O if k[0] in ("do", "dp")}
                if not writes:
                    flags |= F.ALL_OUTPUTS_MISSING
                if writes != task_outputs:
                    flags |= F.ANY_OUTPUTS_MISSING
                got = [e for e in log if e[0] == "run"]
                require(len(got) == 1, f"{what}: the task ran {len(got)} times")
                want = {n: {ins[k].id for k in kept if k[0] == n} for n in ("da", "db", "dc")}
                seen = {c: set() for c in ("da", "db", "dc")}
                ids = {r.id: k[0] for k, r in ins.items()}
                for c_, l in got[0][1].items():
                    for i in l:
                        seen[ids[i]].add(i)
                    require(len(l) == len(set(l)), f"{what}: an input is passed twice")
                require(seen == want, f"{what}: the task ran with inputs other than those that exist")
        require(error is err, f"{what}: ended with {error!r}, expected {err!r}")
        expect = {*writes, (LOG, None)} | (set() if err else {(META, None)})
        require(now - set(ins) == expect, f"{what}: outputs stored {sorted(now - set(ins))}, expected {sorted(expect)}")
        require(now & set(ins) == have & set(ins), f"{what}: inputs changed")
        have = {k for k in have if k in ins} | expect
        rec = butler.get(refs[LOG, None])
        extra = rec.extra
        exc = (extra or {}).get("exception")
        if err is not None:
            require(exc is not None and exc["type_name"].split(".")[-1] == type(err).__name__ and exc["message"] == str(err), f"{what}: failure recorded as {exc}")
            md = TaskMetadata.model_validate(extra["metadata"]) if extra.get("metadata") else None
            require(md is not None, f"{what}: no metadata in the log of a failure")
        else:
            require(not exc, f"{what}: a failure is recorded for a success")
            md = butler.get(refs[META, None])
            require(result.task_metadata == md, f"{what}: the metadata reported is not the metadata stored")
            require(result.skipped_existing is False and bool(result.adjusted_no_work) == nowork, f"{what}: reported as skipped {result.skipped_existing}, no work {result.adjusted_no_work}")
            fl = F.from_adjust_quantum_no_work() if nowork else flags
            require(md["quantum"]["caveats"] == fl.value, f"{what}: caveats {F(md['quantum']['caveats'])!r}, expected {fl!r}")
        def vals(name):
            try:
                return md["quantum"].getArray(name)
            except KeyError:
                return []
        require(sorted(vals("outputs")) == sorted(str(outs[k].id) for k in writes), f"{what}: outputs recorded {vals('outputs')}, written {sorted(writes)}")
        if any(e[0] == "run" for e in log):
            require("t" in md and md["t"]["mark"] == 7, f"{what}: what the task put into its metadata is not in the metadata recorded")
        if case["job"]:
            require(dict(md["job"].toDict() if hasattr(md["job"], "toDict") else md["job"]) == case["job"], f"{what}: job metadata {md['job']}")
        prev = [(a.get("exception") or {}).get("type_name") for a in (extra or {}).get("previous_attempts", [])]
        want_prev = had_log or []
        require(prev == want_prev, f"{what}: logs of earlier attempts {prev}, expected {want_prev}")
        pq = (extra or {}).get("previous_process_quanta", [])
        require([str(u) for u in pq] == previous_quanta, f"{what}: quanta run before in this process {pq}, expected {previous_quanta}")
        previous_quanta.append(str(rid))
        attached_log = want_prev + [exc["type_name"] if exc else None]


NAMES = [("do", None), *[("dp", d) for d in (1, 2, 3, 4)]]
INS = [*[("da", d) for d in (1, 2, 3, 4)], ("db", None), *[("dc", d) for d in (1, 2, 3, 4)]]


def plan(rng):
    r = rng.random()
    write = list(NAMES) if r < .4 else [] if r < .55 else [k for k in NAMES if rng.random() < .5]
    return dict(make="boom" if rng.random() < .15 else "ok", run=rng.choice(["ok", "ok", "nowork", "boom", "partial", "partial-bare"]), write=[list(k) for k in write])


def gen(rng, tier, focus):
    while True:
        r = rng.random()
        allo = NAMES + [("t_metadata", None), ("t_log", None)]
        if focus == "existing":
            stored = [] if r < .15 else allo if r < .35 else [k for k in allo if rng.random() < .5]
        else:
            stored = [] if r < .8 else [k for k in allo if rng.random() < .5]
        assume = not stored and rng.random() < .2
        m = rng.random()
        missing = [] if m < .4 else [k for k in INS if rng.random() < (.2 if m < .8 else .7)]
        known = [] if rng.random() < .6 else [k for k in INS if rng.random() < .3]
        yield dict(minimum=rng.choice([1, 1, 2, 4]), stored=[list(k) for k in stored], missing=[list(k) for k in missing], known=[list(k) for k in known], skip=rng.random() < .5, clobber=rng.random() < (.6 if focus == "existing" else .9), assume=assume,
                   raise_partial=rng.random() < .5, job={"jobid": 3, "host": "h"} if rng.random() < .4 else None, factory=rng.random() < .5, records=rng.random() < .3, plan=plan(rng), more=[plan(rng) for _ in range(rng.choice([0, 0, 1, 2]))])
