"""P02: MPGraphExecutor on random DAGs with failures, crashes, timeouts, under a virtual clock and virtual processes."""
import itertools
import sys
import types
import uuid
from hlib import *
import networkx
import lsst.pipe.base.mp_graph_executor as M
from lsst.pipe.base.graph import QgraphSummary
from lsst.pipe.base._status import InvalidQuantumError, RepeatableQuantumError
from lsst.pipe.base.quantum_graph_executor import QuantumExecutor
from lsst.pipe.base.quantum_reports import ExecutionStatus, QuantumReport
from lsst.daf.butler import DataCoordinate, DimensionUniverse

U = DimensionUniverse()
IDS = [uuid.UUID(int=1000 + i) for i in range(16)]
CURRENT = None


class TaskClass:
    canMultiprocess = True


class SerialTask:
    canMultiprocess = False


class Node:
    def __init__(self, label, cls=TaskClass):
        self.label, self.task_class = label, cls


class Q:
    def __init__(self, i):
        self.i = i
        self.dataId = DATA_IDS[i]


DATA_IDS = [DataCoordinate.standardize({"skymap": f"s{i}"}, universe=U) for i in range(16)]


class Result(tuple):
    def __new__(cls, q, r):
        t = super().__new__(cls, (q, r))
        t.quantum, t.report, t.task_metadata = q, r, None
        return t


class Executor(QuantumExecutor):
    def execute(self, task_node, quantum, /, quantum_id=None, *, log_records=None):
        return CURRENT.run(task_node, quantum, quantum_id)


class World:
    def __init__(self, case):
        self.case = case
        self.t0 = self.now = 1000000.0
        self.events = []
        self.procs = []
        self.max_running = 0

    def run(self, task_node, quantum, quantum_id):
        i = quantum.i
        require(quantum_id == IDS[i], "the quantum is executed under its own id")
        require(task_node.label == f"t{i % 3}", "the quantum is executed with its own task")
        if self.case["mode"] == "serial":
            self.start(i)
            self.events.append(("end", i, self.case["nodes"][i]["out"] == "ok"))
        out = self.case["nodes"][i]["out"]
        if out == "fail":
            raise RuntimeError(f"failure of {i}")
        if out == "invalid":
            raise InvalidQuantumError("bad")
        if out == "repeatable":
            raise RepeatableQuantumError("again")
        return Result(quantum, QuantumReport(quantumId=quantum_id, dataId=quantum.dataId, taskLabel=task_node.label))

    def start(self, i):
        self.events.append(("start", i))

    # ---- virtual multiprocessing
    def time(self):
        return self.now

    def sleep(self, s):
        self.now += s
        require(self.now < self.t0 + 4000, "the executor keeps waiting although every process has ended")

    def Pipe(self, duplex=True):
        box = []

        class Rcv:
            def recv(s):
                if not box:
                    raise EOFError
                return box.pop(0)

            def poll(s, t=0):
                return bool(box)

            def close(s):
                pass

        class Snd:
            def send(s, x):
                box.append(x)

            def close(s):
                pass
        return Rcv(), Snd()

    def get_context(self, method=None):
        w = self

        class Process:
            def __init__(s, *, target, args, name=None):
                s.target, s.args, s.name = target, args, name or "p"
                s.i = IDS.index(args[3])
                s.nd = w.case["nodes"][s.i]
                s.end = None
                s.code = None
                s.started = s.closed = False
                s.killed, s.t1 = False, float("inf")

            def start(s):
                require(not s.started, "a process is started twice")
                s.started = True
                s.t0 = w.now
                w.start(s.i)
                w.procs.append(s)
                s.t_end = w.now + s.nd["dur"] if s.nd["out"] not in ("hang", "stuck") else float("inf")
                n = sum(p.alive() for p in w.procs)
                w.max_running = max(w.max_running, n)
                require(n <= w.case["nproc"], f"{n} processes running with num_proc={w.case['nproc']}")

            def alive(s):
                if s.code is None and w.now >= s.t_end:
                    s.finish()
                return s.code is None

            def finish(s):
                out = s.nd["out"]
                if out == "crash":
                    s.code = -11
                elif out == "exit":
                    s.code = 7
                else:
                    try:
                        s.target(*s.args)
                        s.code = 0
                    except SystemExit as e:
                        s.code = e.code
                    except Violation:
                        raise
                    except BaseException:
                        s.code = 1
                s.t1 = max(s.t0, min(s.t_end, w.now))
                w.events.append(("end", s.i, s.code == 0))

            def is_alive(s):
                require(not s.closed, "a closed process is used")
                return s.alive()

            def join(s, timeout=None):
                if timeout is None and s.t_end == float("inf") and s.code is None:
                    raise Violation("joins a process that never ends")
                if s.code is None:
                    w.now = min(s.t_end, w.now + timeout) if timeout is not None else s.t_end
                s.alive()

            @property
            def exitcode(s):
                require(not s.closed, "a closed process is used")
                s.alive()
                return s.code

            def terminate(s):
                if s.alive():
                    if s.nd.get("race") and s.nd["out"] == "ok":
                        s.t_end = w.now
                        s.finish()
                    elif s.nd["out"] != "stuck":
                        s.code, s.t1, s.killed = -15, w.now, True
                        w.events.append(("end", s.i, False))

            def kill(s):
                if s.alive():
                    s.code, s.t1, s.killed = -9, w.now, True
                    w.events.append(("end", s.i, False))

            def close(s):
                require(not s.alive(), "a running process is closed")
                s.closed = True
        return types.SimpleNamespace(Process=Process)


class Graph:
    """Stand-in for a predicted quantum graph: only what the executor needs."""

    def __init__(self, g):
        self.quantum_only_xgraph = g

    def build_execution_quanta(self, *a, **k):
        pass

    def _make_summary(self):
        return SUMMARY


def _summary():
    try:
        return QgraphSummary(graphID=uuid.UUID(int=1), run=None, creationUTC=None, inputCollection=None, outputCollection=None, outputRun=None)
    except Exception:
        return QgraphSummary.model_construct(graphID="x")


SUMMARY = _summary()


def check(case):
    global CURRENT
    w = CURRENT = World(case)
    n = len(case["nodes"])
    g = networkx.DiGraph()
    order = case.get("order", list(range(n)))
    for i in order:
        nd = case["nodes"][i]
        g.add_node(IDS[i], quantum=Q(i), pipeline_node=Node(f"t{i % 3}", SerialTask if nd.get("serial") else TaskClass), data_id=DATA_IDS[i], task_label=f"t{i % 3}")
    g.add_edges_from((IDS[a], IDS[b]) for a, b in case["edges"])
    before = ({k: dict(v) for k, v in g.nodes(data=True)}, set(g.edges))
    serial = case["mode"] == "serial"
    ex = M.MPGraphExecutor(num_proc=1 if serial else case["nproc"], timeout=case["timeout"], quantum_executor=Executor(), fail_fast=case["fail_fast"])
    saved = M.multiprocessing, M.time, getattr(M, "disable_implicit_threading", None)
    fake = types.SimpleNamespace(Pipe=w.Pipe, get_context=w.get_context)
    M.multiprocessing, M.time, M.disable_implicit_threading = fake, types.SimpleNamespace(time=w.time, sleep=w.sleep, monotonic=w.time), lambda: None
    err = None
    try:
        try:
            ex.execute(Graph(g))
        except (Violation, AttributeError, NameError, TypeError):
            raise
        except BaseException as e:
            if type(e).__name__ == "_Timeout":
                raise
            err = e
    finally:
        M.multiprocessing, M.time, M.disable_implicit_threading = saved
    rep = ex.getReport()
    require((set(g.edges)) == before[1] and set(g.nodes) == set(before[0]), "the caller's graph is modified")
    if not serial and any(nd.get("serial") for nd in case["nodes"]):
        require(isinstance(err, M.MPGraphExecutorError) and not w.events, "a task that cannot run in a subprocess is refused before anything starts")
        return
    ended, ok, started = set(), set(), []
    for e in w.events:
        if e[0] == "start":
            i = e[1]
            require(i not in started, f"quantum {i} started twice")
            for a, b in case["edges"]:
                if b == i:
                    require(a in ok, f"quantum {i} started before its predecessor {a} succeeded")
            started.append(i)
        else:
            ended.add(e[1])
            if e[2]:
                ok.add(e[1])
    sim = networkx.DiGraph()
    sim.add_nodes_from(range(n))
    sim.add_edges_from(tuple(e) for e in case["edges"])
    bad = set(started) & ended - ok
    fatal = [i for i in bad if case["nodes"][i]["out"] == "invalid"] or (case["fail_fast"] and bad)
    blocked = set().union(*[networkx.descendants(sim, i) for i in bad]) if bad else set()
    reports = {}
    for r in rep.quantaReports:
        require(r.quantumId in IDS[:n], f"report without a quantum id: {r}")
        i = IDS.index(r.quantumId)
        require(i not in reports, f"two reports for quantum {i}")
        require(r.taskLabel == f"t{i % 3}" and r.dataId["skymap"] == f"s{i}", "report describes another quantum")
        reports[i] = r
    if not fatal:
        require(set(started) == set(range(n)) - blocked, f"started {sorted(started)}, expected everything except {sorted(blocked)}")
        require(set(reports) == set(range(n)), f"quanta without a report: {set(range(n)) - set(reports)}")
        require(ended == set(started), "a process is left running")
    if not serial:
        # the executor looks at its processes every now and then: how late it may be, also when it has to wait for one to be killed
        slack = 3 + 25 * sum(nd["out"] == "stuck" for nd in case["nodes"])
        own = [p for p in w.procs if p.code not in (None, 0) and not p.killed]      # failed by themselves
        first = min([p.t1 for p in (own if case["fail_fast"] else [p for p in own if case["nodes"][p.i]["out"] == "invalid"])], default=float("inf"))
        if case["fail_fast"]:
            first = min([first] + [p.t1 for p in w.procs if p.killed])
        for p in w.procs:
            if p.killed:
                require(p.t1 - p.t0 > case["timeout"] - 1e-3 or p.t1 >= first, f"quantum {p.i} was killed after {p.t1 - p.t0:.3f} s, the timeout is {case['timeout']} s and nothing had failed")
            require(p.code is None or p.t1 - p.t0 <= case["timeout"] + slack, f"quantum {p.i} ran for {p.t1 - p.t0:.3f} s with a timeout of {case['timeout']} s")
            require(p.t0 <= first + slack, f"quantum {p.i} was started {p.t0 - first:.3f} s after the failure that should have stopped execution")
            require(p.code is None or p.t1 <= first + slack, f"quantum {p.i} ran on for {p.t1 - first:.3f} s after the failure that should have stopped execution")
    timed = set()
    for i, r in reports.items():
        if i in ok:
            want = ExecutionStatus.SUCCESS
        elif i in bad:
            p = next((p for p in w.procs if p.i == i), None)
            late = p is not None and p.code in (-15, -9)
            want = ExecutionStatus.TIMEOUT if late else ExecutionStatus.FAILURE
            if late:
                timed.add(i)
        else:
            require(i in blocked and i not in started, f"quantum {i} reported {r.status} without being blocked")
            want = ExecutionStatus.SKIPPED
        require(r.status == want, f"quantum {i}: reported {r.status}, expected {want}")
    if bad:
        require(rep.status in (ExecutionStatus.FAILURE, ExecutionStatus.TIMEOUT), f"report status {rep.status} although quanta failed")
        if not fatal:
            require(rep.status == (ExecutionStatus.TIMEOUT if timed == bad else ExecutionStatus.FAILURE), f"report status {rep.status}, failed {bad}, timed out {timed}")
            require(isinstance(err, M.MPGraphExecutorError), f"failures end with {err!r}")
            require(isinstance(err, M.MPTimeoutError) == (timed == bad and not blocked), f"{type(err).__name__} for failed={bad} timed out={timed} blocked={blocked}")
        else:
            require(err is not None, "fail-fast failure does not raise")
            require(not any(p.alive() for p in w.procs), "fail-fast leaves processes running")
            if not serial:
                require(isinstance(err, M.MPGraphExecutorError), f"{err!r}")
            if serial:
                last = w.events[-1][1]
                require(len(fatal) == 1 and last in fatal and w.events[-1] == ("end", last, False), "execution continues after a fatal failure")
                out = case["nodes"][last]["out"]
                if out == "fail":
                    require(isinstance(err, M.MPGraphExecutorError), f"{err!r}")
                else:
                    cls = InvalidQuantumError if out == "invalid" else RepeatableQuantumError
                    require(isinstance(err, SystemExit) and err.code == cls.EXIT_CODE, f"{err!r}")
    else:
        require(err is None, f"raised {err!r} although every quantum succeeded")
        require(rep.status == ExecutionStatus.SUCCESS, f"report status {rep.status}")


def gen(rng, tier):
    outs = ["ok", "fail"]
    for n in (1, 2, 3):
        pairs = list(itertools.combinations(range(n), 2))
        for k in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, k):
                for o in itertools.product(outs, repeat=n):
                    for mode, ff in itertools.product(("serial", "mp"), (False, True)):
                        yield dict(mode=mode, nproc=2, timeout=60, fail_fast=ff, edges=es, nodes=[dict(out=x, dur=0.3) for x in o])
    while True:
        n = rng.randint(1, 10)
        perm = list(range(n))
        rng.shuffle(perm)
        p = rng.random() ** 2
        es = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
        mode = rng.choice(["serial", "mp", "mp"])
        pool = ["ok"] * rng.choice([3, 6, 20]) + (["fail", "invalid", "repeatable"] if mode == "serial" else ["fail", "crash", "exit", "hang", "stuck", "repeatable"] + (["invalid"] if rng.random() < 0.3 else []))
        if mode == "mp" and rng.random() < 0.3:
            pool = ["ok"] * 5 + ["hang", "stuck"]
        nodes = [dict(out=rng.choice(pool), dur=rng.choice([0, 0.05, 0.3, 1, 5, 20]), race=rng.random() < 0.1) for _ in range(n)]
        if rng.random() < 0.03:
            nodes[rng.randrange(n)]["serial"] = True
        rng.shuffle(perm)
        yield dict(mode=mode, nproc=rng.choice([2, 3, 5]), timeout=rng.choice([2, 10, 60]), fail_fast=rng.random() < 0.25, edges=es, nodes=nodes, order=perm)


if __name__ == "__main__":
    main(gen, check, "P02")
