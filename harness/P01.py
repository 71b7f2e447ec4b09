"""P01: GraphWalker against an abstract scheduler, all small DAGs and op sequences, then random larger ones."""
import itertools
from hlib import *
import networkx
from lsst.pipe.base.graph_walker import GraphWalker


def check(case):
    n, edges, ops = case["n"], [tuple(e) for e in case["edges"]], case["ops"]
    g = networkx.MultiDiGraph() if case.get("multi") else networkx.DiGraph()
    g.add_nodes_from(range(n))
    g.add_edges_from(edges)
    full = networkx.DiGraph(g)
    w = GraphWalker(g)
    finished, dead, yielded = set(), set(), set()
    for op in ops:
        open_ = set(range(n)) - finished - dead
        if op[0] == "next":
            # a node dropped by fail() no longer gates anything: only live predecessors count
            expect = {x for x in open_ - yielded if all(p in finished for p in full.predecessors(x) if p not in dead)}
            try:
                got = next(w)
            except StopIteration:
                require(not open_, f"iteration ended with unfinished nodes {open_}")
                continue
            require(open_, "iteration continued although every node is finished or failed")
            require(isinstance(got, frozenset), "a frozenset is yielded")
            require(set(got) == expect, f"yielded {set(got)}, expected {expect}")
            yielded |= set(got)
        else:
            k = op[1]
            if k not in open_:
                try:
                    getattr(w, op[0])(k)
                except KeyError:
                    continue
                raise Violation(f"{op[0]}({k}) accepted for a node that is already finished, failed or blocked")
            r = getattr(w, op[0])(k)
            if op[0] == "finish":
                finished.add(k)
            else:
                d = {x for x in networkx.descendants(full.subgraph(set(range(n)) - dead), k)}
                require(sorted(r) == sorted(d), f"fail({k}) reported {r}, expected {d}")
                dead |= d | {k}
                finished -= d


def gen(rng, tier):
    for n in (1, 2, 3):
        pairs = list(itertools.combinations(range(n), 2))
        ops = [["next"]] + [["finish", i] for i in range(n)] + [["fail", i] for i in range(n)]
        length = {1: 4, 2: 4, 3: 4 if tier == "quick" else 5}[n]
        for k in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, k):
                for seq in itertools.product(ops, repeat=length):
                    yield dict(n=n, edges=es, ops=list(seq) + [["next"], ["next"]])
    for _ in range(4000 if tier == "quick" else 60000):
        n = rng.randint(2, 9)
        perm = list(range(n))
        rng.shuffle(perm)
        p = rng.random()
        es = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
        ops = []
        for _ in range(rng.randint(3, 3 * n)):
            r = rng.random()
            ops.append(["next"] if r < 0.3 else ["finish", rng.randrange(n)] if r < 0.9 else ["fail", rng.randrange(n)])
        yield dict(n=n, edges=es, ops=ops, multi=rng.random() < 0.3)


if __name__ == "__main__":
    main(gen, check, "P01")
