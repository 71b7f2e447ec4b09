"""P04: address tables: every id written is found with its addresses, for any page size and access history."""
import io
import os
import tempfile
import uuid
import zipfile
from hlib import *
from lsst.pipe.base.quantum_graph import _multiblock as mb


def check(case):
    k = case["k"]
    maps = [{uuid.UUID(int=u): mb.Address(o, s) for u, o, s in m} for m in case["maps"]]
    ids = sorted({u for m in maps for u in m}, key=lambda u: u.int)
    w = mb.AddressWriter(maps)
    require(set(w.get_all_ids()) == set(ids), "union of ids")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "f.zip")
        with zipfile.ZipFile(path, "w") as zf:
            w.write_to_zip(zf, "t", int_size=k)
        expect = {u: (n, [m.get(u, mb.Address()) for m in maps]) for n, u in enumerate(ids)}
        with zipfile.ZipFile(path) as zf:
            raw = zf.read("t.addr")
            for target in ("zip", "raw"):
                ctx = mb.AddressReader.open_in_zip(zf, "t", page_size=case["page"], n_addresses=len(maps), int_size=k) if target == "zip" else None
                r = ctx.__enter__() if ctx else mb.AddressReader.from_stream(io.BytesIO(raw), page_size=case["page"], n_addresses=len(maps), int_size=k)
                rs = mb.AddressReader.compute_row_size(k, len(maps))
                require(len(raw) == mb.AddressReader.compute_header_size(k) + rs * len(ids), "file size matches the header and row sizes")
                require(r.n_rows == len(ids), "row count")
                cover = [i for p in r.pages for i in range(p.begin, p.begin + p.n_rows)]
                require(cover == list(range(len(ids))), f"pages cover rows {cover}, expected {len(ids)} rows once each, in order")
                for op in case["ops"]:
                    if op[0] == "all":
                        rows = r.read_all()
                        require(set(rows) == set(ids), f"read_all returned {len(rows)} of {len(ids)} rows")
                        for u, row in rows.items():
                            same(row, u, expect)
                    else:
                        u = uuid.UUID(int=op[1]) if op[0] == "miss" or not ids else ids[op[1] % len(ids)]
                        if u in expect:
                            same(r.find(u), u, expect)
                        else:
                            try:
                                r.find(u)
                            except LookupError:
                                continue
                            raise Violation(f"find returned a row for {u}, which was never written")
                if ctx:
                    ctx.__exit__(None, None, None)
        for bad in (dict(n_addresses=len(maps) + 1, int_size=k), dict(n_addresses=len(maps), int_size=k + 1)):
            try:
                mb.AddressReader.from_stream(io.BytesIO(raw), page_size=case["page"], **bad)
            except mb.InvalidQuantumGraphFileError:
                continue
            raise Violation(f"header mismatch accepted: {bad}")
        try:
            mb.AddressReader.from_stream(io.BytesIO(raw[: mb.AddressReader.compute_header_size(k) - 1]), page_size=case["page"], n_addresses=len(maps), int_size=k)
        except mb.InvalidQuantumGraphFileError:
            pass
        else:
            raise Violation("truncated header accepted")


def same(row, u, expect):
    n, addrs = expect[u]
    require(row.key == u and row.index == n, f"row for {u} is {row.key} index {row.index}, expected index {n}")
    require([(a.offset, a.size) for a in row.addresses] == [(a.offset, a.size) for a in addrs], f"addresses of {u} differ: {row.addresses} vs {addrs}")


def gen(rng, tier):
    M = 2 ** 128
    for n in range(0, 9):
        for per in (1, 2, 3, 4, 9):
            k, na = 2, 1
            rs = 16 + k * (1 + 2 * na)
            m = [[u * 2 + 1 if n % 2 else u, u + 1, 3] for u in range(n)]
            for ops in ([["find", i] for i in range(n)] + [["miss", i] for i in range(2 * n + 2)], [["find", n // 2], ["all"], ["find", 0], ["miss", 10 ** 6]],
                        [["find", i] for i in reversed(range(n))] + [["all"]], [["miss", 2 * n + 5], ["miss", M - 1], ["all"], ["all"]]):
                yield dict(k=k, maps=[m], page=rs * per + per % 3, ops=ops)
    for _ in range(1500 if tier == "quick" else 30000):
        k = rng.choice([1, 2, 4, 8])
        top = 256 ** k
        na = rng.randint(0, 4)
        dense = rng.random() < 0.6
        base = rng.choice([0, rng.getrandbits(127), M - 60])
        universe = [min(base + rng.randint(0, 50), M - 1) if dense else rng.getrandbits(128) for _ in range(rng.randint(0, 40))]
        maps = []
        for _ in range(na):
            sub = {u for u in universe if rng.random() < rng.choice([0.2, 0.7, 1.0])}
            sub = sorted(sub)
            rng.shuffle(sub)
            maps.append([[u, rng.randrange(top), rng.randrange(top)] for u in sub])
        ops = [["all"] if rng.random() < 0.07 else ["find", rng.randint(0, 60)] if rng.random() < 0.6
               else ["miss", max(0, min(M - 1, rng.choice(universe + [base]) + rng.randint(-3, 3)))] for _ in range(rng.randint(1, 30))]
        rs = 16 + k * (1 + 2 * na)
        yield dict(k=k, maps=maps, page=rng.choice([1, rs, rs * 2, rs * 3 + 1, rs * 7, 10 ** 6]), ops=ops)


if __name__ == "__main__":
    main(gen, check, "P04")
