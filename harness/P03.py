"""P03: blocks written to a multi-block file are read back unchanged, by address and sequentially."""
import io
import os
import tempfile
import uuid
import zipfile
from hlib import *
import pydantic
from lsst.pipe.base.quantum_graph import _multiblock as mb


class Model(pydantic.BaseModel):
    x: str = ""


class Comp:
    def compress(self, data):
        return b"Z" + data[::-1]

    def decompress(self, data):
        require(data[:1] == b"Z", "decompressor fed something the compressor did not produce")
        return data[1:][::-1]


def payload(spec):
    n, seed = spec
    return bytes((seed * 31 + i * 7) % 256 for i in range(n))


def check(case):
    k = case["k"]
    blocks = [(uuid.UUID(int=u), payload(p)) for u, p in case["blocks"]]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "f.zip")
        expect = {}
        order = []
        with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED) as zf:
            with mb.MultiblockWriter.open_in_zip(zf, "x", int_size=k, use_tempfile=case["tmp"]) as w:
                pos = 0
                for u, p in blocks:
                    before = dict(w.addresses)
                    if case["model"]:
                        m = Model(x=p.hex())
                        p = Comp().compress(m.model_dump_json().encode())
                        call = lambda: w.write_model(u, m, Comp())
                    else:
                        call = lambda: w.write_bytes(u, p)
                    if u in expect or len(p) >= 256 ** k:
                        try:
                            call()
                        except (AssertionError, OverflowError):
                            require(w.addresses == before and w.file_size == pos, "rejected write changed the recorded state")
                            continue
                        raise Violation("duplicate or oversized write accepted")
                    a = call()
                    require((a.offset, a.size) == (pos, len(p) + k), f"address {a} for block of {len(p)} at {pos}")
                    require(w.addresses.keys() - before.keys() == {u} and w.addresses[u] == a, "address not recorded exactly once")
                    require(all(w.addresses[b] == before[b] for b in before), "other addresses changed")
                    expect[u] = p
                    order.append(p)
                    pos += len(p) + k
                    require(w.file_size == pos, "running size")
                addresses = dict(w.addresses)
        with zipfile.ZipFile(path) as zf:
            require(zf.namelist() == ["x.mb"], f"members {zf.namelist()}")
            require(zf.read("x.mb") == b"".join(len(p).to_bytes(k) + p for p in order), "file content is the concatenation of length-prefixed blocks")
            with mb.MultiblockReader.open_in_zip(zf, "x", int_size=k) as r:
                ids = list(addresses)
                for i in case["reads"]:
                    if not ids:
                        break
                    u = ids[i % len(ids)]
                    got = r.read_bytes(addresses[u])
                    require(got == expect[u], "block read back differs from what was written")
                    if case["model"]:
                        got = r.read_model(addresses[u], Model, Comp())
                        require(got == Model.model_validate_json(Comp().decompress(expect[u])), "model read back differs")
                require(r.read_bytes(mb.Address()) is None, "absent block reads as None")
                require(r.read_model(mb.Address(), Model, Comp()) is None, "absent model reads as None")
                for u in ids[:3]:
                    a = addresses[u]
                    for delta in (1, -1):
                        bad = mb.Address(a.offset, a.size + delta)
                        if bad.size <= k or bad.offset + bad.size > pos:
                            continue
                        try:
                            r.read_bytes(bad)
                        except mb.InvalidQuantumGraphFileError:
                            continue
                        raise Violation("a block whose length disagrees with its address was returned")
            got = list(mb.MultiblockReader.read_all_bytes_in_zip(zf, "x", int_size=k, page_size=case["page"]))
            require(got == order, "sequential read differs from what was written")
            if case["model"]:
                got = list(mb.MultiblockReader.read_all_models_in_zip(zf, "x", Model, Comp(), int_size=k, page_size=case["page"]))
                require(got == [Model.model_validate_json(Comp().decompress(p)) for p in order], "sequential model read differs")
        # truncated file: a block that is cut off is never returned
        if order and not case["model"]:
            raw = b"".join(len(p).to_bytes(k) + p for p in order)
            for u in list(addresses)[-2:]:
                a = addresses[u]
                if not expect[u]:
                    continue
                cut = io.BytesIO(raw[: a.offset + a.size - 1])
                try:
                    mb.MultiblockReader(cut, k).read_bytes(a)
                except mb.InvalidQuantumGraphFileError:
                    continue
                raise Violation("a truncated block was returned")


def gen(rng, tier):
    for k in (1, 2, 8):
        for sizes in ([], [0], [1], [0, 0], [5, 0, 3], [255], [256], [254, 1], [70000 if k > 2 else 300]):
            for tmp in (False, True):
                for model in (False, True):
                    yield dict(k=k, tmp=tmp, model=model, blocks=[[i + 1, [n, i]] for i, n in enumerate(sizes)], reads=list(range(len(sizes))), page=10)
    for _ in range(600 if tier == "quick" else 8000):
        n = rng.randint(0, 12)
        yield dict(k=rng.choice([1, 2, 4, 8]), tmp=rng.random() < 0.5, model=rng.random() < 0.4, page=rng.choice([1, 7, 5000]),
                   blocks=[[rng.choice([rng.randint(0, 6), rng.getrandbits(128)]), [rng.choice([0, 1, 2, rng.randint(0, 400)]), rng.randint(0, 99)]] for _ in range(n)],
                   reads=[rng.randint(0, 30) for _ in range(12)])


if __name__ == "__main__":
    main(gen, check, "P03")
