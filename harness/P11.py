"""P11: TaskMetadata against a reference model (nested dict), any history of operations, and JSON round trips."""
import math
from hlib import *
from lsst.pipe.base import TaskMetadata

try:
    import numpy as np
except ImportError:
    np = None

VALS = [1, 0, -5, 10 ** 20, 1.5, 3.0, float("nan"), float("inf"), True, False, "", "1.5", "nan", "x", [], [1], [1, 2], [1.5, float("nan")], [True], ["1", "2"], ["a"], [2.0],
        {}, {"k": 1}, {"k": {"l": [1, 2]}}, {"k.l": 4}]
BAD = [None, [1, "a"], [1, 2.0], [[1]], [None], {"k": None}, {"a": 1, "b": [1, "x"]}]
PRIM = (bool, int, float, str)


def conv(v):
    """Expected slot value: ('s', v) | ('a', [..]) | ('m', {...}); ValueError if unacceptable."""
    if type(v) in PRIM:
        return ("s", v)
    if isinstance(v, dict):
        m = {}
        for k, x in v.items():
            mset(m, k, x)
        return ("m", m)
    if isinstance(v, (list, tuple)):
        v = list(v)
        if any(type(x) is not type(v[0]) for x in v):
            raise ValueError
        if v and type(v[0]) not in PRIM:
            raise ValueError
        return ("a", v)
    raise ValueError


def mset(m, key, v):
    h, _, t = key.partition(".")
    if "." not in key:
        m[h] = conv(v)
        return
    child = m[h][1] if h in m and m[h][0] == "m" else {}
    mset(child, t, v)
    m[h] = ("m", child)


def madd(m, key, v):
    h, _, t = key.partition(".")
    if "." in key:
        if h not in m or m[h][0] != "m":
            raise KeyError
        return madd(m[h][1], t, v)
    s, v = conv(v)
    if s == "m":
        raise ValueError
    v = [v] if s == "s" else v
    if h in m and m[h][0] == "m":
        raise ValueError
    cur = [] if h not in m else m[h][1] if m[h][0] == "a" else [m[h][1]]
    if cur and v and type(cur[0]) is not type(v[0]):
        raise ValueError
    m[h] = ("a", cur + v)


def mfind(m, key):
    h, _, t = key.partition(".")
    if "." not in key:
        if h not in m:
            raise KeyError
        return m, h
    if h not in m or m[h][0] != "m":
        raise KeyError
    return mfind(m[h][1], t)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def todict(m):
    return {k: todict(v) if s == "m" else v for k, (s, v) in m.items()}


def names(m):
    r = set()
    for k, (s, v) in m.items():
        r.add(k)
        if s == "m":
            r |= {f"{k}.{x}" for x in names(v)}
    return r


def params(m, top):
    r = set()
    for k, (s, v) in m.items():
        if s == "m":
            if not top:
                r |= {f"{k}.{x}" for x in params(v, top)}
        else:
            r.add(k)
    return r


def flat(m):
    """Every key/value in slot terms."""
    return {k: (s, flat(v) if s == "m" else v) for k, (s, v) in m.items()}


def observe(md):
    out = {}
    for k, v in md.scalars.items():
        require(k not in out, f"key {k} in two slots")
        out[k] = ("s", v)
    for k, v in md.arrays.items():
        require(k not in out, f"key {k} in two slots")
        out[k] = ("a", v)
    for k, v in md.metadata.items():
        require(k not in out, f"key {k} in two slots")
        out[k] = ("m", observe(v))
    return out


def eqslots(a, b):
    return set(a) == set(b) and all(a[k][0] == b[k][0] and (eqslots(a[k][1], b[k][1]) if a[k][0] == "m" else same(a[k][1], b[k][1])) for k in a)


def attempt(f):
    try:
        return ("ok", f())
    except (KeyError, ValueError) as e:
        return (type(e).__name__, None)


def check(case):
    md, m = TaskMetadata(), {}
    import copy
    for op in case["ops"]:
        before = copy.deepcopy(m)
        if op[0] in ("set", "add", "set_dict"):
            v = op[2]
            if v == "__nan__":
                v = float("nan")
            elif v == "__npint__":
                v = np.int64(7) if np else 7
            elif v == "__npfloat__":
                v = np.float32(0.5) if np else 0.5
            elif v == "__nparr__":
                v = [np.int64(1), np.int64(2), np.int64(3)] if np else [1, 2, 3]
            elif v == "__npfarr__":
                v = [np.float64(1.0), np.float64(2.5)] if np else [1.0, 2.5]
            elif v == "__md__":
                v = TaskMetadata.from_dict({"q": 1, "r.s": ["z"]})
            mv = {"__npint__": 7, "__npfloat__": 0.5, "__nparr__": [1, 2, 3], "__npfarr__": [1.0, 2.5], "__md__": {"q": 1, "r.s": ["z"]}}.get(op[2], v) if isinstance(op[2], str) else v
            exp = attempt(lambda: (madd if op[0] == "add" else mset)(m, op[1], copy.deepcopy(mv)))
            got = attempt(lambda: md.add(op[1], v) if op[0] == "add" else md.set_dict(op[1], v) if op[0] == "set_dict" else md.__setitem__(op[1], v))
            require(exp[0] == got[0], f"{op}: {got[0]}, expected {exp[0]}")
            if exp[0] != "ok":
                m = before
        elif op[0] == "del":
            def d():
                o, k = mfind(m, op[1])
                del o[k]
            exp = attempt(d)
            got = attempt(lambda: md.__delitem__(op[1]))
            require(exp[0] == got[0], f"{op}: {got[0]}, expected {exp[0]}")
        elif op[0] == "get":
            def g():
                o, k = mfind(m, op[1])
                s, v = o[k]
                if s == "a":
                    if not v:
                        raise KeyError
                    return v[-1]
                return v if s == "s" else todict(v)
            exp = attempt(g)
            got = attempt(lambda: md[op[1]])
            val = got[1].to_dict() if isinstance(got[1], TaskMetadata) else got[1]
            require(exp[0] == got[0] and same(exp[1], val), f"{op}: {got}, expected {exp}")
            dflt = object()
            g2 = md.get(op[1], dflt)
            require((g2 is dflt) == (exp[0] != "ok"), "get() default")
            require(attempt(lambda: md.getScalar(op[1]))[0] == exp[0], "getScalar")
        elif op[0] == "arr":
            def g():
                o, k = mfind(m, op[1])
                s, v = o[k]
                return v if s == "a" else [v] if s == "s" else [todict(v)]
            exp = attempt(g)
            got = attempt(lambda: md.getArray(op[1]))
            val = [x.to_dict() if isinstance(x, TaskMetadata) else x for x in got[1]] if got[1] is not None else None
            require(exp[0] == got[0] and same(exp[1], val), f"{op}: {got}, expected {exp}")
        require(eqslots(observe(md), m), f"after {op}: content {observe(md)}, expected {m}")
        require(len(md) == len(m) and set(md.keys()) == set(m) and set(md) == set(m) and len(md.keys()) == len(m), "len/keys")
        for k in case["probe"]:
            require((k in md) == (attempt(lambda: mfind(m, k))[0] == "ok"), f"membership of {k}")
    if not any("." in k or k == "" for k in walk(m)):
        require(md.names() == names(m), f"names {md.names()} vs {names(m)}")
        for top in (False, True):
            require(md.paramNames(topLevelOnly=top) == params(m, top), "paramNames")
    require(same(md.to_dict(), todict(m)), "to_dict")
    back = TaskMetadata.model_validate_json(md.model_dump_json())
    require(eqslots(observe(back), m), f"JSON round trip: {observe(back)} vs {m}")
    back = TaskMetadata.model_validate(md.model_dump())
    require(eqslots(observe(back), m), f"dict round trip: {observe(back)} vs {m}")
    back = TaskMetadata.from_dict(md.to_dict())
    require(eqslots(observe(back), m), "from_dict(to_dict)")
    if not any("." in k for k in walk(m)):
        fm = TaskMetadata.from_metadata(md)
        exp = {}
        for k in sorted(params(m, False)):
            o, kk = mfind(m, k)
            s, v = o[kk]
            mset(exp, k, v[0] if s == "a" and len(v) == 1 else v)
        require(eqslots(observe(fm), exp), "from_metadata copies every parameter")
    for k in case["probe"]:
        try:
            o, kk = mfind(m, k)
        except KeyError:
            require(md.get_dict(k) == {}, "get_dict of a missing key is empty")
        else:
            if o[kk][0] == "m":
                require(same(md.get_dict(k), todict(o[kk][1])), "get_dict")


def walk(m):
    for k, (s, v) in m.items():
        yield k
        if s == "m":
            yield from walk(v)


def gen(rng, tier):
    keys = ["a", "b", "a.b", "a.c", "a.b.c", "b.a", "b.b.b"]
    for v in VALS + BAD:
        for k in ("a", "a.b"):
            yield dict(ops=[["set", k, v], ["get", k], ["arr", k]], probe=keys)
            yield dict(ops=[["add", k, v], ["add", k, v], ["get", k], ["arr", k]], probe=keys)
            for w in VALS + BAD:
                yield dict(ops=[["set", k, v], ["add", k, w], ["arr", k], ["set", "a.b.c", w], ["del", k]], probe=keys)
                yield dict(ops=[["set", k, v], ["set", k, w], ["get", k], ["arr", "a"]], probe=keys)
    sp = ["__npint__", "__npfloat__", "__nparr__", "__npfarr__", "__md__"]
    for _ in range(3000 if tier == "quick" else 60000):
        ops = []
        for _ in range(rng.randint(1, 12)):
            k = rng.choice(keys)
            r = rng.random()
            v = rng.choice(VALS) if rng.random() < 0.8 else rng.choice(BAD + sp)
            if r < 0.4:
                ops.append(["set", k, v])
            elif r < 0.65:
                ops.append(["add", k, v])
            elif r < 0.75:
                ops.append(["del", k])
            elif r < 0.85:
                ops.append(["get", k])
            elif r < 0.95:
                ops.append(["arr", k])
            else:
                ops.append(["set_dict", k, {"x": rng.choice([1, "s", [1, 2]])}])
        yield dict(ops=ops, probe=keys)


if __name__ == "__main__":
    main(gen, check, "P11")
