"""Claims about the language.  ok_*: true on every input (the prover must accept); bad_*: false on some input (it must not).

Parameters: x, y elements; s, t sets; d, e dicts; l, m lists; i, j ints; b, c bools.
"""


def ok_set_ops(s, t, x):
    assert (x in s | t) == (x in s or x in t)
    assert (x in s & t) == (x in s and x in t)
    assert (x in s - t) == (x in s and x not in t)
    assert (x in s ^ t) == ((x in s) != (x in t))


def bad_set_difference(s, t, x):
    assert (x in s - t) == (x in s)


def ok_set_mutation(s, x, y):
    had = y in s
    s.add(x)
    assert x in s
    assert (y in s) == (had or x == y)
    s.discard(y)
    assert y not in s


def bad_set_alias(s, x):
    t = s
    had = x in s
    t.add(x)
    assert (x in s) == had


def ok_set_copy(s, x):
    t = set(s)
    had = x in s
    t.add(x)
    assert (x in s) == had


def ok_set_update(s, t, x):
    old = x in s
    s.update(t)
    assert (x in s) == (old or x in t)
    s.difference_update(t)
    assert (x in s) == (old and x not in t)


def ok_remove(s, x):
    try:
        s.remove(x)
        ok = True
    except KeyError:
        ok = False
    assert x not in s
    return ok


def bad_remove(s, x):
    try:
        s.remove(x)
        ok = True
    except KeyError:
        ok = False
    assert ok


def ok_subset(s, t, x):
    if s <= t:
        assert x not in s or x in t
    if s.isdisjoint(t):
        assert not (x in s and x in t)
    if not s:
        assert x not in s


def bad_subset(s, t, x):
    if s <= t:
        assert x not in t or x in s


def ok_dict(d, x, y):
    old = d.get(y)
    d[x] = y
    assert d[x] == y and x in d
    if x != y:
        assert d.get(y) == old


def bad_dict(d, x, y):
    old = d.get(y)
    d[x] = y
    assert d.get(y) == old


def ok_dict_pop(d, x, y):
    had = y in d
    r = d.pop(x, None)
    assert x not in d
    assert (y in d) == (had and x != y)


def bad_dict_missing(d, x):
    try:
        d[x]
        hit = True
    except KeyError:
        hit = False
    assert hit


def ok_dict_missing(d, x):
    try:
        d[x]
        hit = True
    except KeyError:
        hit = False
    assert hit == (x in d)


def ok_setdefault(d, x, y):
    had = x in d
    old = d.get(x)
    v = d.setdefault(x, y)
    assert v == (old if had else y)
    assert d[x] == v


def ok_dict_update(d, e, x):
    a, b = x in d, x in e
    v = e[x] if b else d.get(x)
    d.update(e)
    assert (x in d) == (a or b)
    assert d.get(x) == v


def bad_dict_update(d, e, x):
    v = d.get(x)
    d.update(e)
    assert d.get(x) == v


def ok_loop_filter(s, t, x):
    r = set()
    for k in s:
        if k not in t:
            r.add(k)
    assert (x in r) == (x in s and x not in t)


def bad_loop_filter(s, t, x):
    r = set()
    for k in s:
        if k not in t:
            r.add(k)
    assert (x in r) == (x in s)


def ok_comprehension(s, d, x):
    r = {k for k in s if k in d}
    m = {k: d[k] for k in r}
    assert (x in m) == (x in s and x in d)
    if x in m:
        assert m[x] == d[x]


def ok_loop_break(s, t):
    found = False
    for k in s:
        if k in t:
            found = True
            break
    assert found == any(k in t for k in s)


def bad_loop_break(s, t):
    found = False
    for k in s:
        if k in t:
            found = True
            break
    assert found == all(k in t for k in s)


def ok_any_all(s, t, x):
    if all(k in t for k in s):
        assert x not in s or x in t
    if x in s and x in t:
        assert any(k in t for k in s)


def ok_list(l, x):
    n = len(l)
    l.append(x)
    assert len(l) == n + 1 and l[-1] == x and l[n] == x


def bad_list(l, x):
    l.append(x)
    assert l[0] == x


def ok_list_loop(l, s, x):
    r = []
    for k in l:
        if k in s:
            r.append(k)
    assert len(r) <= len(l)
    assert (x in r) == (x in l and x in s)


def ok_list_concat(l, m, x):
    r = l + m
    assert len(r) == len(l) + len(m)
    assert (x in r) == (x in l or x in m)


def ok_counter(l, s):
    n = 0
    for k in l:
        if k in s:
            n += 1
    assert 0 <= n and n <= len(l)


def bad_counter(l, s):
    n = 0
    for k in l:
        if k in s:
            n += 1
    assert n < len(l)


def ok_arith(i, j):
    if j > 0:
        q, r = i // j, i % j
        assert 0 <= r and r < j
        assert q * j + r == i


def bad_arith(i, j):
    if j != 0:
        assert 0 <= i % j


def ok_chain(i, j):
    if 0 <= i < j <= 10:
        assert i < 10


def bad_chain(i, j):
    if 0 <= i <= j <= 10:
        assert i < 10


def ok_minmax(i, j):
    assert min(i, j) <= max(i, j) and min(i, j) + max(i, j) == i + j
    assert abs(i) >= 0


def ok_short_circuit(d, x):
    assert x not in d or d[x] == d.get(x)
    v = d[x] if x in d else None
    assert v == d.get(x)


def ok_or_default(i):
    v = i or 7
    assert v != 0


def bad_or_default(i):
    v = i or 7
    assert v == i


def ok_finally(d, x, s):
    r = 0
    try:
        try:
            d[x]
        finally:
            r = 1
    except KeyError:
        assert x not in d
    assert r == 1


def ok_else(d, x):
    r = 0
    try:
        d[x]
    except KeyError:
        r = 1
    else:
        r = 2
    assert (r == 2) == (x in d)


def bad_finally_return(d, x):
    def f():
        try:
            return d[x]
        finally:
            d.pop(x, None)
    y = x in d
    try:
        f()
    except KeyError:
        pass
    assert (x in d) == y


def ok_none(x, y):
    v = None
    if x == y:
        v = x
    assert (v is None) == (x != y)


def ok_tuple(x, y, s):
    a, (b, c) = x, (y, x)
    assert a == x and b == y and c == x
    s = {(x, y)}
    assert (x, y) in s
    assert ((y, x) in s) == (x == y)


def bad_tuple(x, y):
    s = {(x, y)}
    assert (y, x) in s


def ok_items(d, s, x):
    r = {}
    for k, v in d.items():
        if k in s:
            r[k] = v
    assert (x in r) == (x in d and x in s)
    if x in r:
        assert r[x] == d[x]


def bad_items(d, s, x):
    r = {}
    for k, v in d.items():
        if v in s:
            r[k] = v
    assert (x in r) == (x in d and x in s)


def ok_delete_during_copy(d, s, x):
    old = x in d
    for k in list(d):
        if k in s:
            del d[k]
    assert (x in d) == (old and x not in s)


def ok_match(i):
    match i:
        case 0:
            r = "zero"
        case 1 | 2:
            r = "few"
        case _:
            r = "many"
    assert (r == "few") == (i == 1 or i == 2)


def bad_match(i):
    match i:
        case 0:
            r = "zero"
        case _:
            r = "many"
    assert r == "many"


def ok_closure(s, x):
    def has(k):
        return k in s
    s.add(x)
    assert has(x)


def ok_enumerate(l):
    for n, k in enumerate(l):
        assert l[n] == k


def bad_enumerate(l):
    for n, k in enumerate(l):
        assert l[0] == k


def ok_return_in_loop(s, t):
    def first():
        for k in s:
            if k in t:
                return k
        return None
    r = first()
    if r is not None:
        assert r in s and r in t
    else:
        assert s.isdisjoint(t)


def bad_return_in_loop(s, t):
    def first():
        for k in s:
            if k in t:
                return k
        return None
    assert first() is None


def ok_unpack_star(x, y, s):
    r = {x, *s}
    assert x in r
    assert (y in r) == (y == x or y in s)


def ok_shadow(l):
    k = None
    for k in l:
        pass
    assert (k is None) == (len(l) == 0)


def bad_unbound(l):
    try:
        for k in l:
            pass
        v = k
        ok = True
    except UnboundLocalError:
        ok = False
    assert ok
