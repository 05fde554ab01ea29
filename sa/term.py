"""Normalised terms shared by every front end.

A term is a hashable tuple.  The constructors below put it in a normal form so
that two spellings of one meaning become one term: conjunctions are flattened
and ordered, linear arithmetic is collected, datatype equalities are split into
fields, lets and matches have already been substituted away by the lowering.
"""
from functools import lru_cache

TRUE, FALSE = ("bool", True), ("bool", False)
OWN = {}    # datatype key -> [(ctor, (fields...))]
TYPES = {}  # term -> type (name, args); best effort
# results of system calls that answer -1 or more
GEM1 = {"open", "close", "pread", "pwrite", "fcntl", "fsync", "fdatasync", "aio_write", "aio_read", "aio_return", "aio_suspend", "aio_fsync", "ftruncate"}
NNVARS = set()      # variables of unsigned type
NNFIELDS = {}       # field name -> every field of that name is unsigned


def nonneg(a, bound=()):
    if a[0] == "int":
        return a[1] >= 0
    if a[0] == "var":
        return a in NNVARS
    if a[0] == "dot":
        if a[1][0] == "compr" and a[1][1] == "fold" and a[2].isdigit() and a[1][3][1][0] == "tuple":
            return foldnonneg(a[1], int(a[2]))
        return NNFIELDS.get(a[2], False)
    if a[0] == "hv":
        return NNFIELDS.get(a[1], False)
    if a[0] == "compr" and a[1] == "fold":
        return foldnonneg(a, None)
    return a[0] == "card"


def foldnonneg(f, i):
    """a count that starts at zero or more and only grows"""
    init, body = f[3][1], f[4]
    acc = ("b", f[2], 1)
    if i is not None:
        if body[0] != "tuple" or i + 1 >= len(body) or init[0] != "tuple":
            return False
        init, body, acc = init[1 + i], body[1 + i], dot(acc, str(i))
    if not nonneg(init):
        return False

    def grows(t):
        if t[0] == "ite":
            return grows(t[2]) and grows(t[3])
        if t == acc or t[0] == "int" and t[1] >= 0:
            return True
        c, d = lin_parts(t)
        return c >= 0 and set(d) <= {acc} and d.get(acc) == 1
    return grows(body)




def key(t):
    return _key(t)


@lru_cache(maxsize=None)
def _key(t):
    return repr(t)


def srt(ts):
    return tuple(sorted(ts, key=key))


def num(n):
    return ("int", n)


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    if t[0] == "int":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: key(kv[0]))))


def add(a, b, k=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for t, v in d2.items():
        d[t] = d.get(t, 0) + k * v
    return mk_lin(c1 + k * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] == "int" and b[0] == "int":
        return num(a[1] * b[1])
    if b[0] == "int":
        a, b = b, a
    if a[0] == "int":
        c, d = lin_parts(b)
        return mk_lin(c * a[1], {t: v * a[1] for t, v in d.items()})
    fs = []
    for x in (a, b):
        fs += list(x[2:]) if x[:2] == ("app", "*") else [x]
    k = 1
    r = []
    for x in fs:
        if x[0] == "lin" and x[1] == 0 and len(x[2]) == 1:
            k *= x[2][0][1]
            r.append(x[2][0][0])
        else:
            r.append(x)
    t = ("app", "*") + srt(r)
    return t if k == 1 else mk_lin(0, {t: k})


def ge0(t):
    """t >= 0 over the integers"""
    c, d = lin_parts(t)
    if not d:
        return ("bool", c >= 0)
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        c = c // g
        d = {k: v // g for k, v in d.items()}
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1 and (k[0] == "card" or k[:2] == ("app", ".count")):
            return TRUE
    if len(d) == 1 and c in (0, -1):
        (k, v), = d.items()
        if k[:2] == ("app", ".count") and len(k) == 4:
            # a positive count is membership
            if (c, v) == (-1, 1):
                return mk_in(k[3], k[2])
            if (c, v) == (0, -1):
                return mk_not(mk_in(k[3], k[2]))
        if (c, v) in ((0, -1), (-1, 1)) and k[0] in ("compr", "dot") and nonneg(k):
            # a count is positive where it is not zero
            z = eq(k, num(0))
            return z if v == -1 else mk_not(z)
    for k, v in d.items():
        if k[0] == "ite":
            e = dict(d)
            del e[k]
            r = mk_lin(c, e)
            return mk_and(mk_or(mk_not(k[1]), ge0(add(r, k[2], v))), mk_or(k[1], ge0(add(r, k[3], v))))
    return ("ge0", mk_lin(c, d))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), num(1)))


def numeric(t):
    if t[0] in ("int", "lin", "card"):
        return True
    if t[0] == "app" and t[1] in ("*", "/", "%", "cast", "&", "|", "^", "<<", ">>", "count"):
        return True
    ty = TYPES.get(t)
    return ty is not None and isnum(ty)


NUMT = {"int", "nat", "uint64", "uint32", "uint16", "uint8", "byte", "u64", "u32", "u16", "u8", "usize", "i64",
        "i32", "isize", "int32", "int64", "size_t", "real"}


def isnum(ty):
    return ty is not None and ty[0] in NUMT


# ---------------------------------------------------------------- booleans
def isbool(t):
    if t[0] in ("bool", "and", "or", "not", "eq", "ge0", "in", "is", "all", "ex"):
        return True
    return TYPES.get(t, ("",))[0] == "bool"


def mk_and(*xs):
    out = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == "and":
            st += x[1:]
        else:
            out.add(x)
    for x in out:
        if mk_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out.pop()
    return ("and",) + srt(out)


def mk_or(*xs):
    out = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x[0] == "or":
            st += x[1:]
        else:
            out.add(x)
    for x in out:
        if mk_not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out.pop()
    return ("or",) + srt(out)


@lru_cache(maxsize=None)
def mk_not(x):
    h = x[0]
    if h == "bool":
        return ("bool", not x[1])
    if h == "not":
        return x[1]
    if h == "and":
        return mk_or(*[mk_not(y) for y in x[1:]])
    if h == "or":
        return mk_and(*[mk_not(y) for y in x[1:]])
    if h == "ge0":
        return ge0(sub(num(-1), x[1]))
    if h == "is":
        sib = OWN.get(x[3])
        if sib and len(sib) == 2:
            o = [c for c, _ in sib if c != x[2]]
            if len(o) == 1:
                return ("is", x[1], o[0], x[3])
    if h == "all":
        return ("ex", x[1], mk_not(x[2]))
    if h == "ex":
        return ("all", x[1], mk_not(x[2]))
    if h == "ite":
        return mk_and(mk_or(mk_not(x[1]), mk_not(x[2])), mk_or(x[1], mk_not(x[3])))
    return ("not", x)


def implies(a, b):
    return mk_or(mk_not(a), b)


def iff(a, b):
    if a == b:
        return TRUE
    return mk_and(mk_or(mk_not(a), b), mk_or(a, mk_not(b)))


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if isbool(a) and isbool(b):
        return mk_and(mk_or(mk_not(c), a), mk_or(c, b))
    if c[0] == "ge0":
        # the smaller or larger of two: ties do not matter
        m = "min" if c in (le(a, b), lt(a, b)) else "max" if c in (le(b, a), lt(b, a)) else None
        if m:
            if key(b) < key(a):
                a, b = b, a
            c = le(a, b)
            if m == "max":
                a, b = b, a
    z = c[1] if c[0] == "not" else c
    if z[0] == "eq" and num(0) in z[1:] and any(y[0] == "card" for y in z[1:]):
        # sizes are not negative: |x| == 0 is |x| <= 0
        y = [y for y in z[1:] if y[0] == "card"][0]
        y = ("ge0", mk_lin(0, {y: -1}))
        c = mk_not(y) if c[0] == "not" else y
    # canonical polarity
    n = mk_not(c)
    if key(n) < key(c):
        c, a, b = n, b, a
    if a[0] == "ctor" and b[0] == "ctor" and a[1] == b[1] and a[3] == b[3] and len(a[2]) > 0:
        return ("ctor", a[1], tuple((f, ite(c, x, y)) for (f, x), (_, y) in zip(a[2], b[2])), a[3])
    if a[0] == "mupd" and b[0] == "mupd" and a[1:3] == b[1:3]:
        return mupd(a[1], a[2], ite(c, a[3], b[3]))
    t = ("ite", c, a, b)
    if a in TYPES:
        TYPES.setdefault(t, TYPES[a])
    elif b in TYPES:
        TYPES.setdefault(t, TYPES[b])
    return t


def dtree(t, limit=6):
    """a case distinction in an order that does not depend on how it was written"""
    ats = []

    def pol(c):
        n = mk_not(c)
        return (n, False) if key(n) < key(c) else (c, True)

    def collect(x):
        if x[0] == "ite":
            collect(x[1])
            collect(x[2])
            collect(x[3])
        elif x[0] in ("and", "or") or x[0] == "not":
            for y in x[1:]:
                collect(y)
        elif isbool(x) and x not in (TRUE, FALSE):
            c = pol(x)[0]
            if c not in ats:
                ats.append(c)
    if t[0] not in ("ite", "and", "or"):
        return t
    collect(t)
    if not ats or len(ats) > limit:
        return t
    ats.sort(key=key)

    def ev(x, env):
        if x[0] == "ite":
            c = ev(x[1], env)
            return ev(x[2] if c == TRUE else x[3], env)
        if x[0] in ("and", "or"):
            stop = FALSE if x[0] == "and" else TRUE
            for y in x[1:]:
                if ev(y, env) == stop:
                    return stop
            return mk_not(stop)
        if x[0] == "not":
            return mk_not(ev(x[1], env))
        if isbool(x) and x not in (TRUE, FALSE):
            c, p = pol(x)
            return env[c] if p else mk_not(env[c])
        return x

    def build(i, env):
        if i == len(ats):
            return ev(t, env)
        env[ats[i]] = TRUE
        a = build(i + 1, env)
        env[ats[i]] = FALSE
        b = build(i + 1, env)
        return ite(ats[i], a, b)
    return build(0, {})


def appendcount(f):
    """the length of a sequence built by appending: how often something was appended"""
    if f[0] != "compr" or f[1] != "fold" or f[3][1] != ("seq",):
        return None
    acc = ("b", f[2], 1)

    def go(t):
        if t == acc:
            return t
        if t[0] == "ite":
            a, b = go(t[2]), go(t[3])
            return a and b and ite(t[1], a, b)
        if t[0] == "concat" and t[1] == acc and all(x[0] == "seq" for x in t[2:]):
            return add(acc, num(sum(len(x) - 1 for x in t[2:])))
        return None
    b = go(f[4])
    if b is None:
        return None
    t = ("compr", "fold", f[2], ("pair", num(0), f[3][2]), b)
    TYPES.setdefault(t, ("int", ()))
    return t


def minmax(which, a, b):
    return ite(le(a, b), a, b) if which == "min" else ite(le(a, b), b, a)


# ---------------------------------------------------------------- data
def ctor(name, fields, owner):
    return ("ctor", name, tuple(fields), owner)


def mk_is(x, c, owner):
    if x[0] == "ctor":
        return ("bool", x[1] == c)
    if x[0] == "ite":
        return mk_and(mk_or(mk_not(x[1]), mk_is(x[2], c, owner)), mk_or(x[1], mk_is(x[3], c, owner)))
    sib = OWN.get(owner)
    if sib and len(sib) == 1:
        return TRUE
    if x[0] == "recupd":
        return mk_is(x[1], c, owner)
    return ("is", x, c, owner)


def dot(x, f):
    if x[0] == "ctor":
        for n, v in x[2]:
            if n == f:
                return v
    if x[0] == "recupd":
        for n, v in x[2]:
            if n == f:
                return v
        return dot(x[1], f)
    if x[0] == "ite":
        return ite(x[1], dot(x[2], f), dot(x[3], f))
    if x[0] == "tuple" and f.isdigit() and int(f) < len(x) - 1:
        return x[1 + int(f)]
    return ("dot", x, f)


def recupd(x, ups):
    if x[0] == "ctor":
        d = dict(ups)
        return ("ctor", x[1], tuple((f, d.get(f, v)) for f, v in x[2]), x[3])
    if x[0] == "recupd":
        d = dict(x[2])
        d.update(dict(ups))
        return recupd(x[1], tuple(d.items()))
    ty = TYPES.get(x)
    if ty is not None:
        o = OWN.get(ty[0])
        if o and len(o) == 1:
            d = dict(ups)
            c, fs = o[0]
            return ("ctor", c, tuple((f, d[f] if f in d else dot(x, f)) for f in fs), ty[0])
    ups = tuple(sorted((f, v) for f, v in dict(ups).items() if v != dot(x, f)))
    if not ups:
        return x
    t = ("recupd", x, ups)
    if ty is not None:
        TYPES.setdefault(t, ty)
    return t


def eq(a, b):
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x == ("int", 0) and y[:2] == ("app", ".count") and len(y) == 4:
            return mk_not(mk_in(y[3], y[2]))
    if a[0] in ("int", "str", "bool") and b[0] == a[0]:
        return FALSE
    if isbool(a) and isbool(b) or a[0] == "bool" or b[0] == "bool":
        return iff(a, b)
    if a[0] == "ctor" and b[0] == "ctor":
        if a[1] != b[1]:
            return FALSE
        return mk_and(*[eq(x, y) for (_, x), (_, y) in zip(a[2], b[2])])
    if a[0] == "tuple" and b[0] == "tuple" and len(a) == len(b):
        return mk_and(*[eq(x, y) for x, y in zip(a[1:], b[1:])])
    for x, y in ((a, b), (b, a)):
        if x[0] == "ite":
            return mk_and(mk_or(mk_not(x[1]), eq(x[2], y)), mk_or(x[1], eq(x[3], y)))
    for x, y in ((a, b), (b, a)):
        if x[0] == "ctor":
            return mk_and(mk_is(y, x[1], x[3]), *[eq(dot(y, f), v) for f, v in x[2]])
    if numeric(a) or numeric(b):
        t = sub(a, b)
        if t[0] == "int":
            return ("bool", t[1] == 0)
        c, d = lin_parts(t)
        from math import gcd
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if c % g:
            return FALSE
        first = sorted(d, key=key)[0]
        s = 1 if d[first] > 0 else -1
        d = {k: s * v // g for k, v in d.items()}
        c = s * c // g
        if len(d) == 1:
            (k, v), = d.items()
            return ("eq",) + srt([k, num(-c)]) if v == 1 else ("eq", mk_lin(c, d), num(0))
        if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
            return ("eq",) + srt(d.keys())
        # put the positive part on the left
        return ("eq",) + srt([mk_lin(max(c, 0), {k: v for k, v in d.items() if v > 0}),
                              mk_lin(max(-c, 0), {k: -v for k, v in d.items() if v < 0})])
    if a[0] == "concat" and b[0] == "concat":
        x, y = list(a[1:]), list(b[1:])
        while x and y and x[0] == y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] == y[-1]:
            x.pop()
            y.pop()
        if len(x) < len(a) - 1:
            return eq(concat(*x), concat(*y))
    if a[0] == "seq" and b[0] == "seq":
        if len(a) != len(b):
            return FALSE
        return mk_and(*[eq(x, y) for x, y in zip(a[1:], b[1:])])
    return ("eq",) + srt([a, b])


# ---------------------------------------------------------------- collections
def concat(*xs):
    out = []
    for x in xs:
        if x[0] == "concat":
            out += x[1:]
        elif x == ("seq",):
            continue
        elif x[0] == "seq" and out and out[-1][0] == "seq":
            out[-1] = out[-1] + x[1:]
        else:
            out.append(x)
    if not out:
        return ("seq",)
    if len(out) == 1:
        return out[0]
    return ("concat",) + tuple(out)


def card(x):
    if x[0] == "seq":
        return num(len(x) - 1)
    if x[0] == "concat":
        r = num(0)
        for y in x[1:]:
            r = add(r, card(y))
        return r
    if x[0] == "slice" and x[3] is not None:
        return sub(x[3], x[2])
    if x[0] == "set" and len(x) <= 2:
        return num(len(x) - 1)
    if x[0] == "map" and len(x) == 1:
        return num(0)
    if x[0] == "seqnew":
        return x[1]
    if x[0] == "mupd" and TYPES.get(x, ("",))[0] in ("seq", "Seq", "Vec"):
        return card(x[1])
    if x[0] == "ite":
        return ite(x[1], card(x[2]), card(x[3]))
    return ("card", x)


def slice_(x, lo, hi):
    lo = lo or num(0)
    hi = hi if hi is not None else card(x)
    if lo == num(0) and hi == card(x):
        return x
    if x[0] == "slice":
        # s[a..b][lo..hi] == s[a+lo .. a+hi]
        return slice_(x[1], add(x[2], lo), add(x[2], hi))
    t = ("slice", x, lo, hi)
    if x in TYPES:
        TYPES.setdefault(t, TYPES[x])
    return t


def unset(m, k):
    """the map, but for what it holds at one key"""
    if m[0] == "mupd" and m[2] == k:
        return unset(m[1], k)
    if m[0] == "ite":
        a, b = unset(m[2], k), unset(m[3], k)
        if a == b:
            return a
    return m


def mupd(m, k, v):
    m = unset(m, k)
    if v[0] == "concat" and sum(1 for x in v[1:] if x[0] == "ite") == 1:
        i = [j for j in range(1, len(v)) if v[j][0] == "ite"][0]
        v = ite(v[i][1], concat(*v[1:i], v[i][2], *v[i + 1:]), concat(*v[1:i], v[i][3], *v[i + 1:]))
    if m == ("map",):
        t = mk_map([(k, v)])
    else:
        t = ("mupd", m, k, v)
    if m in TYPES:
        TYPES.setdefault(t, TYPES[m])
    return t


def idx(m, k):
    if m[0] == "mupd":
        return ite(eq(k, m[2]), m[3], idx(m[1], k))
    if m[0] == "mrem":
        return idx(m[1], k)
    if m[0] == "seq" and k[0] == "int" and 0 <= k[1] < len(m) - 1:
        return m[1 + k[1]]
    if m[0] == "map":
        for kk, v in m[1:]:
            if kk == k:
                return v
    if m[0] == "compr" and m[1] == "map":
        return subst(m[4], {("b", m[2], 0): k})
    if m[0] == "seqnew":
        return subst(m[3], {("b", m[2], 0): k})
    if m[0] == "slice":
        return idx(m[1], add(m[2], k))
    if m[0] == "ite":
        return ite(m[1], idx(m[2], k), idx(m[3], k))
    if m[0] == "union" and len(m) == 3 and TYPES.get(m, ("",))[0] in ("map", "imap", "Map"):
        return ite(mk_in(k, m[2]), idx(m[2], k), idx(m[1], k))
    if mapapp(m):
        if m[1] != ".union_prefer_right":
            return idx(m[2], k)
        return ite(mk_in(k, m[3]), idx(m[3], k), idx(m[2], k))
    t = ("idx", m, k)
    ty = TYPES.get(m)
    if ty and len(ty) > 1 and ty[1]:
        TYPES.setdefault(t, ty[1][-1])
    return t


def mk_in(x, s):
    h = s[0]
    if h in ("set", "seq"):
        return mk_or(*[eq(x, y) for y in s[1:]])
    if h == "map":
        return mk_or(*[eq(x, k) for k, _ in s[1:]])
    if h == "mupd":
        return mk_or(eq(x, s[2]), mk_in(x, s[1]))
    if h == "mrem":
        return mk_and(mk_not(eq(x, s[2])), mk_in(x, s[1]))
    if h == "dom":
        return mk_in(x, s[1])
    if h in ("union", "concat"):
        return mk_or(*[mk_in(x, y) for y in s[1:]])
    if h == "inter":
        return mk_and(*[mk_in(x, y) for y in s[1:]])
    if h == "diff":
        return mk_and(mk_in(x, s[1]), mk_not(mk_in(x, s[2])))
    if h == "compr" and s[1] in ("map", "set") and s[4] == ("b", s[2], 0) or h == "compr" and s[1] == "map":
        return subst(s[3], {("b", s[2], 0): x})
    if h == "ite":
        return mk_and(mk_or(mk_not(s[1]), mk_in(x, s[2])), mk_or(s[1], mk_in(x, s[3])))
    if h == "app" and len(s) == 4:
        if s[1] == ".union_prefer_right":
            return mk_or(mk_in(x, s[2]), mk_in(x, s[3]))
        if s[1] == ".restrict":
            return mk_and(mk_in(x, s[2]), mk_in(x, s[3]))
        if s[1] == ".remove_keys":
            return mk_and(mk_in(x, s[2]), mk_not(mk_in(x, s[3])))
    return ("in", x, s)


MAPAPPS = {".union_prefer_right", ".restrict", ".remove_keys"}


def mapapp(t):
    return t[0] == "app" and len(t) == 4 and t[1] in MAPAPPS


def dom(m):
    if m[0] == "map":
        return ("set",) + srt({k for k, _ in m[1:]})
    return ("dom", m)


def mk_set(xs):
    return ("set",) + srt(set(xs))


def mk_map(prs):
    d = {}
    for k, v in prs:
        d[k] = v
    return ("map",) + tuple(sorted(d.items(), key=lambda kv: key(kv[0])))


def union(*xs):
    out = []
    for x in xs:
        if x[0] == "union":
            out += x[1:]
        elif x in (("set",), ("map",)):
            continue
        else:
            out.append(x)
    if not out:
        return xs[0] if xs else ("set",)
    u = []
    lit = set()
    for x in out:
        if x[0] == "set":
            lit |= set(x[1:])
        elif x not in u:
            u.append(x)
    if lit:
        u.append(("set",) + srt(lit))
    if len(u) == 1:
        return u[0]
    return ("union",) + srt(u)


# ---------------------------------------------------------------- binders
def height(t):
    return _height(t)


@lru_cache(maxsize=None)
def _height(t):
    h = 0
    if isinstance(t, tuple):
        if t and t[0] in ("all", "ex", "lam", "compr", "seqnew", "choose", "lamx"):
            hh = t[2] if t[0] in ("compr", "seqnew") else t[1][0] if t[0] in ("all", "ex") else t[1]
            if isinstance(hh, int):
                h = hh + 1
        for x in t:
            if isinstance(x, tuple):
                h = max(h, _height(x))
    return h


def msplus(*xs):
    """sum of multisets, in one flat order"""
    out, lit, st = [], [], list(xs)
    while st:
        x = st.pop()
        if x[:2] == ("app", "ms+"):
            st.extend(x[2:])
        elif x[:2] == ("app", "msetlit"):
            lit.extend(x[2:])
        else:
            out.append(x)
    if lit or not out:
        out.append(("app", "msetlit") + srt(lit))
    return out[0] if len(out) == 1 else ("app", "ms+") + srt(out)


def subst(t, m):
    if not m:
        return t
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if not isinstance(x, tuple) or not x:
            return x
        r = memo.get(x)
        if r is None and x[0] in ("ctor", "recupd") and len(x) >= 3 and isinstance(x[2], tuple):
            fs = tuple((f, go(v)) for f, v in x[2])
            n = (x[0], x[1], fs) + x[3:] if x[0] == "ctor" else ("recupd", go(x[1]), fs)
            r = memo[x] = rebuild(n, x)
        if r is None:
            r = rebuild(tuple(go(y) if isinstance(y, tuple) else y for y in x), x)
            memo[x] = r
        return r
    return go(t)


def rebuild(n, old):
    """re-normalise a node whose children changed"""
    if n == old:
        return n
    h = n[0]
    if not isinstance(h, str):
        return n
    r = _rebuild(n, h)
    if old in TYPES and r not in TYPES:
        TYPES[r] = TYPES[old]
    return r


def _rebuild(n, h):
    if h == "and":
        return mk_and(*n[1:])
    if h == "or":
        return mk_or(*n[1:])
    if h == "not":
        return mk_not(n[1])
    if h == "eq":
        return eq(n[1], n[2])
    if h == "ge0":
        return ge0(n[1])
    if h == "lin":
        r = num(n[1])
        for t, v in n[2]:
            r = add(r, t, v)
        return r
    if h == "app" and n[1] == "ms+":
        return msplus(*n[2:])
    if h == "app" and n[1] == "msetlit":
        return ("app", "msetlit") + srt(n[2:])
    if h == "app" and n[1] == "*":
        r = n[2]
        for x in n[3:]:
            r = mul(r, x)
        return r
    if h == "ite":
        return ite(n[1], n[2], n[3])
    if h == "dot":
        return dot(n[1], n[2])
    if h == "is":
        return mk_is(n[1], n[2], n[3])
    if h == "recupd":
        return recupd(n[1], n[2])
    if h == "in":
        return mk_in(n[1], n[2])
    if h == "idx":
        return idx(n[1], n[2])
    if h == "mupd":
        return mupd(n[1], n[2], n[3])
    if h == "slice":
        return slice_(n[1], n[2], n[3])
    if h == "card":
        return card(n[1])
    if h == "concat":
        return concat(*n[1:])
    if h == "union":
        return union(*n[1:])
    if h == "set":
        return mk_set(n[1:])
    if h == "map":
        return mk_map(n[1:])
    return n


_uid = [0]


def fresh(prefix="bv"):
    _uid[0] += 1
    return ("bv", _uid[0])


def bind(kind, bvs, parts):
    """close `parts` over bvs; returns (height, parts')"""
    h = max([height(p) for p in parts if p is not None] + [0])
    m = {}
    for i, b in enumerate(bvs):
        m[b] = ("b", h, i)
    return h, [subst(p, m) if p is not None else None for p in parts]


def free_bvs(t, bvs):
    s = set(bvs)

    def go(x):
        if x in s:
            return True
        return isinstance(x, tuple) and any(go(y) for y in x if isinstance(y, tuple))
    return go(t)


def quant(kind, bvs, body):
    """kind 'all' or 'ex'; splits over the compatible connective"""
    if body in (TRUE, FALSE):
        return body
    if kind == "all" and body[0] == "and":
        return mk_and(*[quant(kind, bvs, x) for x in body[1:]])
    if kind == "ex" and body[0] == "or":
        return mk_or(*[quant(kind, bvs, x) for x in body[1:]])
    used = [b for b in bvs if free_bvs(body, [b])]
    if not used:
        return body
    # one-point rule
    if kind == "ex":
        cj = body[1:] if body[0] == "and" else (body,)
        for x in cj:
            if x[0] == "eq":
                for a, b in ((x[1], x[2]), (x[2], x[1])):
                    if a in used and not free_bvs(b, [a]):
                        rest = subst(mk_and(*[y for y in cj if y is not x]), {a: b})
                        return quant(kind, [v for v in used if v != a], rest)
    if kind == "all":
        dj = body[1:] if body[0] == "or" else (body,)
        for x in dj:
            if x[0] == "not" and x[1][0] == "eq":
                for a, b in ((x[1][1], x[1][2]), (x[1][2], x[1][1])):
                    if a in used and not free_bvs(b, [a]):
                        rest = subst(mk_or(*[y for y in dj if y is not x]), {a: b})
                        return quant(kind, [v for v in used if v != a], rest)
    # scope narrowing
    if kind == "all" and body[0] == "or" or kind == "ex" and body[0] == "and":
        out = [x for x in body[1:] if not free_bvs(x, used)]
        if out:
            inn = [x for x in body[1:] if free_bvs(x, used)]
            mk = mk_or if kind == "all" else mk_and
            return mk(*(out + [quant(kind, used, mk(*inn))]))
    h, (b,) = bind(kind, used, [body])
    return (kind, (h, len(used)), b)


def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if t in acc or not isinstance(t, tuple):
        return acc
    if t and isinstance(t[0], str):
        acc.add(t)
    if t and t[0] in ("ctor", "recupd") and len(t) >= 3 and isinstance(t[2], tuple):
        for _, v in t[2]:
            subterms(v, acc)
        if isinstance(t[1], tuple):
            subterms(t[1], acc)
        return acc
    for x in t:
        if isinstance(x, tuple):
            subterms(x, acc)
    return acc


def show(t, d=0):
    """readable rendering"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    h = t[0]
    if not isinstance(h, str):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if h == "var":
        return t[1]
    if h == "b":
        return "b%d_%d" % (t[1], t[2])
    if h in ("int", "bool", "str"):
        return str(t[1])
    if h == "dot":
        return show(t[1]) + "." + t[2]
    if h == "is":
        return "%s.%s?" % (show(t[1]), t[2])
    if h == "eq":
        return "%s == %s" % (show(t[1]), show(t[2]))
    if h == "not":
        return "!(%s)" % show(t[1])
    if h in ("and", "or"):
        return "(" + (" && " if h == "and" else " || ").join(show(x) for x in t[1:]) + ")"
    if h == "ge0":
        return "0 <= %s" % show(t[1])
    if h == "lin":
        return "(" + " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, show(x)) for x, v in t[2]] +
                                ([str(t[1])] if t[1] else [])) + ")"
    if h == "in":
        return "%s in %s" % (show(t[1]), show(t[2]))
    if h == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if h == "mupd":
        return "%s[%s := %s]" % tuple(show(x) for x in t[1:4])
    if h == "card":
        return "|%s|" % show(t[1])
    if h == "slice":
        return "%s[%s..%s]" % tuple(show(x) for x in t[1:4])
    if h == "ite":
        return "(if %s then %s else %s)" % tuple(show(x) for x in t[1:4])
    if h == "ctor":
        return "%s(%s)" % (t[1], ", ".join("%s=%s" % (f, show(v)) for f, v in t[2]))
    if h in ("all", "ex"):
        return "(%s%s. %s)" % ("forall" if h == "all" else "exists", "".join(" b%d_%d" % (t[1][0], i) for i in range(t[1][1])), show(t[2]))
    if h == "app":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if h == "recupd":
        return "%s.(%s)" % (show(t[1]), ", ".join("%s := %s" % (f, show(v)) for f, v in t[2]))
    return "%s(%s)" % (h, ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
