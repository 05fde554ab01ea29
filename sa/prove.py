"""Path-sensitive must-fact analysis over normalised predicates.

`entails(facts, goal)` walks the finitely many syntactic alternatives (branches)
of the facts; on each branch it keeps a value-numbering of all terms (congruence
closed), constructor tags and linear bounds, and asks whether the required fact
is present on that branch.  A branch on which it is not is returned as a witness.
Nothing is executed and no external solver is used; an exhausted budget is
reported as "not established".
"""
from fractions import Fraction
from . import term as T
from .term import TRUE, FALSE, mk_and, mk_or, mk_not

MAXINST = 4000


class Budget(Exception):
    pass


class Contra(Exception):
    pass


class State:
    def __init__(self, other=None):
        if other is None:
            self.par = {}
            self.lits = set()      # atomic literals
            self.ors = set()
            self.alls = set()
            self.seen = set()
            self.done_inst = set()
            self.done_unf = set()
            self.diseq = set()
            self.skol = {}
            self.todo = []
            self.cache = None
        else:
            self.par = dict(other.par)
            self.lits = set(other.lits)
            self.ors = set(other.ors)
            self.alls = set(other.alls)
            self.seen = set(other.seen)
            self.done_inst = set(other.done_inst)
            self.done_unf = set(other.done_unf)
            self.diseq = set(other.diseq)
            self.skol = dict(other.skol)
            self.todo = list(other.todo)
            self.cache = None


def termish(t):
    return isinstance(t, tuple) and t and isinstance(t[0], str)


ATOMIC_HEADS = {"all", "ex", "and", "or", "not", "ge0"}


class Engine:
    def __init__(self, budget=60000, rounds=4):
        self.n = 0
        self.budget = budget
        self.rounds = rounds
        self.witness = None
        self.k = 0

    def tick(self, k=1):
        self.n += k
        if self.n > self.budget:
            raise Budget()

    # ---- union-find with congruence (recomputed to fixpoint)
    def find(self, st, t):
        p = st.par
        r = t
        while r in p:
            r = p[r]
        while t in p:
            p[t], t = r, p[t]
        return r

    def sig(self, st, t):
        """signature of t with children replaced by representatives"""
        return tuple(self.sigc(st, x) if isinstance(x, tuple) else x for x in t)

    def sigc(self, st, x):
        if termish(x):
            if x in st.allterms:
                return self.find(st, x)
            return x
        return tuple(self.sigc(st, y) if isinstance(y, tuple) else y for y in x)

    RANK = {"int": 0, "bool": 0, "str": 0, "ctor": 1, "seq": 1, "set": 1, "map": 1, "tuple": 1, "var": 4}

    def merge(self, st, a, b):
        a, b = self.find(st, a), self.find(st, b)
        if a == b:
            return False
        ra, rb = self.RANK.get(a[0], 3), self.RANK.get(b[0], 3)
        if ra > rb or (ra == rb and (len(T.key(a)), T.key(a)) > (len(T.key(b)), T.key(b))):
            a, b = b, a
        # a becomes representative
        if a[0] in ("int", "bool", "str") and b[0] == a[0]:
            raise Contra()
        if a[0] == "ctor" and b[0] == "ctor":
            if a[1] != b[1]:
                raise Contra()
            st.par[b] = a
            for (_, x), (_, y) in zip(a[2], b[2]):
                st.pend.append((x, y))
            return True
        if a[0] == "seq" and b[0] == "seq":
            if len(a) != len(b):
                raise Contra()
            for x, y in zip(a[1:], b[1:]):
                st.pend.append((x, y))
        if a[0] == "tuple" and b[0] == "tuple" and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                st.pend.append((x, y))
        st.par[b] = a
        return True

    def close(self, st):
        """rebuild congruence closure from literals"""
        st.par = {}
        st.pend = []
        terms = set()
        for l in st.lits:
            T.subterms(l, terms)
        # subterms under binders are not ground: drop those containing bound vars
        ground = set()
        for t in terms:
            if not has_bound(t):
                ground.add(t)
        st.allterms = ground
        for l in st.lits:
            if l[0] == "eq":
                st.pend.append((l[1], l[2]))
            elif l[0] == "not":
                st.pend.append((l[1], FALSE)) if l[1][0] not in ("eq",) else None
            elif l[0] in ("in", "is") or (l[0] not in ("ge0", "eq") and True):
                st.pend.append((l, TRUE))
        lst = sorted(ground, key=T.key)
        for rnd in range(30):
            while st.pend:
                a, b = st.pend.pop()
                self.merge(st, a, b)
            tab = {}
            ch = False
            for t in lst:
                self.tick()
                if len(t) == 1 or t[0] in ("var", "int", "str", "bool", "bv"):
                    continue
                s = self.sig(st, t)
                # projections of constructors
                o = tab.get(s)
                if o is None:
                    tab[s] = t
                elif self.find(st, o) != self.find(st, t):
                    st.pend.append((o, t))
                    ch = True
                if t[0] == "dot":
                    b = self.find(st, t[1]) if t[1] in st.allterms else t[1]
                    if b[0] == "ctor":
                        for f, v in b[2]:
                            if f == t[2] and self.find(st, v) != self.find(st, t):
                                st.pend.append((v, t))
                                ch = True
                    elif b[0] == "tuple" and t[2].isdigit() and int(t[2]) < len(b) - 1:
                        v = b[1 + int(t[2])]
                        if self.find(st, v) != self.find(st, t):
                            st.pend.append((v, t))
                            ch = True
            # normalised re-evaluation of linear terms under representatives
            if not ch and not st.pend:
                break
        st.members = {}
        for t in lst:
            st.members.setdefault(self.find(st, t), []).append(t)
        # tags
        st.tags = {}
        for l in st.lits:
            if l[0] == "is":
                r = self.find(st, l[1])
                if st.tags.setdefault(r, l[2]) != l[2]:
                    raise Contra()
        for r in list(st.members):
            if r[0] == "ctor":
                if st.tags.setdefault(r, r[1]) != r[1]:
                    raise Contra()
        st.ntags = {}
        for l in st.lits:
            if l[0] == "not" and l[1][0] == "is":
                r = self.find(st, l[1][1])
                if st.tags.get(r) == l[1][2]:
                    raise Contra()
                st.ntags.setdefault(r, set()).add(l[1][2])
                sib = T.OWN.get(l[1][3])
                if sib:
                    left = [c for c, _ in sib if c not in st.ntags[r]]
                    if not left:
                        raise Contra()
                    if len(left) == 1 and r not in st.tags:
                        st.tags[r] = left[0]
        # disequalities
        for l in st.lits:
            if l[0] == "not" and l[1][0] == "eq":
                if self.same(st, l[1][1], l[1][2]):
                    raise Contra()
        if self.find(st, TRUE) == self.find(st, FALSE):
            raise Contra()
        self.arith(st)

    def canon(self, st, t):
        """rewrite t bottom-up to representatives"""
        if not termish(t):
            if isinstance(t, tuple):
                return tuple(self.canon(st, x) if isinstance(x, tuple) else x for x in t)
            return t
        if t in st.par or t in st.allterms:
            return self.find(st, t)
        if len(t) == 1 or t[0] in ("var", "int", "str", "bool", "bv", "b"):
            return t
        n = tuple(self.canon(st, x) if isinstance(x, tuple) else x for x in t)
        if n != t:
            try:
                n = T.rebuild(n, t)
            except Exception:
                pass
            if n in st.par or n in st.allterms:
                return self.find(st, n)
        return n

    def same(self, st, a, b):
        a, b = self.canon(st, a), self.canon(st, b)
        if a == b:
            return True
        if T.numeric(a) or T.numeric(b):
            t = T.sub(self.canlin(st, a), self.canlin(st, b))
            return t == ("int", 0)
        return False

    def canlin(self, st, t):
        c, d = T.lin_parts(t)
        r = T.num(c)
        for x, v in d.items():
            y = self.canon(st, x)
            r = T.add(r, y, v)
        return r

    # ---- linear bounds
    def arith(self, st):
        cons = []
        for l in st.lits:
            if l[0] == "ge0":
                cons.append((self.canlin(st, l[1]), False))
            elif l[0] == "eq" and (T.numeric(l[1]) or T.numeric(l[2])):
                cons.append((T.sub(self.canlin2(st, l[1]), self.canlin2(st, l[2])), True))
        # equalities implied by classes containing linear terms
        for r, ms in st.members.items():
            ls = [m for m in ms if m[0] == "lin"]
            for m in ls:
                cons.append((T.sub(self.canlin2(st, m), r if r[0] != "lin" else ("app", "cls", r)), True))
        rows = []
        atoms = set()
        for t, iseq in cons:
            c, d = T.lin_parts(t)
            rows.append((c, d))
            atoms |= set(d)
            if iseq:
                rows.append((-c, {k: -v for k, v in d.items()}))
        for a in atoms:
            ty = T.TYPES.get(a)
            if a[0] == "card" or (ty and ty[0] in ("nat", "uint64", "u64", "usize", "uint32", "u32", "u8", "uint8", "byte", "size_t")):
                rows.append((0, {a: 1}))
            elif a[0] == "ret" and a[1] in T.GEM1:
                rows.append((1, {a: 1}))
            elif T.nonneg(a):
                rows.append((0, {a: 1}))
        st.rows = rows
        if self.infeasible(rows):
            raise Contra()
        # two numbers that differ: one is the larger
        k = 0
        for l in st.lits:
            if l[0] == "not" and l[1][0] == "eq" and (T.numeric(l[1][1]) or T.numeric(l[1][2])):
                c, d = T.lin_parts(T.sub(self.canlin2(st, l[1][1]), self.canlin2(st, l[1][2])))
                if not d or any(x not in atoms for x in d):
                    continue
                k += 1
                if k > 8:
                    break
                if self.infeasible(rows + [(c - 1, d)]) and self.infeasible(rows + [(-c - 1, {x: -v for x, v in d.items()})]):
                    raise Contra()

    def canlin2(self, st, t):
        if t[0] in ("lin", "int"):
            return self.canlin(st, t)
        return self.canon(st, t)

    def infeasible(self, rows):
        rows = [r for r in {(c, tuple(sorted(d.items(), key=lambda kv: T.key(kv[0])))) for c, d in rows}]
        rows = [(c, dict(d)) for c, d in rows]
        for step in range(40):
            self.tick(len(rows))
            live = []
            for c, d in rows:
                if not d:
                    if c < 0:
                        return True
                else:
                    live.append((c, d))
            if not live:
                return False
            cnt = {}
            for c, d in live:
                for k, v in d.items():
                    p = cnt.setdefault(k, [0, 0])
                    p[0 if v > 0 else 1] += 1
            k = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], T.key(x)))
            if cnt[k][0] * cnt[k][1] > 200:
                return False
            pos = [r for r in live if r[1].get(k, 0) > 0]
            neg = [r for r in live if r[1].get(k, 0) < 0]
            rest = [r for r in live if k not in r[1]]
            new = {}
            for c1, d1 in pos:
                for c2, d2 in neg:
                    a, b = d1[k], -d2[k]
                    d = {}
                    for x, v in d1.items():
                        d[x] = d.get(x, 0) + v * b
                    for x, v in d2.items():
                        d[x] = d.get(x, 0) + v * a
                    d = {x: v for x, v in d.items() if v}
                    c = c1 * b + c2 * a
                    from math import gcd
                    g = 0
                    for v in d.values():
                        g = gcd(g, abs(v))
                    if g > 1:
                        d = {x: v // g for x, v in d.items()}
                        c = c // g
                    new[(c, tuple(sorted(d.items(), key=lambda kv: T.key(kv[0]))))] = 1
            rows = rest + [(c, dict(d)) for c, d in new]
        return False

    # ---- evaluating formulas under a closed state
    def ev(self, st, f, depth=0):
        """TRUE / FALSE / None"""
        h = f[0]
        if h == "bool":
            return f[1]
        if h == "and":
            r = True
            for x in f[1:]:
                v = self.ev(st, x, depth + 1)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if h == "or":
            r = False
            for x in f[1:]:
                v = self.ev(st, x, depth + 1)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if f in st.lits or f in st.alls:
            return True
        if mk_not(f) in st.lits or mk_not(f) in st.alls:
            return False
        if h == "not":
            v = self.ev(st, f[1], depth + 1)
            return None if v is None else not v
        if h == "eq":
            if self.same(st, f[1], f[2]):
                return True
            a, b = self.canon(st, f[1]), self.canon(st, f[2])
            r = T.eq(a, b)
            if r == FALSE:
                return False
            if a[0] in ("int", "str") and b[0] == a[0]:
                return False
            ta, tb = st.tags.get(a), st.tags.get(b)
            if ta and tb and ta != tb:
                return False
            n = ("eq",) + T.srt([a, b])
            for l in st.lits:
                if l[0] == "not" and l[1][0] == "eq":
                    if ("eq",) + T.srt([self.canon(st, l[1][1]), self.canon(st, l[1][2])]) == n:
                        return False
            if T.numeric(f[1]) or T.numeric(f[2]):
                return self.evlin(st, T.sub(self.canlin2(st, f[1]), self.canlin2(st, f[2])), True)
            return None
        if h == "is":
            r = self.canon(st, f[1])
            if r[0] == "ctor":
                return r[1] == f[2]
            if r in st.tags:
                return st.tags[r] == f[2]
            if f[2] in st.ntags.get(r, ()):
                return False
            return None
        if h == "ge0":
            return self.evlin(st, self.canlin(st, f[1]), False)
        if h in ("all", "ex"):
            return None
        c = self.canon(st, f)
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if c[0] in ("and", "or", "not", "eq", "ge0", "is") and depth < 6 and c != f:
            return self.ev(st, c, depth + 1)
        if c in st.par or c in st.allterms:
            if self.find(st, c) == self.find(st, TRUE):
                return True
            if self.find(st, c) == self.find(st, FALSE):
                return False
        return None

    def evlin(self, st, t, iseq):
        c, d = T.lin_parts(t)
        if not d:
            return (c == 0) if iseq else (c >= 0)
        # quick: try to refute both sides with the stored rows
        if len(st.rows) > 60:
            return None
        neg = (-c - 1, {k: -v for k, v in d.items()})   # t <= -1
        rows = st.rows + [(0, {a: 1}) for a in d if a[0] == "card"]
        if iseq:
            pos1 = (c - 1, dict(d))                       # t >= 1
            lo = self.infeasible(rows + [neg])            # so t >= 0
            hi = self.infeasible(rows + [pos1])           # so t <= 0
            if lo and hi:
                return True
            if self.infeasible(rows + [(c, dict(d)), (-c, {k: -v for k, v in d.items()})]):
                return False
            return None
        if self.infeasible(rows + [neg]):
            return True
        if self.infeasible(rows + [(c, dict(d))]):
            return False
        return None

    # ---- adding formulas
    def add(self, st, f):
        """queue f"""
        st.todo.append(f)

    def flush(self, st):
        """move queued formulas into literals / ors / alls"""
        ch = False
        while st.todo:
            f = st.todo.pop()
            self.tick()
            if f == TRUE or f in st.seen:
                continue
            if f == FALSE:
                raise Contra()
            st.seen.add(f)
            ch = True
            h = f[0]
            if h == "and":
                st.todo.extend(f[1:])
            elif h == "or":
                st.ors.add(f)
            elif h == "ex":
                n = f[1][1]
                vs = {}
                for i in range(n):
                    self.k += 1
                    vs[("b", f[1][0], i)] = ("var", "sk%d" % self.k)
                st.todo.append(T.subst(f[2], vs))
            elif h == "all":
                st.alls.add(f)
            else:
                st.lits.add(f)
                if h == "not" and f[1][0] == "eq":
                    self.ext_diseq(st, f[1])
                g = f[1] if h == "not" else f
                if g[0] == "app" and g[1] in ("disjoint", "subset<=") and len(g) == 4:
                    self.elementwise(st, g, h == "not")
        return ch

    def ext_diseq(self, st, e):
        """a != b: split records by field, collections by a differing element"""
        a, b = e[1], e[2]
        ty = T.TYPES.get(a) or T.TYPES.get(b)
        if ty and ty[0] in T.OWN:
            own = T.OWN[ty[0]]
            if len(own) == 1:
                c, fs = own[0]
                st.todo.append(mk_or(*[mk_not(T.eq(T.dot(a, f), T.dot(b, f))) for f in fs]))
                return
            if len(own) <= 6:
                # a is c, and b is not c or some field differs
                alts = []
                for c, fs in own:
                    alts.append(mk_and(T.mk_is(a, c, ty[0]),
                                       mk_or(mk_not(T.mk_is(b, c, ty[0])),
                                             *[mk_not(T.eq(T.dot(a, f), T.dot(b, f))) for f in fs])))
                st.todo.append(mk_or(*alts))
                return
        for u, v in ((a, b), (b, a)):
            if u[0] == "seq" and len(u) <= 7 and v[0] != "seq":
                st.todo.append(mk_or(mk_not(T.eq(T.card(v), T.num(len(u) - 1))),
                                     *[mk_not(T.eq(T.idx(v, T.num(i)), x)) for i, x in enumerate(u[1:])]))
                return
        st.diseq.add(e)

    def elementwise(self, st, g, neg):
        """disjointness and inclusion, element by element"""
        a, b = g[2], g[3]
        ts = [T.TYPES.get(t, (t[0],))[0] for t in (a, b)]
        if any(t.lower() == "multiset" for t in ts):
            return
        if neg:
            self.k += 1
            x = ("var", "sk%d" % self.k)
        else:
            x = T.fresh()
        if g[1] == "disjoint":
            f = mk_or(mk_not(T.mk_in(x, a)), mk_not(T.mk_in(x, b)))
        else:
            kinds = {t.lower().lstrip("i") for t in ts}
            maps = bool(kinds & {"map", "mupd", "mrem"})
            if not maps and not kinds & {"set", "dom", "union", "inter", "diff"}:
                return
            f = T.mk_in(x, b)
            if maps:
                f = mk_and(f, T.eq(T.idx(a, x), T.idx(b, x)))
            f = mk_or(mk_not(T.mk_in(x, a)), f)
        if neg:
            st.todo.append(mk_not(f))
        else:
            st.todo.append(T.quant("all", [x], f))

    COLLH = {"set", "map", "mupd", "mrem", "union", "inter", "diff", "compr", "dom", "ite"}

    def theory(self, st):
        """unfold membership / lookup through collection constructors; extensionality"""
        ch = False
        # membership and lookups on classes that contain a constructor term
        for t in list(st.allterms):
            if t[0] in ("in", "idx"):
                coll = t[2] if t[0] == "in" else t[1]
                k = t[1] if t[0] == "in" else t[2]
                r = self.find(st, coll)
                for m in st.members.get(r, ()):
                    if m[0] in self.COLLH or T.mapapp(m) or (m[0] in ("seqnew", "seq", "slice") and t[0] == "idx") or m[0] == "concat" and t[0] == "in":
                        u = T.mk_in(k, m) if t[0] == "in" else T.idx(m, k)
                        if u == t or (t, m) in st.done_unf:
                            continue
                        st.done_unf.add((t, m))
                        f = T.iff(t, u) if t[0] == "in" else T.eq(t, u)
                        if f != TRUE and f not in st.seen:
                            st.todo.append(f)
                            ch = True
            elif t[0] == "card":
                r = self.find(st, t[1])
                for m in st.members.get(r, ()):
                    u = T.card(m)
                    if u != t and u[0] != "card" and (t, m) not in st.done_unf:
                        st.done_unf.add((t, m))
                        st.todo.append(T.eq(t, u))
                        ch = True
            elif t[0] == "slice":
                r = self.find(st, t[1])
                for m in st.members.get(r, ()):
                    if m[0] == "slice" and m is not t and (t, m) not in st.done_unf:
                        st.done_unf.add((t, m))
                        u = T.slice_(m, t[2], t[3])
                        f = T.eq(t, u)
                        if f != TRUE:
                            st.todo.append(f)
                            ch = True
        for e in list(st.diseq):
            if (e, "ext") in st.done_unf:
                continue
            a, b = e[1], e[2]
            ca = [m for m in st.members.get(self.canon(st, a), [a]) if m[0] in self.COLLH or T.mapapp(m)]
            cb = [m for m in st.members.get(self.canon(st, b), [b]) if m[0] in self.COLLH or T.mapapp(m)]
            ty = T.TYPES.get(a) or T.TYPES.get(b) or ("?",)
            if not (ca or cb or ty[0] in ("map", "set", "imap", "iset", "Map", "Set", "IMap", "ISet")):
                continue
            st.done_unf.add((e, "ext"))
            self.k += 1
            x = ("var", "sk%d" % self.k)
            ca = ca[:1] or [a]
            cb = cb[:1] or [b]
            u, v = ca[0], cb[0]
            parts = [mk_and(T.mk_in(x, u), mk_not(T.mk_in(x, v))), mk_and(mk_not(T.mk_in(x, u)), T.mk_in(x, v))]
            if self.maplike(u) or self.maplike(v) or ty[0] in ("map", "imap", "Map", "IMap"):
                parts.append(mk_and(T.mk_in(x, u), T.mk_in(x, v), mk_not(T.eq(T.idx(u, x), T.idx(v, x)))))
            st.todo.append(mk_or(*parts))
            ch = True
        return ch

    @staticmethod
    def maplike(m):
        return m[0] in ("map", "mupd", "mrem") or T.mapapp(m) or (m[0] == "compr" and m[1] == "map")

    def instantiate(self, st):
        """instantiate universal facts at matching ground terms"""
        ch = False
        for q in sorted(st.alls, key=T.key):
            h, n = q[1]
            bvs = [("b", h, i) for i in range(n)]
            cands = {b: set() for b in bvs}
            pats = []
            self.patterns(q[2], set(bvs), pats)
            # full matches for patterns covering everything
            subs = []
            for p in pats:
                for s in self.ematch(st, p, bvs):
                    subs.append(s)
            full = []
            part = []
            for s in subs:
                (full if len(s) == n else part).append(s)
            if n > 1:
                # combine partial matches
                for i, s1 in enumerate(part[:40]):
                    for s2 in part[:40]:
                        m = dict(s1)
                        ok = True
                        for k, v in s2.items():
                            if m.setdefault(k, v) != v:
                                ok = False
                                break
                        if ok and len(m) == n:
                            full.append(m)
            cnt = 0
            for s in full:
                kk = (q, tuple(sorted((b[2], self.canon(st, t)) for b, t in s.items())))
                if kk in st.done_inst:
                    continue
                st.done_inst.add(kk)
                self.tick(3)
                f = T.subst(q[2], s)
                if f not in st.seen and f != TRUE:
                    st.todo.append(f)
                    ch = True
                cnt += 1
                if cnt > 60:
                    break
        return ch

    def patterns(self, t, bvs, out):
        """application subterms mentioning bound variables directly usable for matching"""
        if not isinstance(t, tuple) or not t:
            return
        if termish(t) and t[0] not in ("and", "or", "not", "ge0", "lin", "b", "all", "ex", "eq", "ite", "bool"):
            if any(x in bvs for x in T.subterms(t)) and t not in out and t[0] not in ("ctor", "seq", "set", "tuple", "map"):
                if not foreign_bound(t, bvs):
                    out.append(t)
        if t[0] == "eq":
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                pass
        for x in t:
            if isinstance(x, tuple):
                self.patterns(x, bvs, out)

    def ematch(self, st, p, bvs):
        out = []
        byhead = st.byhead
        k = (p[0], p[1] if p[0] == "app" else None, len(p))
        for g in byhead.get(k, ()):
            s = self.match(st, p, g, {}, bvs)
            if s is not None and s:
                out.append(s)
                if len(out) > 60:
                    break
        return out

    def match(self, st, p, g, s, bvs):
        self.tick()
        if p in bvs:
            if p in s:
                return s if self.canon(st, s[p]) == self.canon(st, g) else None
            s2 = dict(s)
            s2[p] = g
            return s2
        if p == g:
            return s
        if not isinstance(p, tuple) or not isinstance(g, tuple):
            return None
        if not termish(p):
            if len(p) != len(g) or termish(g):
                return None
            for x, y in zip(p, g):
                if isinstance(x, tuple):
                    s = self.match(st, x, y, s, bvs)
                    if s is None:
                        return None
                elif x != y:
                    return None
            return s
        if not any(b in T.subterms(p) for b in bvs):
            return s if self.canon(st, p) == self.canon(st, g) else None
        # try g and other members of its class with the same head
        cands = [g]
        if g in st.allterms:
            cands += [m for m in st.members.get(self.find(st, g), ()) if m != g]
        for c in cands:
            if c[0] != p[0] or len(c) != len(p):
                continue
            s2 = s
            for x, y in zip(p, c):
                if isinstance(x, tuple):
                    s2 = self.match(st, x, y, s2, bvs)
                    if s2 is None:
                        break
                elif x != y:
                    s2 = None
                    break
            if s2 is not None:
                return s2
        # linear offset:  b + c  against ground numeric
        if p[0] == "lin" and len(p[2]) == 1 and p[2][0][0] in bvs and p[2][0][1] == 1:
            b = p[2][0][0]
            t = T.sub(g, T.num(p[1]))
            if b in s:
                return s if self.canon(st, s[b]) == self.canon(st, t) else None
            s2 = dict(s)
            s2[b] = t
            return s2
        return None

    # ---- search
    def refute(self, st, depth=0):
        """True if every branch of st is contradictory; else records a witness"""
        try:
            for rnd in range(60):
                self.flush(st)
                self.close(st)
                # unit propagation over disjunctions
                ch = False
                for o in sorted(st.ors, key=T.key):
                    alive = []
                    sat = False
                    for x in o[1:]:
                        v = self.ev(st, x)
                        if v is True:
                            sat = True
                            break
                        if v is None:
                            alive.append(x)
                    if sat:
                        st.ors.discard(o)
                        continue
                    if not alive:
                        raise Contra()
                    if len(alive) == 1:
                        st.ors.discard(o)
                        st.todo.append(alive[0])
                        ch = True
                    elif len(alive) < len(o) - 1:
                        st.ors.discard(o)
                        n = mk_or(*alive)
                        if n[0] == "or":
                            st.ors.add(n)
                        else:
                            st.todo.append(n)
                            ch = True
                if ch:
                    continue
                if self.theory(st):
                    continue
                if rnd < 40 and getattr(st, "irounds", 0) < self.rounds and st.alls:
                    st.byhead = {}
                    for t in st.allterms:
                        st.byhead.setdefault((t[0], t[1] if t[0] == "app" else None, len(t)), []).append(t)
                    # terms inside pending disjunctions are candidates too
                    for o in st.ors:
                        for t in T.subterms(o):
                            if not has_bound(t) and t not in st.allterms:
                                st.byhead.setdefault((t[0], t[1] if t[0] == "app" else None, len(t)), []).append(t)
                    if self.instantiate(st):
                        st.irounds = getattr(st, "irounds", 0) + 1
                        continue
                break
        except Contra:
            return True
        if not st.ors or depth > 40:
            if self.witness is None:
                self.witness = sorted(st.lits, key=T.key)
            return False
        o = min(st.ors, key=lambda o: (len(o), T.key(o)))
        st.ors.discard(o)
        prev = []
        for x in sorted(o[1:], key=lambda f: (len(T.key(f)), T.key(f))):
            s2 = State(st)
            s2.irounds = getattr(st, "irounds", 0)
            s2.todo.append(x)
            for y in prev:
                s2.todo.append(y)
            if not self.refute(s2, depth + 1):
                return False
            prev.append(mk_not(x))
        return True


from functools import lru_cache


@lru_cache(maxsize=None)
def freeb(t):
    """bound-variable occurrences of t not closed by a binder inside t"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    if t[0] == "b" and len(t) == 3 and isinstance(t[1], int):
        return frozenset([t])
    r = frozenset()
    for x in t:
        if isinstance(x, tuple):
            r |= freeb(x)
    h = None
    if t[0] in ("all", "ex"):
        h = t[1][0]
    elif t[0] in ("compr", "seqnew"):
        h = t[2]
    elif t[0] in ("choose", "lamx"):
        h = t[1]
    if h is not None and r:
        r = frozenset(x for x in r if x[1] != h)
    return r


def has_bound(t):
    return bool(freeb(t))


def foreign_bound(t, bvs):
    return bool(freeb(t) - set(bvs))


def entails(facts, goal, budget=60000, rounds=3):
    """(True, None) | (False, witness literals) | (None, None) on budget"""
    r = None, None
    for rd in ([rounds] if rounds <= 1 else [1, rounds]):
        en = Engine(budget, rd)
        st = State()
        for f in facts:
            st.todo.append(f)
        st.todo.append(mk_not(goal))
        try:
            if en.refute(st):
                return True, None
            r = False, en.witness
        except Budget:
            r = None, None
    return r


def consistent(facts, budget=20000):
    """False when the facts are contradictory on every branch (a vacuous rule)"""
    en = Engine(budget, 1)
    st = State()
    st.todo += list(facts)
    try:
        return not en.refute(st)
    except Budget:
        return True
