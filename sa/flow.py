"""Path summaries of imperative code.

Every front end (Python, C++, executable Rust) translates a function body into
one small statement language.  `Exec` walks that statement tree and computes,
for each syntactic path, which facts guard it, which value numbers flow into
calls, fields and the result, and how the path leaves the function.  Nothing is
run: values are value numbers (normalised terms), branches are the syntactic
branches, loops are summarised once (modified variables become unknown, loops
over a collection become folds and quantified facts).  Helpers of the analysed
program are followed through calls, so where a statement sits does not matter.
"""
import itertools
import time
from . import term as T, prove
from .term import TRUE, FALSE, mk_and, mk_or, mk_not, eq, ite

NONE = ("ctor", "None", (), "flow.None")
MAXPATHS = 1500
MAXDEPTH = 24


ELEMS = itertools.count(1)


class Unsupported(Exception):
    pass


class TooMany(Exception):
    pass


def app(f, *a):
    return ("app", f) + tuple(a)


class Fn:
    def __init__(self, name, params, body, file="", cls=None, kind="fn", line=0):
        self.name, self.params, self.body, self.file, self.cls, self.kind, self.line = name, params, body, file, cls, kind, line
        # params: list of dict(name, mode: 'val'|'ref', default: IR or None, star)

    def __repr__(self):
        return "<Fn %s>" % self.name


class Ev:
    """one observed event of a path"""
    __slots__ = ("kind", "name", "args", "res", "sub")

    def __init__(self, kind, name, args, res=None, sub=None):
        self.kind, self.name, self.args, self.res, self.sub = kind, name, args, res, sub

    def show(self):
        if self.kind == "loop":
            return "for each %s {%s}" % (T.show(self.args[0])[:60] if self.args else self.name, " | ".join("; ".join(e.show() for e in p.events) for p in self.sub)[:300])
        return "%s(%s)" % (self.name, ", ".join(T.show(a)[:70] for a in self.args))


class St:
    __slots__ = ("env", "cells", "heap", "facts", "events", "occ", "n", "factset", "mod", "types", "old", "stale")

    def __init__(self):
        self.env, self.cells, self.heap, self.facts, self.events = {}, {}, [], [], []
        self.occ, self.n, self.factset, self.mod, self.types, self.old = {}, 0, set(), {}, {}, {}
        self.stale = frozenset()

    def copy(self):
        s = St()
        s.env, s.cells, s.heap = dict(self.env), dict(self.cells), list(self.heap)
        s.facts, s.events = list(self.facts), list(self.events)
        s.occ, s.n, s.factset, s.mod = dict(self.occ), self.n, set(self.factset), dict(self.mod)
        s.types, s.old, s.stale = dict(self.types), dict(self.old), self.stale
        return s

    def fact(self, f):
        for x in (f[1:] if f[0] == "and" else (f,)):
            if x != TRUE and x not in self.factset:
                self.factset.add(x)
                self.facts.append(x)

    def cell(self, v, hint=""):
        c = ("cell", len(self.cells), hint)
        self.cells[c] = v
        return c


class Path:
    """a finished path"""

    def __init__(self, st, kind, val=None, extra=None):
        self.st, self.kind, self.val, self.extra = st, kind, val, extra
        self.facts, self.events = st.facts, st.events

    def show(self):
        return "[%s] %s -> %s %s" % (" && ".join(T.show(f)[:90] for f in self.facts), "; ".join(e.show() for e in self.events),
                                     self.kind, T.show(self.val)[:200] if self.val is not None else "")


def occurs(t, xs):
    xs = set(xs)
    seen = {}

    def go(x):
        if x in xs:
            return True
        if not isinstance(x, tuple):
            return False
        r = seen.get(id(x))
        if r is None:
            r = any(go(y) for y in x if isinstance(y, tuple))
            seen[id(x)] = r
        return r
    return go(t)


def ofloop(t, lid):
    """does t speak of a value the given loop changes?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "lv" and t[1] == lid or t[0] == "hv" and len(t) > 3 and t[3] == lid:
        return True
    return any(ofloop(x, lid) for x in t if isinstance(x, tuple))


def loopterms(ts, lid):
    out = set()

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == "lv" and t[1] == lid or t[0] == "hv" and len(t) > 3 and t[3] == lid:
                out.add(t)
            for x in t:
                go(x)
    for t in ts:
        go(t)
    return out


def unknowns(t, known):
    """does a fact depend on anything besides numbers and the given terms?"""
    if not isinstance(t, tuple) or not t or t in known:
        return False
    if t[0] in ("var", "ret", "hv", "lv", "acc", "app", "dot", "idx", "card", "fld", "choose"):
        return True
    return any(unknowns(x, known) for x in t if isinstance(x, tuple))


def counters(its, lid):
    """what every pass of a loop changes by the same amount: {term: (start, step)}; sizes of collections included"""
    at, bad = {}, set()
    for q in its:
        for k, v in q.base.items():
            if v[0] != "lv" or v[1] != lid:
                continue
            for x, y, z in ((v, q.extra[k], v[2]), (T.card(v), T.card(q.extra[k]), T.card(v[2]))):
                d = T.sub(y, x)
                if d[0] != "int" or at.setdefault(x, (z, d)) != (z, d):
                    bad.add(x)
    return {x: zd for x, zd in at.items() if x not in bad}


def fresh_like(base):
    return ("b!", base)


# ------------------------------------------------------------------ heap
def isobj(b):
    return b[0] == "new"


def distinct(a, b):
    if a == b:
        return False
    if isobj(a) or isobj(b):
        return True         # a freshly created object is nobody else
    return False


def hread(st, base, f):
    for w in reversed(st.heap):
        if w[0] == "havoc":
            if w[1] == f or w[1] is None:
                if base[0] == "new" and w[3] is not None and base[2] > w[3]:
                    continue
                return ("hv", f, base, w[2], hread_from(st, base, f, hindex(st.heap, w)))
            continue
        _, b2, f2, v = w
        if f2 != f:
            continue
        if b2 == base:
            return v
        if distinct(b2, base):
            continue
        if base[0] == "ite":
            return ite(base[1], hread(st, base[2], f), hread(st, base[3], f))
        # possibly the same object: value depends on whether it is
        c = eq(b2, base)
        if c == FALSE or mk_not(c) in st.factset:
            continue
        if c in st.factset:
            return v
        rest = hread_from(st, base, f, hindex(st.heap, w))
        return ite(c, v, rest)
    if base[0] == "ite":
        return ite(base[1], hread(st, base[2], f), hread(st, base[3], f))
    return T.dot(base, f)


def hindex(heap, w):
    for i in range(len(heap) - 1, -1, -1):
        if heap[i] is w:
            return i
    return heap.index(w)


def hread_from(st, base, f, k):
    s2 = St()
    s2.heap = st.heap[:k]
    s2.factset = st.factset
    return hread(s2, base, f)


def hwrite(st, base, f, v):
    st.heap.append(("w", base, f, v))


def subevent(e, mp):
    return Ev(e.kind, e.name, tuple(T.subst(z, mp) for z in e.args), T.subst(e.res, mp) if e.res is not None else None,
              [subpath(q, mp) for q in e.sub] if e.sub else e.sub)


def subpath(q, mp):
    """a path of a loop body with terms replaced throughout"""
    if not mp:
        return q
    q2 = Path(q.st, q.kind, q.val, q.extra)
    q2.base, q2.n0, q2.lid = q.base, q.n0, getattr(q, "lid", None)
    q2.facts = [T.subst(x, mp) for x in q.facts]
    q2.events = [subevent(e, mp) for e in q.events]
    sw = lambda w: tuple(T.subst(z, mp) if isinstance(z, tuple) else z for z in w)
    q2.writes = [sw(w) for w in q.writes]
    q2.st = q.st.copy()
    q2.st.cells = {k: T.subst(v, mp) for k, v in q.st.cells.items()}
    q2.st.heap = [sw(w) for w in q.st.heap]
    q2.extra = {k: T.subst(v, mp) for k, v in q.extra.items()} if q.extra else q.extra
    q2.base = {k: T.subst(v, mp) for k, v in q.base.items()} if q.base else q.base
    return q2


# ------------------------------------------------------------------ executor
class Exec:
    """path enumeration over one function; `w` is the front end's world"""

    def __init__(self, world, keep=(), inline=True, maxpaths=MAXPATHS, limit=60):
        self.w = world
        self.keep = set(keep)
        self.doinline = inline
        self.stack = []
        self.maxpaths = maxpaths
        self.nloop = 0
        self.steps = 0
        self.intry = 0
        self.fid = 0
        self.deadline = time.time() + limit

    # ---- entry
    def summarise(self, fn, args=None, this=None):
        st = St()
        fr = self.newframe()
        st.mod = {}
        for i, p in enumerate(fn.params):
            v = ("var", p["as"] if "as" in p else p["name"])
            if args is not None and i < len(args):
                v = args[i]
            if p.get("type"):
                self.w.settype(v, p["type"])
                self.w.paramtype(v, p["type"])
            c = st.cell(v, "argument %d%s" % (i + 1, " &" if p.get("mode") == "ref" else ""))
            st.env[fr, p["name"]] = (c, ())
            st.old[c] = v
        if fn.cls is not None and this is None:
            this = ("var", "this")
        if this is not None:
            self.w.settype(this, fn.cls)
            mut = getattr(fn, "selfm", None) == "&mut"
            c = st.cell(this, "this &" if mut else "this")
            st.env[fr, "this"] = (c, ())
            if mut:
                st.old[c] = this
        self.stack = [fn]
        self.fr, self.fn = fr, fn
        out = []
        for s, o in self.block(st, fr, fn.body):
            out.append(self.finish(s, o, fn))
        self.stack = []
        return self.prune(out)

    def finish(self, s, o, fn):
        if o[0] == "next":
            return Path(s, "return", NONE)
        if o[0] == "ret":
            return Path(s, "return", o[1])
        return Path(s, o[0], o[1] if len(o) > 1 else None, o[2] if len(o) > 2 else None)

    def prune(self, ps):
        out = []
        for p in ps:
            if not p.facts or prove.consistent(p.facts, 3000):
                out.append(p)
        return out

    def newframe(self):
        self.fid += 1
        return self.fid

    # ---- statements: list of (state, outcome)
    def block(self, st, fr, stmts):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for s2, o in self.stmt(x, fr, s):
                    if o[0] == "next":
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            if len(nxt) + len(done) > self.maxpaths:
                raise TooMany("more than %d paths" % self.maxpaths)
            cur = self.feasible(nxt)
            if not cur:
                break
        return done + [(x, ("next",)) for x in cur]

    def feasible(self, sts):
        if len(sts) < 8:
            return sts
        return [s for s in sts if prove.consistent(s.facts, 1500)]

    def stmt(self, st, fr, s):
        self.steps += 1
        if self.steps > 60000 or time.time() > self.deadline:
            raise TooMany("analysis budget")
        return getattr(self, "s_" + s[0])(st, fr, s)

    def s_nop(self, st, fr, s):
        return [(st, ("next",))]

    def s_globaldecl(self, st, fr, s):
        st.env[fr, s[1]] = (("heap", ("var", "globals")), (("f", s[1]),))
        return [(st, ("next",))]

    def s_nested(self, st, fr, s):
        st.env[fr, s[1].name] = (st.cell(("pyfn", fr, s[1]), s[1].name), ())
        return [(st, ("next",))]

    def s_selfname(self, st, fr, s):
        st.env[fr, s[1]] = st.env[fr, "this"]
        return [(st, ("next",))]

    def s_unsup(self, st, fr, s):
        raise Unsupported(s[1] if len(s) > 1 else "construct")

    def s_block(self, st, fr, s):
        return self.block(st, fr, s[1])

    def outs(self, rs):
        """evaluation results that left the function inside an expression"""
        return [(s, v[1]) for s, v in rs if isinstance(v, tuple) and v and v[0] == "$exit"]

    def vals(self, rs):
        return [(s, v) for s, v in rs if not (isinstance(v, tuple) and v and v[0] == "$exit")]

    def s_expr(self, st, fr, s):
        rs = self.e(st, fr, s[1], stmt=True)
        return self.outs(rs) + [(x, ("next",)) for x, _ in self.vals(rs)]

    def s_decl(self, st, fr, s):
        _, name, mode, init, ty = s
        if mode == "ref" and init is not None:
            out = []
            for x, lv in self.lval(st, fr, init):
                if lv[0] == "$exit":
                    out.append((x, lv[1]))
                    continue
                if lv[0] == "val":
                    lv = (x.cell(lv[1], name), ())
                x.env[fr, name] = lv
                out.append((x, ("next",)))
            return out
        if init is None:
            v = self.w.default(ty, name, st)
            c = st.cell(v, name)
            self.w.settype(v, ty)
            st.env[fr, name] = (c, ())
            return [(st, ("next",))]
        rs = self.e(st, fr, init)
        out = self.outs(rs)
        for x, v in self.vals(rs):
            v = self.w.coerce(v, ty)
            x.env[fr, name] = (x.cell(v, name), ())
            self.w.settype(v, ty)
            out.append((x, ("next",)))
        return out

    def s_assign(self, st, fr, s):
        rs = self.e(st, fr, s[2])
        out = self.outs(rs)
        for x, v in self.vals(rs):
            cur = [(x, None)]
            for tg in s[1]:
                nx = []
                for y, o in cur:
                    if o is not None:
                        nx.append((y, o))
                        continue
                    nx += [(z, zo) for z, zo in self.assign(y, fr, tg, v)]
                cur = nx
            out += [(y, o or ("next",)) for y, o in cur]
        return out

    def s_aug(self, st, fr, s):
        rs = self.e(st, fr, ("asgop", s[1], s[2], s[3]))
        return self.outs(rs) + [(x, ("next",)) for x, _ in self.vals(rs)]

    def s_if(self, st, fr, s):
        out = []
        for x, c in self.cond(st, fr, s[1]):
            if c[0] == "$exit":
                out.append((x, c[1]))
                continue
            a, b = self.split(x, c)
            ra = self.block(a, fr, s[2]) if a is not None else []
            rb = self.block(b, fr, s[3]) if b is not None else []
            out += self.join(c, ra, rb)
        return out

    def split(self, x, c):
        if c == TRUE or c in x.factset:
            return x, None
        n = mk_not(c)
        if c == FALSE or n in x.factset:
            return None, x
        a, b = x.copy(), x
        a.fact(c)
        b.fact(n)
        return a, b

    def join(self, c, ra, rb):
        """merge two fall-through branches that differ in local values only"""
        na = [r for r in ra if r[1][0] == "next"]
        nb = [r for r in rb if r[1][0] == "next"]
        if len(na) == 1 and len(nb) == 1:
            a, b = na[0][0], nb[0][0]
            if len(a.events) == len(b.events) and all(x is y for x, y in zip(a.events, b.events)) and a.heap == b.heap \
                    and a.occ == b.occ:
                fa = [f for f in a.facts if f not in b.factset]
                fb = [f for f in b.facts if f not in a.factset]
                if set(fa) <= set(self.cj(c)) and set(fb) <= set(self.cj(mk_not(c))):
                    m = b.copy()
                    m.facts = [f for f in b.facts if f in a.factset]
                    m.factset = set(m.facts)
                    for k, v in a.cells.items():
                        if k in m.cells:
                            m.cells[k] = ite(c, v, m.cells[k])
                        else:
                            m.cells[k] = v
                    for k, v in a.env.items():
                        if m.env.get(k) != v:
                            if k in m.env and (m.env[k][1] or v[1] or m.env[k][0][0] != "cell" or v[0][0] != "cell"):
                                return ra + rb
                            if k in m.env:
                                x, y = a.cells[v[0]], b.cells[m.env[k][0]]
                                m.env[k] = (m.cell(ite(c, x, y), k[1]), ())
                            else:
                                m.env[k] = v
                    m.mod.update(a.mod)
                    m.n = max(a.n, b.n)
                    return [r for r in ra + rb if r[1][0] != "next"] + [(m, ("next",))]
        return ra + rb

    @staticmethod
    def cj(c):
        return list(c[1:]) if c[0] == "and" else [c]

    def s_return(self, st, fr, s):
        if s[1] is None:
            return [(st, ("ret", NONE))]
        rs = self.e(st, fr, s[1])
        return self.outs(rs) + [(x, ("ret", v)) for x, v in self.vals(rs)]

    def s_raise(self, st, fr, s):
        if s[1] is None:
            return [(st, ("raise", ("str", "reraise")))]
        name = self.w.excname(s[1])
        return [(st, ("raise", ("str", name)))]

    def s_break(self, st, fr, s):
        return [(st, ("break",))]

    def s_continue(self, st, fr, s):
        return [(st, ("continue",))]

    def s_assert(self, st, fr, s):
        out = []
        for x, c in self.cond(st, fr, s[1]):
            if c[0] == "$exit":
                out.append((x, c[1]))
                continue
            a, b = self.split(x, c)
            if a is not None:
                out.append((a, ("next",)))
            if b is not None:
                out.append((b, (s[2], ("str", s[3]))))
        return out

    def s_try(self, st, fr, s):
        _, body, handlers, orelse, fin = s
        self.intry += 1
        try:
            rs = self.block(st, fr, body)
        finally:
            self.intry -= 1
        out = []
        for x, o in rs:
            if o[0] == "raise":
                for names, var, hb in handlers:
                    if not names or self.w.catches(names, o[1]):
                        if var:
                            x.env[fr, var] = (x.cell(app("caught", o[1]), var), ())
                        out += self.block(x, fr, hb)
                        break
                else:
                    out.append((x, o))
            elif o[0] == "next" and orelse:
                out += self.block(x, fr, orelse)
            else:
                out.append((x, o))
        if fin:
            res = []
            for x, o in out:
                for y, p in self.block(x, fr, fin):
                    res.append((y, o if p[0] == "next" else p))
            out = res
        return out

    def s_switch(self, st, fr, s):
        """cases: list of (list of values or None for default, body) without fall-through"""
        out = []
        rs = self.e(st, fr, s[1])
        out += self.outs(rs)
        for x, v in self.vals(rs):
            rest = x
            default = None
            for vals, body in s[2]:
                if vals is None:
                    default = body
                    continue
                cs = []
                for vv in vals:
                    t = self.pure(rest, fr, vv)
                    cs.append(self.w.eq(v, t))
                c = mk_or(*cs)
                a, rest2 = self.split(rest, c)
                if a is not None:
                    out += self.unbreak(self.block(a, fr, body))
                rest = rest2
                if rest is None:
                    break
            if rest is not None:
                out += self.unbreak(self.block(rest, fr, default or []))
        return out

    @staticmethod
    def unbreak(rs):
        return [(x, ("next",) if o[0] == "break" else o) for x, o in rs]

    def s_match(self, st, fr, s):
        """Rust/C++-like pattern dispatch: s = ('match', scrutinee, [(pattern, guard, body)])"""
        out = []
        rs = self.lval(st, fr, s[1])
        for x, lv in rs:
            if lv[0] == "$exit":
                out.append((x, lv[1]))
                continue
            rest = x
            for pat, guard, body in s[2]:
                if rest is None:
                    break
                v = self.read(rest, lv)
                c, binds = self.w.pattern(self, rest, pat, v, lv)
                a, rest2 = self.split(rest, c)
                if a is None:
                    rest = rest2
                    continue
                for n, bl in binds:
                    a.env[fr, n] = bl if bl[0] != "val" else (a.cell(bl[1], n), ())
                if guard is not None:
                    nrest = [] if rest2 is None else [rest2]
                    for y, g in self.cond(a, fr, guard):
                        yes, no = self.split(y, g)
                        if yes is not None:
                            out += self.block(yes, fr, body)
                        if no is not None:
                            nrest.append(no)
                    if len(nrest) > 1:
                        for r in nrest[1:]:
                            k = s[2].index((pat, guard, body))
                            out += self.s_match(r, fr, ("match", s[1], s[2][k + 1:]))
                    rest = nrest[0] if nrest else None
                else:
                    out += self.block(a, fr, body)
                    rest = rest2
        return out

    # ---- loops
    def s_while(self, st, fr, s):
        _, c, body, step, orelse = s[:5]
        cv = self.w.as_foreach(self, st, fr, s)
        if cv is not None:
            return cv
        return self.loop(st, fr, c, body, step, orelse)

    def snapshot(self, st):
        return dict(st.cells), len(st.heap), len(st.events), dict(st.occ)

    def changed(self, base, s, cells0, nheap):
        cs = {k for k in cells0 if s.cells[k] != cells0[k]}
        fs = {w[1] if w[0] == "havoc" else w[2] for w in s.heap[nheap:]}
        return cs, fs

    def loop(self, st, fr, c, body, step, orelse):
        self.nloop += 1
        lid = "L%d" % st.occ.get("$loop", 0)
        st.occ["$loop"] = st.occ.get("$loop", 0) + 1
        ch, hf = set(), set()
        order = self.names(st, fr, c)
        for _ in range(8):
            b = st.copy()
            self.havoc(b, lid, ch, hf, order)
            cells0, nh, nev = dict(b.cells), len(b.heap), len(b.events)
            nf = len(b.facts)
            it, ex = [], []
            for x, t in self.cond(b.copy(), fr, c) if c is not None else [(b.copy(), TRUE)]:
                if t[0] == "$exit":
                    ex.append((x, t[1]))
                    continue
                yes, no = self.split(x, t)
                if no is not None:
                    ex.append((no, ("next",)))
                if yes is not None:
                    for y, o in self.block(yes, fr, body):
                        if o[0] in ("next", "continue"):
                            for z, p in self.block(y, fr, step or []):
                                it.append((z, ("next",)) if p[0] == "next" else (z, p))
                        elif o[0] == "break":
                            ex.append((y, ("brk",)))
                        else:
                            ex.append((y, o))
            ex += [r for r in it if r[1][0] != "next"]
            it = [r for r in it if r[1][0] == "next"]
            nch, nhf = set(), set()
            for x, _ in it:
                a, f = self.changed(b, x, cells0, nh)
                nch |= a
                nhf |= f
            if nch <= ch and nhf <= hf:
                break
            ch |= nch
            hf |= nhf
        else:
            raise Unsupported("loop does not stabilise")
        sub = []
        for x, _ in it:
            p = Path(x, "iterate", None, {k: x.cells[k] for k in ch})
            p.base = {k: b.cells[k] for k in ch}
            p.facts = x.facts[nf:]
            p.events = x.events[nev:]
            p.writes = x.heap[nh:]
            p.n0, p.lid = st.n, lid
            sub.append(p)
        ev = Ev("loop", "while", (), None, [p for p in sub])
        out = []
        if ex and sub and self.w.diverges and not ch and not hf and all(o[0] == "next" for _, o in ex) and not any(p.events or p.writes for p in sub):
            # a pass that changes nothing is followed by another one: entered at all, it never ends
            for p, (x, _) in zip(sub, it):
                p.facts = []
                x.events.append(Ev("loop", "while", (), None, [p]))
                out.append((x, ("diverge",)))
            sub = []
        for x, o in ex:
            if sub:
                x.events.insert(nev, ev)
            if o[0] == "next":
                if orelse:
                    out += self.block(x, fr, orelse)
                else:
                    out.append((x, o))
            elif o[0] == "brk":
                out.append((x, ("next",)))
            else:
                out.append((x, o))
        if not ex and sub and self.w.diverges:
            # never left: what it does on each pass is all there is
            b.events.append(ev)
            out.append((b, ("diverge",)))
        return out

    def names(self, b, fr, *xs):
        """variables of this frame, in the order in which the loop mentions them"""
        order = {}

        def go(x):
            if isinstance(x, (tuple, list)):
                if len(x) == 2 and x[0] == "name" and isinstance(x[1], str):
                    lv = b.env.get((fr, x[1]))
                    if lv is not None and lv[0] not in order:
                        order[lv[0]] = len(order)
                    return
                for y in x:
                    go(y)
        for x in xs:
            go(x)
        return order

    def havoc(self, b, lid, ch, hf, order=()):
        for k in ch:
            v = b.cells[k]
            h = ("lv", lid, v)
            if v in T.TYPES:
                T.TYPES[h] = T.TYPES[v]
            elif self.kindof(v):
                T.TYPES[h] = (self.kindof(v), ())
            b.cells[k] = h
        # two cells that start equal must not be confused
        seen = {}
        for k in sorted(ch, key=lambda k: (order.get(k, len(order)) if order else 0, k[1])):
            h = b.cells[k]
            if h in seen:
                seen[h] += 1
                h2 = ("lv", lid, h[2], seen[h])
                if h in T.TYPES:
                    T.TYPES[h2] = T.TYPES[h]
                b.cells[k] = h2
            else:
                seen[h] = 0
        for f in sorted(hf, key=str):
            b.heap.append(("havoc", f, lid, b.n))

    @staticmethod
    def kindof(v):
        h = v[0]
        if h in ("seq", "concat", "slice"):
            return "seq"
        if h in ("map", "mupd"):
            return "map"
        if h in ("set", "union"):
            return "set"
        if h in ("int", "lin", "card"):
            return "int"
        if h == "compr" and v[1] == "fold":
            return Exec.kindof(v[3][1])
        ty = T.TYPES.get(v)
        return ty[0] if ty else None

    def s_foreach(self, st, fr, s):
        _, pat, coll, body, orelse = s[:5]
        out = []
        rs = self.lval(st, fr, coll) if self.w.collref(coll) else [(x, ("val", v) if v[0] != "$exit" else v) for x, v in self.e(st, fr, coll)]
        for x, lv in rs:
            if lv[0] == "$exit":
                out.append((x, lv[1]))
                continue
            v = lv[1] if lv[0] == "val" else self.read(x, lv)
            out += self.foreach(x, fr, pat, v, body, orelse, lv)
        return out

    def foreach(self, st, fr, pat, coll, body, orelse=(), lv=None, notbool=None):
        """one abstract pass over a collection"""
        st0, coll0 = st.copy(), coll
        lit = self.w.literal(coll)
        if lit is not None and len(lit) <= 24:
            return self.unroll(st, fr, pat, lit, body, orelse)
        coll, mkelem, guard = (self.w.elements(coll) + (None,))[:3]
        self.nloop += 1
        k = st.occ.get("$loop", 0)
        lid = "L%d" % k
        st.occ["$loop"] = k + 1
        e = ("var", "elem@%s" % next(ELEMS))
        self.w.elemtype(e, coll)
        inn = self.w.inside(e, coll)
        ch, hf = set(), set()
        for _ in range(8):
            b = st.copy()
            accs = {}
            for c in sorted(ch, key=lambda k: k[1]):
                v = b.cells[c]
                n = 0
                while ("acc", e, v, n) in accs.values():
                    n += 1
                a = ("acc", e, v, n)
                kd = T.TYPES.get(v) or ((self.kindof(v), ()) if self.kindof(v) else None) or ((self.w.kind(v), ()) if self.w.python and self.w.kind(v) == "str" else None) or (("bool", ()) if self.w.boolvars and T.isbool(v) and c not in (notbool or ()) else None)
                if kd:
                    T.TYPES[a] = kd
                accs[c] = a
                b.cells[c] = a
            for f in sorted(hf, key=str):
                b.heap.append(("havoc", f, lid, b.n))
            cells0, nh, nev, nf = dict(b.cells), len(b.heap), len(b.events), len(b.facts)
            x = b.copy()
            x.fact(inn)
            it, ex = [], []
            xs = [x]
            if guard is not None:
                yes, no = self.split(x, guard(e))
                xs = [yes] if yes is not None else []
                if no is not None:
                    it.append(no)
            for z, o in [zo for x in xs for zo in self.bindpat(x, fr, pat, mkelem(e))]:
                for y, o in self.block(z, fr, body):
                    if o[0] in ("next", "continue"):
                        it.append(y)
                    elif o[0] == "break":
                        ex.append((y, ("brk",)))
                    else:
                        ex.append((y, o))
            nch, nhf = set(), set()
            for y in it:
                a, f = self.changed(b, y, cells0, nh)
                nch |= a
                nhf |= f
            if nch <= ch and nhf <= hf:
                break
            ch |= nch
            hf |= nhf
        else:
            raise Unsupported("loop does not stabilise")
        # ---- exhaustion
        out = []
        own = lambda y: [f for f in y.facts[nf:] if f != inn and f not in self.cj(inn)]
        exconds = [mk_and(*own(y)) for y, _ in ex]
        stopc = mk_or(*exconds) if ex else FALSE
        res = b.copy()
        ended = None
        if it or not ex:
            deps = set(accs.values())
            if ex and not occurs(stopc, deps) and not self.depends_events(stopc, st, it, nev):
                res.fact(self.allin(e, coll, mk_not(stopc)))
            elif ex:
                ended = app("exhausted", ("str", lid))
                res.fact(ended)
        steps = {}
        # what holds in every pass that does not leave the loop decides nothing between them
        shared = set.intersection(*[set(own(y)) for y in it]) if ex and it else set()
        for c in ch:
            t = None
            for y in it:
                cond = mk_and(*[f for f in own(y) if f not in shared])
                t = y.cells[c] if t is None else ite(cond, y.cells[c], t)
            steps[c] = T.dtree(t) if t is not None else None
        if any(accs[c] in T.TYPES and T.TYPES[accs[c]][0] == "bool" and steps[c] is not None and not T.isbool(steps[c]) for c in ch) and notbool is None:
            # a variable that starts as a truth value and becomes something else
            nb = {c for c in ch if T.TYPES.get(accs[c], ("",))[0] == "bool" and steps[c] is not None and not T.isbool(steps[c])}
            for c in nb:
                T.TYPES.pop(accs[c])
            return self.foreach(st0, fr, pat, coll0, body, orelse, lv, nb)
        finals = self.folds(st, e, coll, ch, accs, steps, mk_not(stopc))
        for c in ch:
            res.cells[c] = finals[c]
        sub = []
        for y in it:
            p = Path(y, "iterate")
            p.facts, p.events, p.writes, p.base, p.extra = own(y), y.events[nev:], y.heap[nh:], {}, {}
            p.n0 = st.n
            sub.append(p)
        cl2, e2, ren = self.elemform(coll, e, sub)
        noisy = any(p.events or p.writes for p in sub)
        if noisy:
            ev = Ev("loop", "each", (coll, e), None, sub)
            res.events.insert(nev, ev)
        if it:
            if orelse:
                out += self.block(res, fr, orelse)
            else:
                out.append((res, ("next",)))
        elif not ex:
            out.append((res, ("next",)))
        if ex and not it:
            # every iteration leaves: the collection may still be empty
            res.fact(self.w.empty(coll))
            for c in ch:
                res.cells[c] = st.cells[c]
            out += self.block(res, fr, orelse or [])
        # ---- early exits
        for y, o in ex:
            cond = mk_and(*own(y))
            h, (cc,) = T.bind("choose", [e], [stopc])
            if occurs(stopc, set(accs.values())):
                first = ("choose", h, ("pair", coll, ("str", lid)))
            else:
                first = ("choose", h, ("pair", coll, cc))
            mp = {e: first}
            for c in ch:
                # value on arrival at the exit: an unfinished fold
                mp[accs[c]] = app("partial", finals[c])
            self.substate(y, nf, nh, nev, mp)
            if ended is not None:
                y.fact(mk_not(ended))
            if noisy:
                y.events.insert(nev, Ev("loop", "each", (coll, e), None, sub))
            out.append((y, ("next",) if o[0] == "brk" else self.subout(o, mp)))
        return out

    def depends_events(self, c, st, it, nev):
        rs = [ev.res for y in it for ev in y.events[nev:] if ev.res is not None]
        return occurs(c, rs) if rs else False

    def elemform(self, coll, e, sub):
        return coll, e, {}

    def allin(self, e, coll, body):
        body = mk_or(mk_not(self.w.inside(e, coll)), body)
        v = T.fresh()
        return T.quant("all", [v], T.subst(body, {e: v}))

    def exin(self, e, coll, body):
        body = mk_and(self.w.inside(e, coll), body)
        v = T.fresh()
        return T.quant("ex", [v], T.subst(body, {e: v}))

    def substate(self, y, nf, nh, nev, mp):
        y.facts = y.facts[:nf] + [T.subst(f, mp) for f in y.facts[nf:]]
        y.factset = set(y.facts)
        y.heap = y.heap[:nh] + [tuple(T.subst(z, mp) if isinstance(z, tuple) else z for z in w) for w in y.heap[nh:]]
        y.cells = {k: T.subst(v, mp) for k, v in y.cells.items()}
        y.events = y.events[:nev] + [self.subev(ev, mp) for ev in y.events[nev:]]
        y.env = {k: self.sublv(v, mp) for k, v in y.env.items()}

    @staticmethod
    def sublv(lv, mp):
        root, path = lv
        if root[0] == "heap":
            root = ("heap", T.subst(root[1], mp))
        return root, tuple((k, T.subst(a, mp) if isinstance(a, tuple) else a) + tuple(r) for k, a, *r in path)

    def subev(self, ev, mp):
        return subevent(ev, mp)

    @staticmethod
    def subout(o, mp):
        return (o[0],) + tuple(T.subst(x, mp) if isinstance(x, tuple) else x for x in o[1:])

    def folds(self, st, e, coll, ch, accs, steps, go):
        """value of each modified variable after the whole collection"""
        out = {}
        texts = {}
        for c in ch:
            t = steps[c] and self.w.textstep(steps[c], accs[c])
            if t is not None and steps[c] != accs[c] and not occurs(t, [accs[c]]) and not any(steps[d] and d != c and occurs(steps[d], [accs[c]]) for d in ch):
                # text put together piece by piece
                b = ("acc", e, ("seq",), "text%d" % len(texts))
                T.TYPES[b] = ("seq", ())
                accs, steps = dict(accs), dict(steps)
                texts[c] = st.cells[c]
                accs[c], steps[c] = b, T.subst(t, {("var", "$text"): b})
        if texts:
            st = st.copy()
            for c in texts:
                st.cells[c] = ("seq",)
        allacc = set(accs.values())
        pend = sorted(ch, key=lambda c: c[1])
        for c in list(pend):
            a = accs[c]
            t = steps[c]
            if t is None:
                out[c] = st.cells[c]
                pend.remove(c)
                continue
            if not occurs(t, allacc - {a}):
                out[c] = self.fold1(e, coll, a, t, st.cells[c])
                pend.remove(c)
        for c in list(pend):
            # an array filled from its start, and the number of places filled so far
            for i in out:
                if steps[i] is not None and st.cells[i] == T.num(0) and self.w.fills:
                    t = self.fillstep(steps[c], steps[i], accs[c], accs[i])
                    if t is not None and not occurs(t, allacc - {("acc", e, ("seq",), "fill")}):
                        f = self.fold1(e, coll, ("acc", e, ("seq",), "fill"), t, ("seq",))
                        out[c] = app("filled", st.cells[c], f)
                        pend.remove(c)
                        break
        if pend:
            if coll[0] == "range" and coll[1] == T.num(0) and coll[2][0] == "card":
                tt = {c: self.desub(steps[c], coll[2][1], e) for c in pend}
                if all(t is not None for t in tt.values()):
                    steps, coll = dict(steps, **{}), coll[2][1]
                    steps.update(tt)
            order = sorted(pend, key=lambda c: (T.key(st.cells[c]), c[1]))
            inits = ("tuple",) + tuple(st.cells[c] for c in order)
            mp = {e: ("bv", "e", self.nloop)}
            tup = ("bv", "t", self.nloop)
            for i, c in enumerate(order):
                mp[accs[c]] = T.dot(tup, str(i))
            # values of the independent accumulators are folds of their own, unknown mid-loop
            for c in ch:
                if c not in order:
                    mp[accs[c]] = app("partial", out[c])
            body = T.subst(("tuple",) + tuple(steps[c] for c in order), mp)
            h, (bb,) = T.bind("compr", [("bv", "e", self.nloop), tup], [body])
            f = ("compr", "fold", h, ("pair", inits, coll), bb)
            for i, c in enumerate(order):
                v = T.dot(f, str(i))
                if self.kindof(st.cells[c]):
                    T.TYPES.setdefault(v, (self.kindof(st.cells[c]), ()))
                out[c] = v
        for c in texts:
            out[c] = self.w.text(texts[c], out[c])
        return out

    def fillstep(self, t, u, a, i):
        """the step of the sequence of values stored, when `a[i] = x; i++` happens together or not at all"""
        b = ("acc", a[1], ("seq",), "fill")
        if t == a and u == i:
            return b
        if t[0] == "mupd" and t[1] == a and t[2] == i and u == T.add(i, T.num(1)):
            return T.concat(b, ("seq", t[3]))
        if t[0] == "ite" and u[0] == "ite" and t[1] == u[1]:
            x, y = self.fillstep(t[2], u[2], a, i), self.fillstep(t[3], u[3], a, i)
            return x and y and ite(t[1], x, y)
        return None

    def fold1(self, e, coll, a, t, init):
        if t == a:
            return init
        if T.isbool(t) and occurs(t, [a]):
            t1, t0 = (T.dtree(T.subst(t, {a: v})) for v in (TRUE, FALSE))
            if t1 == TRUE:
                return mk_or(init, self.exin(e, coll, t0))
            if t0 == FALSE:
                return mk_and(init, self.allin(e, coll, t1))
        # flags
        if t == TRUE or t == FALSE:
            ne = mk_not(self.w.empty(coll))
            return mk_or(init, ne) if t == TRUE else mk_and(init, mk_not(ne))
        if T.isbool(t):
            if t[0] == "or" and a in t[1:]:
                rest = mk_or(*[x for x in t[1:] if x != a])
                if not occurs(rest, [a]):
                    return mk_or(init, self.exin(e, coll, rest))
            if t[0] == "and" and a in t[1:]:
                rest = mk_and(*[x for x in t[1:] if x != a])
                if not occurs(rest, [a]):
                    return mk_and(init, self.allin(e, coll, rest))
        start = init
        pre = None
        if self.appends(t, a):
            pre, start = init, ("seq",)
        ee, aa = ("bv", "e", self.nloop), ("bv", "a", self.nloop)
        if coll[0] == "range" and coll[1] == T.num(0) and coll[2][0] == "card":
            # an index loop that only looks at the elements is a loop over them
            s = coll[2][1]
            tt = self.desub(t, s, e)
            if tt is not None:
                t, coll = tt, s
        h, (bb,) = T.bind("compr", [ee, aa], [T.subst(t, {e: ee, a: aa})])
        f = ("compr", "fold", h, ("pair", start, coll), bb)
        if pre is not None:
            b0, b1 = ("b", h, 0), ("b", h, 1)
            if bb == T.concat(b1, ("seq", b0)):
                f = self.w.listof(coll, pre == ("seq",)) or f
            r = T.concat(pre, f)
            T.TYPES.setdefault(f, ("seq", ()))
            return r
        k = self.kindof(init)
        if k:
            T.TYPES.setdefault(f, (k, ()))
        return f

    def desub(self, t, s, e):
        ix = T.idx(s, e)
        m = ("var", "$elem")
        accs = [x for x in T.subterms(t) if x[0] == "acc" and x[1] == e]
        hide = {a: ("var", "$acc%d" % i) for i, a in enumerate(accs)}
        t2 = T.subst(T.subst(t, hide), {ix: m})
        if occurs(t2, [e]):
            return None
        return T.subst(T.subst(t2, {m: e}), {v: k for k, v in hide.items()})

    def appends(self, t, a):
        if t == a:
            return True
        if t[0] == "concat" and t[1] == a and not any(occurs(x, [a]) for x in t[2:]):
            return True
        if t[0] == "ite" and not occurs(t[1], [a]):
            return self.appends(t[2], a) and self.appends(t[3], a)
        return False

    def unroll(self, st, fr, pat, lit, body, orelse):
        cur = [st]
        out = []
        for v in lit:
            nxt = []
            for x in cur:
                for y, _ in self.bindpat(x, fr, pat, v):
                    for z, o in self.block(y, fr, body):
                        if o[0] in ("next", "continue"):
                            nxt.append(z)
                        elif o[0] == "break":
                            out.append((z, ("next",)))
                        else:
                            out.append((z, o))
            cur = nxt
            if len(cur) + len(out) > self.maxpaths:
                raise TooMany("loop over a literal")
        for x in cur:
            out += self.block(x, fr, orelse or [])
        return out

    def bindpat(self, st, fr, pat, v):
        """bind a name, a tuple of patterns, or an lvalue"""
        if pat[0] == "name":
            lv = v if v[0] == "$lv" else None
            if lv is not None:
                st.env[fr, pat[1]] = lv[1]
            else:
                st.env[fr, pat[1]] = (st.cell(v, pat[1]), ())
            return [(st, None)]
        if pat[0] == "tuple":
            for i, p in enumerate(pat[1]):
                (st, _), = self.bindpat(st, fr, p, self.w.component(v, i))
            return [(st, None)]
        if pat[0] == "wild":
            return [(st, None)]
        return self.assign(st, fr, pat, v)

    # ---- lvalues: (root, path)
    def lval(self, st, fr, x):
        """list of (state, (root, path)) or ('val', term) for a temporary"""
        k = x[0]
        if k == "name":
            lv = st.env.get((fr, x[1]))
            if lv is None:
                lv = self.w.global_lv(self, st, fr, x[1])
            if lv is None:
                return [(s, ("val", v) if v[0] != "$exit" else v) for s, v in self.e(st, fr, x)]
            return [(st, lv)]
        if k == "attr":
            ptr = len(x) > 3 and x[3]
            if ptr:
                out = []
                for s, b in self.e(st, fr, x[1]):
                    if b[0] == "$exit":
                        out.append((s, b))
                        continue
                    t = self.w.target(b)
                    if t is None:
                        out.append((s, (("heap", b), (("f", x[2]),))))
                    else:
                        out.append((s, t if x[2] == "*" else (t[0], t[1] + (("f", x[2]),))))
                return out
            out = []
            for s, lv in self.lval(st, fr, x[1]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                elif lv[0] == "val":
                    out.append((s, ("val", self.proj(s, lv[1], ("f", x[2])))))
                else:
                    out.append((s, (lv[0], lv[1] + (("f", x[2]),))))
            return out
        if k == "index":
            out = []
            for s, lv in self.lval(st, fr, x[1]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                    continue
                for s2, i in self.e(s, fr, x[2]):
                    if i[0] == "$exit":
                        out.append((s2, i))
                    elif lv[0] == "val":
                        out.append((s2, ("val", self.w.index(lv[1], i))))
                    else:
                        out.append((s2, (lv[0], lv[1] + (("i", i),))))
            return out
        if k == "deref":
            out = []
            for s, b in self.e(st, fr, x[1]):
                if b[0] == "$exit":
                    out.append((s, b))
                else:
                    out.append((s, self.w.target(b) or (("heap", b), ())))
            return out
        if k == "asg" or k == "asgop" or k == "incdec":
            out = []
            for s, v in self.e(st, fr, x):
                if v[0] == "$exit":
                    out.append((s, v))
                else:
                    out += self.lval(s, fr, x[2] if k == "asgop" else x[1])
            return out
        if k == "paren":
            return self.lval(st, fr, x[1])
        return [(s, ("val", v) if v[0] != "$exit" else v) for s, v in self.e(st, fr, x)]

    def read(self, st, lv):
        if lv[0] == "val":
            return lv[1]
        root, path = lv
        if root[0] == "cell":
            v = st.cells[root]
        else:
            b = root[1]
            if not path:
                return self.w.deref(self, st, b)
            if path[0][0] == "f":
                v = hread(st, b, path[0][1])
                path = path[1:]
            else:
                v = hread(st, b, "*")
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == "f":
            if self.w.isheap(v):
                return hread(st, v, p[1])
            return self.w.field(st, v, p[1])
        return self.w.index(v, p[1])

    def write(self, st, lv, v):
        root, path = lv
        if root[0] == "cell":
            st.cells[root] = self.upd(st, st.cells[root], path, v)
            return
        b = root[1]
        if not path:
            self.w.deref_write(self, st, b, v)
            return
        if path[0][0] == "f":
            f = path[0][1]
            old = hread(st, b, f) if len(path) > 1 else None
            hwrite(st, b, f, self.upd(st, old, path[1:], v) if len(path) > 1 else v)
        else:
            hwrite(st, b, "*", self.upd(st, hread(st, b, "*"), path, v))

    def upd(self, st, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == "f":
            if self.w.isheap(old):
                lv = (("heap", old), path)
                self.write(st, lv, v)
                return old
            return self.w.setfield(old, p[1], self.upd(st, self.proj(st, old, p), path[1:], v))
        return self.w.setindex(old, p[1], self.upd(st, self.w.index(old, p[1]), path[1:], v))

    def assign(self, st, fr, tg, v):
        """list of (state, None | exit)"""
        if tg[0] == "name":
            lv = st.env.get((fr, tg[1]))
            if lv is None:
                lv = self.w.global_target(self, st, fr, tg[1])
            if lv is None:
                st.env[fr, tg[1]] = (st.cell(v, tg[1]), ())
            elif self.w.rebinds and (fr, tg[1]) in st.mod:
                st.env[fr, tg[1]] = (st.cell(v, tg[1]), ())
                del st.mod[fr, tg[1]]
            else:
                self.write(st, lv, v)
            return [(st, None)]
        if tg[0] == "tuple":
            cur = [(st, None)]
            for i, t in enumerate(tg[1]):
                nx = []
                for s, o in cur:
                    nx += self.assign(s, fr, t, self.w.component(v, i)) if o is None else [(s, o)]
                cur = nx
            return cur
        if tg[0] == "wild":
            return [(st, None)]
        out = []
        for s, lv in self.lval(st, fr, tg):
            if lv[0] == "$exit":
                out.append((s, lv[1]))
            elif lv[0] == "val":
                # a place this analysis has no name for: the store itself is observed
                s.events.append(Ev("call", "store", (lv[1], v)))
                out.append((s, None))
            else:
                self.write(s, lv, v)
                out.append((s, None))
        return out

    # ---- expressions: list of (state, term)
    def pure(self, st, fr, x):
        rs = self.e(st, fr, x)
        if len(rs) != 1 or rs[0][1][0] == "$exit":
            raise Unsupported("expected a simple expression")
        return rs[0][1]

    def cond(self, st, fr, x):
        """truth value of x"""
        return [(s, v if v[0] == "$exit" else self.w.truth(v)) for s, v in self.e(st, fr, x, boolctx=True)]

    def es(self, st, fr, xs):
        cur = [(st, ())]
        out = []
        for x in xs:
            nx = []
            for s, vs in cur:
                for s2, v in self.e(s, fr, x):
                    if v[0] == "$exit":
                        out.append((s2, v))
                    else:
                        nx.append((s2, vs + (v,)))
            cur = nx
        return [(s, ("ok", vs)) for s, vs in cur] + [(s, v) for s, v in out]

    def e(self, st, fr, x, stmt=False, boolctx=False):
        self.steps += 1
        if self.steps > 60000:
            raise TooMany("analysis budget")
        k = x[0]
        if k == "term":
            return [(st, x[1])]
        if k == "int":
            return [(st, T.num(x[1]))]
        if k == "str":
            return [(st, ("str", x[1]))]
        if k == "bool":
            return [(st, ("bool", x[1]))]
        if k == "none":
            return [(st, NONE)]
        if k == "paren":
            return self.e(st, fr, x[1])
        if k == "name":
            lv = st.env.get((fr, x[1]))
            if lv is not None:
                return [(st, self.read(st, lv))]
            return [self.w.lookup(self, st, fr, x[1])]
        if k in ("attr", "index", "deref"):
            h = self.w.special(self, st, fr, x)
            if h is not None:
                return h
            return [(s, lv if lv[0] == "$exit" else self.read(s, lv)) for s, lv in self.lval(st, fr, x)]
        if k == "addr":
            out = []
            for s, lv in self.lval(st, fr, x[1]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                elif lv[0] == "val":
                    out.append((s, lv[1]))
                elif lv[0][0] == "heap" and not lv[1]:
                    out.append((s, lv[0][1]))
                else:
                    out.append((s, self.w.address(lv) or ("$ptr", lv)))
            return out
        if k in ("and", "or"):
            return self.shortcut(st, fr, x)
        if k == "not":
            return [(s, v if v[0] == "$exit" else mk_not(v)) for s, v in self.cond(st, fr, x[1])]
        if k == "cond":
            out = []
            for s, c in self.cond(st, fr, x[1]):
                if c[0] == "$exit":
                    out.append((s, c))
                    continue
                out += self.fork(s, c, lambda y: self.e(y, fr, x[2]), lambda y: self.e(y, fr, x[3]))
            return out
        if k in ("bin", "cmp", "un"):
            args = x[2:]
            out = []
            for s, vs in self.es(st, fr, args):
                if vs[0] == "$exit":
                    out.append((s, vs))
                else:
                    out.append((s, self.w.op(x[1], vs[1])))
            return out
        if k in ("list", "tuple", "set"):
            out = []
            for s, vs in self.es(st, fr, x[1]):
                if vs[0] == "$exit":
                    out.append((s, vs))
                elif k == "list":
                    out.append((s, ("seq",) + vs[1]))
                elif k == "tuple":
                    out.append((s, ("tuple",) + vs[1]))
                else:
                    out.append((s, T.mk_set(vs[1])))
            return out
        if k == "dict":
            flat = [y for p in x[1] for y in p]
            out = []
            for s, vs in self.es(st, fr, flat):
                if vs[0] == "$exit":
                    out.append((s, vs))
                else:
                    m = ("map",)
                    for i in range(0, len(flat), 2):
                        m = T.mk_map(list(m[1:]) + [(vs[1][i], vs[1][i + 1])])
                    out.append((s, m))
            return out
        if k == "struct":
            out = []
            for s, vs in self.es(st, fr, [y for _, y in x[2]]):
                if vs[0] == "$exit":
                    out.append((s, vs))
                else:
                    out.append((s, self.w.mkstruct(x[1], [n for n, _ in x[2]], vs[1])))
            return out
        if k == "asg":
            out = []
            rs = self.e(st, fr, x[2])
            for s, v in rs:
                if v[0] == "$exit":
                    out.append((s, v))
                else:
                    for s2, o in self.assign(s, fr, x[1], v):
                        out.append((s2, v if o is None else ("$exit", o)))
            return out
        if k == "asgop":
            out = []
            for s, lv in self.lval(st, fr, x[2]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                    continue
                for s2, v in self.e(s, fr, x[3]):
                    if v[0] == "$exit":
                        out.append((s2, v))
                        continue
                    ov = self.read(s2, lv)
                    nv = self.w.op(x[1], (ov, v))
                    if self.w.rebinds and x[2][0] == "name" and (fr, x[2][1]) in s2.mod and self.kindof(ov) not in ("seq", "set", "map"):
                        self.assign(s2, fr, x[2], nv)
                    elif lv[0] != "val":
                        self.write(s2, lv, nv)
                    out.append((s2, nv))
            return out
        if k == "incdec":
            # ('incdec', lvalue, +1/-1, prefix)
            out = []
            for s, lv in self.lval(st, fr, x[1]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                    continue
                o = self.read(s, lv)
                nv = self.w.op("+" if x[2] > 0 else "-", (o, T.num(1)))
                self.write(s, lv, nv)
                out.append((s, nv if x[3] else o))
            return out
        if k == "fmt":
            out = []
            for s, vs in self.es(st, fr, x[1]):
                out.append((s, vs) if vs[0] == "$exit" else (s, fmt(vs[1])))
            return out
        if k == "compr":
            return self.compr(st, fr, x)
        if k == "lambda":
            return [(st, ("closure", fr, x[1], x[2]) if not self.w.lamterm else self.w.lam(self, st, fr, x))]
        if k == "stmtexpr":
            # a block with a value: ('stmtexpr', stmts, expr or None)
            out = []
            for s, o in self.block(st, fr, x[1]):
                if o[0] != "next":
                    out.append((s, ("$exit", o)))
                elif x[2] is None:
                    out.append((s, ("tuple",)))
                else:
                    out += self.e(s, fr, x[2])
            return out
        if k == "exit":
            return [(s, ("$exit", o)) for s, o in self.stmt(st, fr, x[1])]
        if k == "matchx":
            tmp = "$m%d" % self.newframe()
            out = []
            arms = [(p, g, [("assign", [("name", tmp)], b)]) for p, g, b in x[2]]
            for s, o in self.s_match(st, fr, ("match", x[1], arms)):
                if o[0] != "next":
                    out.append((s, ("$exit", o)))
                else:
                    out.append((s, self.read(s, s.env[fr, tmp])))
            return self.mergevals(st, out)
        if k == "call":
            return self.w.call(self, st, fr, x, stmt)
        if k == "new":
            return self.w.new(self, st, fr, x)
        raise Unsupported("expression %s" % k)

    def mergevals(self, st, out):
        return out

    def shortcut(self, st, fr, x):
        op = x[0]
        out = []
        for s, a in self.e(st, fr, x[1]):
            if a[0] == "$exit":
                out.append((s, a))
                continue
            ta = self.w.truth(a)
            go = ta if op == "and" else mk_not(ta)
            # value semantics outside a condition
            if not T.isbool(a) and ta != a and self.w.valueand:
                out += self.fork(s, go, lambda y: self.e(y, fr, x[2]), lambda y: [(y, a)])
                continue
            stop = FALSE if op == "and" else TRUE
            out += self.fork(s, go, lambda y: [(z, v if v[0] == "$exit" else self.w.truth(v)) for z, v in self.e(y, fr, x[2])],
                             lambda y: [(y, stop)])
        return out

    def fork(self, s, c, fa, fb):
        """evaluate one of two expressions; a single value when neither has effects"""
        a, b = self.split(s.copy(), c)
        ra = fa(a) if a is not None else []
        rb = fb(b) if b is not None else []
        if len(ra) == 1 and len(rb) == 1 and ra[0][1][0] not in ("$exit", "$ptr") and rb[0][1][0] not in ("$exit", "$ptr"):
            x, y = ra[0][0], rb[0][0]
            if x.cells == y.cells and x.heap == y.heap and len(x.events) == len(y.events) == len(s.events) and x.occ == y.occ:
                fx = [f for f in x.facts if f not in s.factset and f not in self.cj(c)]
                fy = [f for f in y.facts if f not in s.factset and f not in self.cj(mk_not(c))]
                if not fx and not fy:
                    s.cells, s.heap, s.mod, s.n = x.cells, x.heap, x.mod, x.n
                    return [(s, ite(c, ra[0][1], rb[0][1]))]
        return ra + rb

    def compr(self, st, fr, x):
        """('compr', kind, elt, [(pat, coll, [conds])])"""
        _, kind, elt, gens = x
        acc = "$c%d" % self.newframe()
        if kind in ("any", "all"):
            init = ("bool", kind == "all")
            inner = [("if", elt if kind == "any" else ("not", elt), [("assign", [("name", acc)], ("bool", kind == "any"))], [])]
        elif kind == "list":
            init = ("list", [])
            inner = [("aug", "+", ("name", acc), ("list", [elt]))]
        elif kind == "set":
            init = ("set", [])
            inner = [("aug", "|", ("name", acc), ("set", [elt]))]
        elif kind == "dict":
            init = ("dict", [])
            inner = [("assign", [("index", ("name", acc), elt[0])], elt[1])]
        elif kind == "sum":
            init = ("int", 0)
            inner = [("aug", "+", ("name", acc), elt)]
        else:
            raise Unsupported("comprehension %s" % kind)
        for pat, coll, conds in reversed(gens):
            for c in reversed(conds):
                inner = [("if", c, inner, [])]
            inner = [("foreach", pat, coll, inner, [])]
        out = []
        for s, o in self.block(st, fr, [("assign", [("name", acc)], init)] + inner):
            if o[0] != "next":
                out.append((s, ("$exit", o)))
            else:
                out.append((s, self.read(s, s.env[fr, acc])))
        return out

    # ---- calls into the analysed program
    def inline(self, st, fn, args, this=None, reflvs=None):
        """list of (state, term); args are terms or ('$lv', lvalue)"""
        if len(self.stack) > MAXDEPTH:
            raise Unsupported("call depth")
        fr = self.newframe()
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else None
            if a is not None and p.get("star") and not (a[0] == "app" and a[1] == "*"):
                a = ("seq",) + tuple(self.read(st, x[1]) if x[0] == "$lv" else x for x in args[i:] if x is not None)
            if a is None:
                if p.get("default") is None:
                    if p.get("star"):
                        a = ("seq",) + tuple(x for x in args[i:] if x is not None)
                    else:
                        a = app("missing-argument", ("str", p["name"]))
                else:
                    a = self.pure(st, fr, p["default"])
            if a[0] == "$lv":
                st.env[fr, p["name"]] = a[1]
                st.mod[fr, p["name"]] = True
            else:
                st.env[fr, p["name"]] = (st.cell(self.w.coerce(a, p.get("type")), p["name"]), ())
        if this is not None:
            st.env[fr, "this"] = this[1] if this[0] == "$lv" else (st.cell(this, "this"), ())
        self.stack.append(fn)
        cells0 = list(st.cells)
        try:
            rs = self.block(st, fr, fn.body)
        finally:
            self.stack.pop()
        out = []
        for s, o in rs:
            for k in [k for k in s.env if k[0] == fr]:
                del s.env[k]
            if o[0] == "next":
                out.append((s, NONE))
            elif o[0] == "ret":
                out.append((s, self.w.coerce(o[1], getattr(fn, "rtype", None))))
            else:
                out.append((s, ("$exit", o)))
        if len(out) > 1:
            out = self.joinrets(cells0, out)
        return out

    def joinrets(self, cells0, out):
        """merge return paths that differ only in value"""
        ok = [(s, v) for s, v in out if v[0] not in ("$exit", "$ptr")]
        bad = [(s, v) for s, v in out if v[0] in ("$exit", "$ptr")]
        if len(ok) < 2:
            return out
        s0, v0 = ok[0]
        base = [f for f in s0.facts if all(f in s.factset for s, _ in ok)]
        bs = set(base)
        for s, v in ok[1:]:
            if len(s.events) != len(s0.events) or any(a is not b for a, b in zip(s.events, s0.events)) or s.heap != s0.heap or s.occ != s0.occ:
                return out
            for k in cells0:
                if s.cells[k] != s0.cells[k]:
                    return out
        conds = [mk_and(*[f for f in s.facts if f not in bs]) for s, _ in ok]
        if bad:
            return out
        # the conditions must be the alternatives of one decision
        r, _ = prove.entails(base, mk_or(*conds), budget=3000)
        if r is not True:
            return out
        v = ok[-1][1]
        for (s, x), c in reversed(list(zip(ok[:-1], conds[:-1]))):
            v = ite(c, x, v)
        m = s0
        m.facts = base
        m.factset = bs
        for s, _ in ok:
            for k, x in s.cells.items():
                m.cells.setdefault(k, x)
            m.n = max(m.n, s.n)
        return [(m, v)]

    def event(self, st, name, args, pure=False, res=True):
        if pure:
            return app(name, *args)
        k = (name, args)
        n = st.occ.get(k, 0)
        st.occ[k] = n + 1
        r = ("ret", name, args, n)
        st.events.append(Ev("call", name, args, r))
        return r


def fmt(vs):
    """a formatted string as a sequence of pieces"""
    out = []
    for v in vs:
        ps = v[2:] if v[0] == "app" and v[1] == "fmt" else (v,)
        for p in ps:
            if p == ("str", ""):
                continue
            if out and out[-1][0] == "str" and p[0] == "str":
                out[-1] = ("str", out[-1][1] + p[1])
            else:
                out.append(p)
    if not out:
        return ("str", "")
    if len(out) == 1 and out[0][0] == "str":
        return out[0]
    return app("fmt", *out)


# ------------------------------------------------------------------ comparison
def effects(p):
    """does a path do anything a caller could observe besides returning a value?"""
    if any(w[0] == "havoc" or not isobj(w[1]) for w in (p.writes if hasattr(p, "writes") else p.st.heap)):
        return True
    return any(e.kind != "loop" or any(effects(q) for q in e.sub) for e in p.events)


def choices(ts):
    """conditions of the choices in these terms"""
    out, st, seen = [], list(ts), set()
    while st:
        t = st.pop()
        if t and t not in seen:
            seen.add(t)
            if t[0] == "ite" and len(t) == 4 and t[1] not in out and not has_lv(t[1]):
                out.append(t[1])
            st += [x for x in t if isinstance(x, tuple)]
    return out


def choice(ps):
    """the condition of a choice that a path's facts speak of"""
    for p in ps:
        cs = choices(p.facts)
        if cs:
            return cs[0]
    return None


def has_lv(t):
    """does a condition have different values at different times: a loop's values, a bound variable's?"""
    return isinstance(t, tuple) and bool(t) and (t[0] in ("lv", "acc", "b", "bv") or t[0] == "hv" and len(t) > 3 and isinstance(t[3], str) and t[3][:1] == "L"
                                                 or any(has_lv(x) for x in t))


def splitpath(p, c):
    """the path, taken apart into the case in which c holds and the one in which it does not"""
    out = []
    no = mk_not(c)
    for val, fact, other in ((TRUE, c, no), (FALSE, no, c)):
        if other in p.facts:
            continue
        mp = {c: val, no: mk_not(val)}
        base = [fact] + [x for x in p.facts if not choices([x])]
        for d in choices(p.facts + [a for e in p.events for a in e.args])[:12]:
            if d not in mp:
                if not prove.consistent(base + [d], 4000):
                    mp[d], mp[mk_not(d)] = FALSE, TRUE
                elif not prove.consistent(base + [mk_not(d)], 4000):
                    mp[d], mp[mk_not(d)] = TRUE, FALSE
        q = Path(p.st, p.kind, T.subst(p.val, mp) if isinstance(p.val, tuple) else p.val, p.extra)
        q.facts = [x for x in [fact] + [T.subst(x, mp) for x in p.facts] if x != TRUE]
        if FALSE in q.facts:
            continue
        q.events = [subevent(e, mp) for e in p.events]
        q.st = p.st.copy()
        q.st.facts, q.st.factset, q.st.events = q.facts, set(q.facts), q.events
        q.st.cells = {k: T.subst(v, mp) for k, v in p.st.cells.items()}
        q.st.heap = [tuple(T.subst(z, mp) if isinstance(z, tuple) else z for z in w) for w in p.st.heap]
        q.st.env = {k: Exec.sublv(v, mp) for k, v in p.st.env.items()}
        out.append(q)
    return out


class Diff(Exception):
    pass


class Compare:
    """do two path summaries of one function behave alike?"""

    def __init__(self, world, observe=None, ignore=(), fields=None, globals_=None, budget=30000, unordered=(), raisekinds=True, ignoref=(), thorough=False):
        self.w = world
        self.observe, self.ignore, self.fields = observe, set(ignore), fields
        self.ignoref = set(ignoref)
        self.unordered = set(unordered)
        self.budget = budget * (4 if thorough else 1)
        self.obl = 0

    def deep(self, st, t, seen=()):
        """objects by class and fields instead of by identity"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "new" and len(t) == 3:
            if t in seen or len(seen) > 6:
                return ("new", t[1], "rec")
            fs = sorted({w[2] for w in st.heap if w[0] == "w" and w[1] == t})
            return ("ctor", "new " + str(t[1]), tuple((f, self.deep(st, hread(st, t, f), seen + (t,))) for f in fs if f not in self.ignoref), "flow.new")
        if t[0] == "$ptr":
            return app("&", self.lvterm(st, t[1]))
        if not any(isinstance(x, tuple) for x in t):
            return t
        if t[:2] == ("app", "&") and len(t) > 3 and t[2][0] == "new":
            # the address of a member says nothing about what is in it
            t = t[:2] + (("new", t[2][1], "rec"),) + t[3:]
        if t[0] == "ctor" and t[3] == "flow.new" and self.ignoref:
            t = (t[0], t[1], tuple((f, v) for f, v in t[2] if f not in self.ignoref), t[3])
        if t[0] in ("ctor", "recupd") and len(t) >= 3 and isinstance(t[2], tuple):
            fs = tuple((f, self.deep(st, v, seen)) for f, v in t[2])
            n = (t[0], t[1] if t[0] == "ctor" else self.deep(st, t[1], seen), fs) + t[3:]
            return T.rebuild(n, t) if n != t else t
        n = tuple(self.deep(st, x, seen) if isinstance(x, tuple) else x for x in t)
        return T.rebuild(n, t) if n != t else t

    def lvterm(self, st, lv):
        root, path = lv
        t = root[1] if root[0] == "heap" else st.cells.get(root, ("var", "?"))
        if root[0] == "heap":
            for p in path:
                t = T.dot(t, p[1]) if p[0] == "f" else T.idx(t, p[1])
            return t
        for p in path:
            t = T.dot(t, p[1]) if p[0] == "f" else T.idx(t, p[1])
        return t

    def must(self, facts, a, b, what):
        self.obl += 1
        if a == b:
            return
        g = self.w.eq(a, b)
        r, w = prove.entails(facts, g, budget=self.budget)
        if r is not True:
            raise Diff("%s is %s, where %s is required" % (what, T.show(a)[:240], T.show(b)[:240]))

    def evs(self, evs, facts=()):
        out = []
        for e in evs:
            if e.kind == "loop":
                if facts and e.name == "each" and self.w.empty(e.args[0]) in facts:
                    continue
                if e.name != "each" or any(self.evs(p.events) or self.wr(p.writes) for p in e.sub):
                    out.append(e)
                continue
            if e.name in self.ignore or (self.observe is not None and e.name not in self.observe):
                continue
            if e.name in self.w.writers and out and out[-1].kind == "call" and out[-1].name == e.name and len(e.args) == len(out[-1].args) > 0 \
                    and out[-1].args[:-1] == e.args[:-1]:
                # text written in pieces
                out[-1] = Ev("call", e.name, e.args[:-1] + (self.w.joined([out[-1].args[-1], e.args[-1]]),), e.res)
                continue
            out.append(e)
        return out

    def texts(self, evs):
        """a loop that only writes a piece of text each time writes the joined pieces"""
        out = []
        for e in evs:
            if e.kind == "loop" and e.name == "each":
                t = None
                at = None
                x, a = e.args[1], ("acc", e.args[1], ("seq",), "out")
                for q in e.sub:
                    es = self.texts(self.evs(q.events))
                    if q.kind != "iterate" or self.wr(q.writes) or len(es) > 1 or es and (es[0].kind != "call" or es[0].name not in self.w.writers):
                        break
                    v = a
                    if es:
                        w = (es[0].name, es[0].args[:-1])
                        if at not in (None, w) or occurs(("tuple",) + w[1], [x]):
                            break
                        at = w
                        v = T.concat(a, ("seq", self.w.joined([es[0].args[-1]])))
                    t = v if t is None else ite(mk_and(*q.facts), v, t)
                else:
                    if at is not None and not [y for y in T.subterms(t) if y[0] == "acc" and y[1] == x and y != a]:
                        h, (bb,) = T.bind("compr", [("bv", "e", 0), ("bv", "a", 0)], [T.subst(T.subst(T.dtree(t), {a: ("bv", "a", 0)}), {x: ("bv", "e", 0)})])
                        g = self.w.jointext(("compr", "fold", h, ("pair", ("seq",), e.args[0]), bb))
                        e = Ev("call", at[0], at[1] + (self.w.joined([g]),), None)
            if e.kind == "call" and e.name in self.w.writers and out and out[-1].kind == "call" and out[-1].name == e.name \
                    and len(e.args) == len(out[-1].args) > 0 and out[-1].args[:-1] == e.args[:-1]:
                e = Ev("call", e.name, e.args[:-1] + (self.w.joined([out.pop().args[-1], e.args[-1]]),), e.res)
            out.append(e)
        return out

    def wr(self, ws):
        return [w for w in ws if (w[1] if w[0] == "havoc" else w[2]) not in self.ignoref
                and (self.fields is None or (w[1] if w[0] == "havoc" else w[2]) in self.fields)]

    def paths(self, ps, rs, what="", facts=(), depth=2):
        """every pair of compatible paths agrees; raises Diff"""
        try:
            self.paths1(ps, rs, what, facts)
        except Diff:
            # a value chosen by a condition, on which later decisions depend: take the two cases apart
            c = choice(ps) or choice(rs)
            if what or not depth or c is None or len(ps) + len(rs) > 60:
                raise
            p2, r2 = [q for p in ps for q in splitpath(p, c)], [q for r in rs for q in splitpath(r, c)]
            try:
                self.paths(p2, r2, what, facts, depth - 1)
            except Diff:
                p2 = None
            if p2 is None:
                raise

    def paths1(self, ps, rs, what, facts):
        for p in ps:
            hit = False
            for r in rs:
                f = list(facts) + [x for x in p.facts] + [x for x in r.facts]
                if p is not r and not self.compatible(f, p, r):
                    continue
                hit = True
                try:
                    self.pair(f, p, r)
                except Diff as d:
                    raise Diff("on the path [%s]: %s" % (" && ".join(T.show(x)[:int(__import__("os").environ.get("FW", "80"))] for x in p.facts[-6:]), d))
            if not hit and rs is not ps:
                if prove.consistent(list(facts) + list(p.facts), self.budget):
                    raise Diff("a path with no counterpart: %s" % p.show()[:300])

    def compatible(self, f, p, r):
        fs = set(f)
        for x in r.facts:
            if mk_not(x) in fs:
                return False
        if set(p.facts) == set(r.facts):
            return True
        return prove.consistent(f, self.budget)

    def pair(self, f, p, r):
        if p.kind != r.kind:
            raise Diff("leaves by %s%s, where %s%s is required" % (p.kind, " " + T.show(p.val)[:60] if p.val is not None else "",
                                                                  r.kind, " " + T.show(r.val)[:60] if r.val is not None else ""))
        fs = set(f)
        pe, re_ = self.evs(p.events, fs), self.evs(r.events, fs)
        try:
            self.events(f, p, r, pe, re_)
        except Diff as d0:
            pt, rt = self.texts(pe), self.texts(re_)
            if len(pt) == len(pe) and len(rt) == len(re_) and all(x is y for x, y in zip(pt + rt, pe + re_)):
                raise
            try:
                self.events(f, p, r, pt, rt)
            except Diff:
                raise d0
        if p.kind == "return":
            self.must(f, self.deep(p.st, p.val), self.deep(r.st, r.val), "the result")
        elif p.kind in ("raise", "exit") and self.w.cmpexit and p.val is not None and r.val is not None:
            self.must(f, p.val, r.val, "the " + p.kind)
        if p.kind == "return" or p.kind == "iterate":
            self.state(f, p, r)
        if p.kind == "iterate":
            inv = {}
            for k, v in r.base.items():
                inv[v] = r.extra[k]
            for k, v in p.base.items():
                if v in inv:
                    self.must(f, self.deep(p.st, p.extra[k]), self.deep(r.st, inv[v]), "the next value of %s" % k[2])

    def events(self, f, p, r, pe, re_):
        if self.unordered:
            def order(es):
                return [e for e in es if e.name not in self.unordered] + sorted(
                    [e for e in es if e.name in self.unordered], key=lambda e: (e.name, T.key(e.args)))
            pe, re_ = order(pe), order(re_)
        for i in range(max(len(pe), len(re_))):
            a = pe[i] if i < len(pe) else None
            b = re_[i] if i < len(re_) else None
            if a is None:
                raise Diff("missing: %s" % b.show()[:200])
            if b is None:
                raise Diff("additional: %s" % a.show()[:200])
            if a.kind != b.kind or (a.kind == "call" and a.name != b.name):
                raise Diff("does %s, where %s is required" % (a.show()[:160], b.show()[:160]))
            if a.kind == "loop":
                self.loopev(f, p, r, a, b)
                continue
            if len(a.args) != len(b.args):
                raise Diff("does %s, where %s is required" % (a.show()[:160], b.show()[:160]))
            for k, (x, y) in enumerate(zip(a.args, b.args)):
                self.must(f, self.deep(p.st, x), self.deep(r.st, y), "argument %d of %s" % (k + 1, a.name))

    def loopev(self, f, p, r, a, b):
        if a.name != b.name:
            raise Diff("does %s, where %s is required" % (a.show()[:160], b.show()[:160]))
        mp = {}
        if a.name == "each":
            self.must(f, self.deep(p.st, a.args[0]), self.deep(r.st, b.args[0]), "the collection looped over")
            mp = {b.args[1]: a.args[1]}
        sub = [subpath(q, mp) for q in b.sub]
        for lid in {getattr(q, "lid", None) for q in a.sub + sub} - {None}:
            # what holds after the loop says nothing about its passes
            f = [x for x in f if not ofloop(x, lid)]
        extra = [self.w.inside(a.args[1], a.args[0])] if a.name == "each" else []
        if a.name != "each":
            for its in (a.sub, sub):
                for lid in {getattr(q, "lid", None) for q in its} - {None}:
                    f = f + self.bounds(f, its, lid)
        self.paths(a.sub, sub, "loop", list(f) + extra)
        if a.name != "each":
            self.leaves(f, p.facts, a.sub, r.facts, sub, False)
            self.leaves(f, r.facts, sub, p.facts, a.sub, True)

    def bounds(self, f, its, lid):
        """a counter that goes up by one while it differs from (or is below) a bound never passes that bound"""
        out = []
        for x, (z, d) in counters(its, lid).items():
            if d != ("int", 1) or x[0] != "lv":
                continue
            cand = []
            for t in its[0].facts:
                if t[0] == "not" and t[1][0] == "eq" and x in t[1][1:]:
                    cand += [y for y in t[1][1:] if y != x]
                elif t[0] == "ge0" and t[1][0] == "lin" and dict(t[1][2]).get(x) == -1:
                    cand.append(T.add(T.add(t[1], x), T.num(1)))
            for b in cand:
                if ofloop(b, lid):
                    continue
                if all(mk_not(self.w.eq(x, b)) in q.facts or prove.entails(list(q.facts), T.lt(x, b), budget=self.budget)[0] is True for q in its) \
                        and prove.entails(list(f), T.le(z, b), budget=self.budget)[0] is True:
                    out.append(T.le(x, b))
        return out

    def leaves(self, f, mine, its, other, oits, swap):
        """no pass of one loop is taken in a state in which the other loop is left"""
        for lid in {getattr(q, "lid", None) for q in its + oits} - {None}:
            out = [x for x in other if ofloop(x, lid)]
            if not out:
                continue
            seen = loopterms(mine, lid)
            for q in its:
                seen |= loopterms(q.facts, lid) | {v for v in q.base.values() if v[0] == "lv"}
            inv = []
            if not loopterms(out, lid) <= seen:
                # the loops count differently: only what both count pass by pass is compared
                cm, co = counters(its, lid), counters(oits, lid)
                linked = lambda v, c: v in c or T.card(v) in c
                new = loopterms(out, lid) - seen
                if not all(linked(v, co) for v in new):
                    continue
                fixed = all(co.get(v, (v, v))[0][0] == "int" for v in new) and not any(unknowns(t, new) for t in out)
                shared = {v for q in oits for v in q.base.values()}
                if not all(linked(v, cm) or fixed and v in shared for q in its for v in loopterms(q.facts, lid)):
                    continue
                n = ("var", "$passes " + lid)
                inv = [T.le(T.num(0), n)]
                for x, (z, d) in list(cm.items()) + list(co.items()):
                    inv.append(self.w.eq(x, T.add(z, T.mul(d, n))))
            for q in its:
                self.obl += 1
                fs = list(f) + list(q.facts) + out + inv
                if any(mk_not(x) in q.facts for x in out):
                    continue
                if prove.consistent(fs, self.budget):
                    raise Diff("the loop is %s when [%s]" % ("left, although another pass is required," if swap else "not left, as is required,",
                                                             " && ".join(T.show(x)[:80] for x in (q.facts + out)[-6:])))

    def state(self, f, p, r):
        """the same fields and globals end with the same values"""
        keys = []
        for q in (p, r):
            ws = q.writes if q.kind == "iterate" else q.st.heap
            for w in self.wr(ws):
                if w[0] == "w" and (not isobj(w[1]) or q.kind == "iterate" and w[1][2] <= q.n0) and (w[1], w[2]) not in keys:
                    keys.append((w[1], w[2]))
                if w[0] == "havoc":
                    continue
        for b, fld in keys:
            x, y = hread(p.st, b, fld), hread(r.st, b, fld)
            self.must(f, self.deep(p.st, x), self.deep(r.st, y), "%s.%s" % (T.show(b)[:60], fld))
        if p.kind == "return":
            po = {k[2]: (p.st.cells[k], k) for k in p.st.old}
            ro = {k[2]: (r.st.cells[k], k) for k in r.st.old}
            for q, mine, other in ((p, p.st.old, ro), (r, r.st.old, po)):
                pass
            for (k1, v1), (k2, v2) in zip(sorted(self.outs(p).items()), sorted(self.outs(r).items())):
                if k1 == k2:
                    self.must(f, self.deep(p.st, v1), self.deep(r.st, v2), "the final value of %s" % k1)
            for k in set(self.outs(p)) ^ set(self.outs(r)):
                q = p if k in self.outs(p) else r
                v, o = self.outs(q)[k], ("var", k)
                self.must(f, self.deep(q.st, v), o, "the final value of %s" % k)

    def outs(self, p):
        return self.w.outcells(p.st)
