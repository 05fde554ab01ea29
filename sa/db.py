"""Program database: files, modules, name resolution, and the lowering of raw
trees to normalised terms (term.py) for both Dafny and Verus sources."""
import os
import re
import subprocess
from . import dafny, rust, term as T
from .term import (TRUE, FALSE, mk_and, mk_or, mk_not, implies, iff, ite, eq, dot, num)

REPO = os.environ.get("SA_REPO", "/repo")


class Missing(Exception):
    """an anchor the rules need is not there (reported as a violation)"""


class Unsupported(Exception):
    pass


def ptype(s):
    """'map<K, V>' -> ('map', [('K',[]), ('V',[])])"""
    if s is None:
        return None
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(" ", 1)[-1]
        if s.startswith("mut "):
            s = s[4:]
    if s.startswith("mut") and s[3:4].isupper():
        s = s[3:]
    if s.startswith("("):
        return ("tuple", tuple(x for x in map(ptype, split_top(s[1:-1]))))
    i = s.find("<")
    if i < 0:
        return (s, ())
    j = s.rfind(">")
    return (s[:i], tuple(map(ptype, split_top(s[i + 1:j]))))


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


class Prog:
    """All sources of one language, loaded on demand."""

    def __init__(self, lang):
        self.lang = lang
        self.files = {}
        self.closure_cache = {}
        self.rs_loaded = False
        self.stats = {"files": set(), "decls": set(), "obligations": 0}

    # ---------- loading
    def load(self, f):
        f = os.path.normpath(f)
        d = self.files.get(f)
        if d is None:
            p = os.path.join(REPO, f)
            if not os.path.isfile(p):
                raise Missing("file %s is missing" % f)
            with open(p, encoding="utf-8", errors="replace") as fh:
                src = fh.read()
            d = (dafny if self.lang == "dfy" else rust).parse(src, f)
            self.files[f] = d
            self.stats["files"].add(f)
            if self.lang == "dfy":
                d.inc = [os.path.normpath(os.path.join(os.path.dirname(f), i)) for i, _ in d.includes]
            self._register(d)
        return d

    def load_rs(self):
        if self.rs_loaded:
            return
        self.rs_loaded = True
        root = os.path.join(REPO, "Splinter/src")
        for dp, dn, fn in os.walk(root):
            dn.sort()
            if any(x in dp for x in ("model-exp", "resource-experiment", "/example")):
                continue
            for n in sorted(fn):
                p = os.path.join(dp, n)
                if n.endswith(".rs") and os.path.isfile(p):
                    self.load(os.path.relpath(p, REPO))
        self.fnidx, self.tyidx = {}, {}
        for d in self.files.values():
            self._rs_index(d)

    def _rs_index(self, d):
        for m in d.members:
            if m.kind in ("spec", "proof", "exec", "const"):
                self.fnidx.setdefault(m.name, []).append(m)
            elif m.kind in ("struct", "enum", "sm", "trait", "type"):
                self.tyidx.setdefault(m.name, []).append(m)
            if m.kind in ("impl", "sm", "trait", "module"):
                self._rs_index(m)

    def _register(self, d):
        for m in d.members:
            if m.kind in ("datatype", "struct", "enum"):
                k = self.tkey(m)
                T.OWN[k] = [(c, tuple(f for f, _ in fs)) for c, fs in m.ctors]
            if m.members:
                self._register(m)

    def tkey(self, m):
        """key of a datatype declaration"""
        p = m.parent
        n = m.name
        while p is not None and p.kind != "file":
            n = p.name + "." + n
            p = p.parent
        if self.lang == "rs" and m.file:
            # several source files declare types of the same name
            n = m.file.rsplit(".", 1)[0].replace(".", "_") + "." + n
        return n

    # ---------- Dafny resolution
    def closure(self, f):
        f = os.path.normpath(f)
        if f in self.closure_cache:
            return self.closure_cache[f]
        seen, order, st = set(), [], [f]
        while st:
            x = st.pop(0)
            if x in seen:
                continue
            seen.add(x)
            try:
                d = self.load(x)
            except Missing:
                continue
            order.append(x)
            st += d.inc
        self.closure_cache[f] = order
        return order

    def module(self, f, name):
        """a module called `name` visible from file f"""
        base = name.split("(")[0]
        if self.lang == "dfy":
            for x in self.closure(f):
                for m in self.load(x).members:
                    if m.kind == "module" and m.name == base:
                        return m
        return None

    def find(self, f, qn):
        """declaration by file and dotted name"""
        d = self.load(f)
        cur = [d]
        for part in qn.split("."):
            nxt = []
            for c in cur:
                for m in c.members:
                    if m.name == part and m.kind not in ("import", "export", "use"):
                        nxt.append(m)
            if not nxt:
                raise Missing("%s: declaration %s is missing" % (f, qn))
            cur = nxt
        pick = [m for m in cur if m.body is not None] or cur
        return pick[0]

    @staticmethod
    def modof(d):
        while d is not None and d.kind not in ("module", "file", "sm"):
            d = d.parent
        return d

    @staticmethod
    def typeof_ctx(d):
        while d is not None and d.kind not in ("datatype", "class", "impl", "trait", "type"):
            d = d.parent
        return d

    def lookup(self, ctx, name, depth=0, opened=True):
        """resolve a simple name in Dafny module scope -> ('mod',m)|('decl',d)|('ctor',dt,name)|None"""
        m = self.modof(ctx)
        while m is not None:
            r = self._in_module(m, name, depth, opened)
            if r:
                return r
            if m.kind == "file":
                break
            p = m.parent
            m = self.modof(p) if p is not None else None
        # a global module
        if self.lang == "dfy" and ctx.file:
            g = self.module(ctx.file, name)
            if g is not None:
                return ("mod", g)
        return None

    def _in_module(self, m, name, depth, opened=True):
        for x in m.members:
            if x.kind == "module" and x.name == name:
                return ("mod", x)
            if x.kind in ("datatype", "class", "type", "const", "function", "predicate", "lemma", "method") and x.name == name:
                return ("decl", x)
            if x.kind == "import" and x.name == name:
                t = self.modpath(m, x.extra, skip=x)
                if t is not None:
                    return ("mod", t)
        for x in m.members:
            if x.kind == "datatype":
                for c, _ in x.ctors:
                    if c == name:
                        return ("ctor", x, c)
        if m.kind == "module" and m.refines and depth < 8:
            b = self.modpath(m, m.refines)
            if b is not None and b is not m:
                r = self._in_module(b, name, depth + 1, opened)
                if r:
                    return r
        if opened and depth < 8:
            for x in m.members:
                if x.kind == "import" and "opened" in x.mods:
                    t = self.modpath(m, x.extra, skip=x)
                    if t is not None and t is not m:
                        r = self._in_module(t, name, depth + 1, False)
                        if r:
                            return r
        return None

    def modpath(self, ctx, path, skip=None):
        path = path.split("(")[0]
        parts = path.split(".")
        m = None
        # alias in ctx (but not the import itself)
        c = ctx
        while c is not None and m is None:
            if c.kind == "module" or c.kind == "file":
                for x in c.members:
                    if x is skip:
                        continue
                    if x.kind == "module" and x.name == parts[0]:
                        m = x
                        break
                    if x.kind == "import" and x.name == parts[0] and x.extra != parts[0]:
                        m = self.modpath(c, x.extra, skip=x)
                        break
                if m is None and c.kind == "module" and c.refines and c.refines.split("(")[0] != path:
                    b = self.modpath(c.parent, c.refines)
                    if b is not None and b is not c:
                        for x in b.members:
                            if x.kind == "import" and x.name == parts[0]:
                                m = self.modpath(b, x.extra, skip=x)
                                break
            c = c.parent
        if m is None:
            m = self.module(ctx.file, parts[0])
        for p in parts[1:]:
            if m is None:
                return None
            r = self._in_module(m, p, 0)
            m = r[1] if r and r[0] == "mod" else None
        return m

    # ---------- Rust resolution
    def rs_pick(self, cands, ctx):
        if not cands:
            return None
        if len(cands) == 1:
            return cands[0]
        f = ctx.file if ctx is not None else None
        # nearest scope first
        c = ctx
        while c is not None:
            for d in cands:
                if d.parent is c:
                    return d
            c = c.parent
        same = [d for d in cands if d.file == f]
        if len(same) == 1:
            return same[0]
        if f:
            for u in self.load(f).members:
                if u.kind == "use":
                    for d in cands:
                        modn = os.path.basename(d.file)[:-3]
                        if "::" + modn + "::" in u.name:
                            return d
        return same[0] if same else None

    def rs_type(self, name, ctx, depth=0):
        """type declaration named by path"""
        name = name.split("<")[0]
        if depth > 8:
            return None
        if name in ("Self", "Self::State"):
            c = ctx
            while c is not None and c.kind not in ("impl", "trait", "sm", "struct", "enum"):
                c = c.parent
            if c is None:
                return None
            if c.kind == "impl":
                return self.rs_type(c.type.split("<")[0], c.parent, depth + 1)
            if c.kind == "sm":
                for m in c.members:
                    if m.kind == "struct" and m.name == "State":
                        return m
            return c
        parts = [p for p in name.split("::") if p not in ("crate", "self", "super")]
        if len(parts) > 1:
            o = self.rs_pick([d for d in self.tyidx.get(parts[-2], []) if d.kind == "sm"], ctx)
            if o is not None:
                for m in o.members:
                    if m.name == parts[-1] and m.kind in ("struct", "enum"):
                        return m
        cs = self.tyidx.get(parts[-1], [])
        if len(parts) > 1:
            cs = [d for d in cs if os.path.basename(d.file)[:-3] == parts[-2]] or cs
        d = self.rs_pick(cs, ctx)
        if d is not None and d.kind == "type" and d.type:
            t = ptype(d.type)
            if t[0] in COLL:
                return d
            r = self.rs_type(t[0], d, depth + 1)
            return r if r is not None and r is not d else d
        return d


class Env(dict):
    pass


COLL = {"map", "imap", "set", "iset", "seq", "multiset", "Map", "IMap", "Set", "ISet", "Seq", "Multiset", "Vec", "string"}
DROPCAST = T.NUMT - {"uint8", "u8", "byte", "uint16", "u16", "uint32", "u32", "i32", "int32"}
RS_IDENT = {"clone", "to_owned", "borrow", "as_ref", "view", "as_slice", "get", "into", "deref", "to_vec", "borrow_mut"}


def tite(c, a, b):
    """choice of a typed language: both branches have the type of one of them"""
    for x, y in ((a, b), (b, a)):
        if T.isbool(x) and not T.isbool(y) and y[0] == "app":
            T.TYPES.setdefault(y, ("bool", ()))
    return ite(c, a, b)


class Low:
    """lowering context"""

    def __init__(self, prog, opaque=(), maxdepth=40, inline=True, keep=None):
        self.p = prog
        self.keep = keep or (lambda d: False)
        self.opaque = set(opaque)
        self.stack = []
        self.maxdepth = maxdepth
        self.inline = inline
        self.used = set()

    # ---------- types
    def rtype(self, s, ctx):
        """type string -> resolved (key,args)"""
        t = ptype(s) if isinstance(s, str) else s
        return self._rt(t, ctx)

    def _rt(self, t, ctx, d=0):
        if t is None:
            return None
        n, a = t
        if self.p.lang == "rs" and n in ("Tracked", "Ghost", "Box", "Rc", "Arc") and a:
            return self._rt(a[0], ctx)
        if d > 6:
            return (n, ())
        a = tuple(self._rt(x, ctx, d + 1) for x in a)
        if n in COLL or n in T.NUMT or n in ("bool", "tuple"):
            return (n, a)
        if self.p.lang == "dfy":
            parts = n.split(".")
            r = None
            m = ctx
            if len(parts) > 1:
                mm = self.p.modpath(self.p.modof(ctx), ".".join(parts[:-1]))
                r = self.p._in_module(mm, parts[-1], 0) if mm is not None else None
            elif ctx is not None:
                r = self.p.lookup(ctx, n)
            if r and r[0] == "decl":
                dd = r[1]
                if dd.kind == "datatype":
                    return (self.p.tkey(dd), a)
                if dd.kind == "type" and dd.type and d < 10:
                    return self._rt(ptype(dd.type), dd, d + 1)
            return (n, a)
        dd = self.p.rs_type(n, ctx)
        if dd is not None and dd.kind in ("struct", "enum"):
            return (self.p.tkey(dd), a)
        if dd is not None and dd.kind == "type" and dd.type and d < 10:
            return self._rt(ptype(dd.type), dd, d + 1)
        if n in ("Option",):
            T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
        if n in ("Result",):
            T.OWN.setdefault("Result", [("Ok", ("0",)), ("Err", ("0",))])
        return (n, a)

    def settype(self, t, ty):
        if ty is not None and t[0] not in ("int", "bool", "b"):
            T.TYPES.setdefault(t, ty)
        return t

    def tdecl(self, ty):
        """datatype declaration of a resolved type"""
        if ty is None:
            return None
        return self._tdecls().get(ty[0])

    def _tdecls(self):
        n = len(self.p.files)
        if getattr(self, "_td_n", None) != n:
            self._td_n = n
            self._td = {}

            def go(d):
                for m in d.members:
                    if m.kind in ("datatype", "struct", "enum"):
                        self._td.setdefault(self.p.tkey(m), m)
                    go(m)
            for d in self.p.files.values():
                go(d)
        return self._td

    def fieldtype(self, ty, f):
        d = self.tdecl(ty)
        if d is None:
            if ty and ty[0] == "Option" and f in ("0", "value") and ty[1]:
                return ty[1][0]
            return None
        for c, fs in d.ctors:
            for n, t in fs:
                if n == f:
                    pt = ptype(t)
                    r = self._rt(pt, d)
                    # substitute type parameters
                    if d.tparams and ty[1] and len(d.tparams) == len(ty[1]):
                        m = dict(zip(d.tparams, ty[1]))

                        def sb(x):
                            if x is None:
                                return None
                            if x[0] in m and not x[1]:
                                return m[x[0]]
                            return (x[0], tuple(sb(y) for y in x[1]))
                        r = sb(r)
                    return r
        return None

    # ---------- entry points
    def pred(self, decl, names=None):
        """body of a function/predicate over its formals renamed to `names`"""
        if decl.body is None:
            raise Missing("%s: %s has no analysable body%s" % (decl.file, decl.qname(), " (%s)" % decl.err if decl.err else ""))
        self.used.add((decl.file, decl.qname()))
        env = self.formals(decl, names)
        self.stack.append(decl)
        try:
            return self.body(decl, env)
        finally:
            self.stack.pop()

    def formals(self, decl, names=None):
        ps = list(decl.params)
        if names is not None and len(names) != len(ps):
            raise Missing("%s: %s takes %d parameters, the rule expects %d" % (decl.file, decl.qname(), len(ps), len(names)))
        env = {}
        for i, (n, ty, m) in enumerate(ps):
            nn = names[i] if names else n
            v = ("var", nn)
            self.settype(v, self.rtype(ty, decl))
            env[n] = v
            if names:
                env.setdefault(nn, v)
        c = self.p.typeof_ctx(decl.parent) if decl.parent is not None else None
        if c is not None and c.kind == "datatype" and "static" not in decl.mods:
            v = ("var", "this")
            self.settype(v, (self.p.tkey(c), tuple((x, ()) for x in c.tparams)))
            env["this"] = v
        return env

    def ref(self, text, decl, names=None, env=None):
        """a reference formula written in the source language, read in decl's scope"""
        ps = (dafny if self.p.lang == "dfy" else rust).Parser(text, "<rule>")
        if self.p.lang == "rs" and "{" not in text:
            pass
        raw = ps.insemi() if self.p.lang == "dfy" else ps.expr()
        if ps.c.k != "eof":
            raise Unsupported("rule text not fully read at %r: %s" % (ps.c.s, text))
        if env is None:
            env = self.formals(decl, names)
        return self.e(raw, env, decl)

    def body(self, decl, env):
        if decl.bodykind == "expr":
            return self.e(decl.body, env, decl)
        if decl.bodykind == "blockx":
            return self.e(decl.body, env, decl)
        raise Unsupported("%s: %s body kind" % (decl.file, decl.qname()))

    # ---------- expressions
    def e(self, x, env, ctx):
        f = getattr(self, "x_" + x[0].replace("@", "at"), None)
        if f is None:
            return ("app", "raw:" + x[0])
        return f(x, env, ctx)

    def ty(self, t):
        return T.TYPES.get(t)

    def x_int(self, x, env, ctx):
        return num(x[1])

    def x_bool(self, x, env, ctx):
        return ("bool", x[1])

    def x_str(self, x, env, ctx):
        return ("str", x[1])

    def x_lit(self, x, env, ctx):
        return ("str", x[1])

    def x_star(self, x, env, ctx):
        return T.fresh("star")

    def x_old(self, x, env, ctx):
        return self.e(x[1], {k: self.oldterm(v) for k, v in env.items()}, ctx)

    def oldterm(self, v):
        m = {}
        for s in T.subterms(v):
            if s[0] == "var" and not s[1].startswith("old "):
                n = ("var", "old " + s[1])
                self.settype(n, self.ty(s))
                m[s] = n
        return T.subst(v, m)

    def x_id(self, x, env, ctx):
        n = x[1]
        if n in env:
            return env[n]
        if self.p.lang == "rs":
            return self.rs_id(n, env, ctx)
        if "this" in env:
            th = env["this"]
            d = self.tdecl(self.ty(th))
            if d is not None:
                for c, fs in d.ctors:
                    if any(fn == n for fn, _ in fs):
                        return self.fld(th, n)
                if n.endswith("?") and any(c == n[:-1] for c, _ in d.ctors):
                    return T.mk_is(th, n[:-1], self.p.tkey(d))
                for m in d.members:
                    if m.name == n and m.kind == "const" and m.body is not None:
                        return self.e(m.body, {"this": th}, m)
        r = self.p.lookup(ctx, n)
        return self.named(r, n, ctx)

    def named(self, r, n, ctx):
        if r is None:
            return ("var", n)
        if r[0] == "ctor":
            return self.mkctor(r[1], r[2], [])
        if r[0] == "decl":
            d = r[1]
            if d.kind == "datatype" and any(c == d.name and not fs for c, fs in d.ctors):
                return self.mkctor(d, d.name, [])
            if d.kind == "const":
                if d.body is not None and d.name not in self.opaque and len(self.stack) < self.maxdepth and d not in self.stack:
                    self.stack.append(d)
                    try:
                        return self.e(d.body, {}, d)
                    finally:
                        self.stack.pop()
                t = ("app", d.qname())
                return self.settype(t, self.rtype(d.type, d))
            return ("app", d.qname() + "#ref")
        return ("var", n)

    def mkctor(self, dt, c, args):
        """args: terms positional"""
        own = self.p.tkey(dt)
        for cn, fs in dt.ctors:
            if cn == c:
                if len(args) != len(fs):
                    return ("app", "ctor:" + c) + tuple(args)
                t = T.ctor(c, [(f, a) for (f, _), a in zip(fs, args)], own)
                return self.settype(t, (own, ()))
        return ("app", "ctor:" + c) + tuple(args)

    def fld(self, b, n):
        t = dot(b, n)
        bt = self.ty(b)
        if t[0] == "dot" and t not in T.TYPES:
            ft = self.fieldtype(bt, n) if bt else None
            if ft is None and bt is None:
                ft = self.uniq_field(n)
            self.settype(t, ft)
        return t

    def uniq_field(self, n):
        return None

    def path(self, x):
        """dotted identifier path or None"""
        if x[0] == "id":
            return [x[1]]
        if x[0] == "dot":
            p = self.path(x[1])
            return p + [x[2]] if p else None
        return None

    def respath(self, p, env, ctx):
        """resolve a dotted path whose head is not a variable; returns resolution or None"""
        if not p or p[0] in env:
            return None
        r = self.p.lookup(ctx, p[0])
        for n in p[1:]:
            if r is None:
                return None
            if r[0] == "mod":
                r = self.p._in_module(r[1], n, 0, False)
            elif r[0] == "decl" and r[1].kind in ("datatype", "class", "type"):
                d = r[1]
                if d.kind == "type" and d.type:
                    rr = self.p.lookup(d, ptype(d.type)[0])
                    if rr and rr[0] == "decl":
                        d = rr[1]
                nr = None
                for c, _ in d.ctors:
                    if c == n:
                        nr = ("ctor", d, c)
                if nr is None:
                    for m in d.members:
                        if m.name == n:
                            nr = ("decl", m)
                r = nr
            else:
                return None
        return r

    def x_dot(self, x, env, ctx):
        n = x[2]
        if self.p.lang == "dfy":
            p = self.path(x)
            if p and p[0] not in env and not ("this" in env and self.is_this_field(env, p[0])):
                r = self.respath(p, env, ctx)
                if r is not None:
                    if r[0] == "decl" and r[1].kind not in ("const",):
                        return ("app", r[1].qname() + "#ref")
                    return self.named(r, n, ctx)
        b = self.e(x[1], env, ctx)
        if n == "@":
            if b[0] == "app" and b[1] in ("Tracked", "Ghost"):
                return b[2]
            bt = self.ty(b)
            d = self.method(bt, "view")
            if d is not None and d.body is not None and "view" not in self.opaque and self.inline and not self.keep(d) and d not in self.stack:
                return self.inline_fn(d, [b])
            return ("app", "view", b)
        if self.p.lang == "dfy" and n.endswith("?") and not (self.ty(b) and self.has_field(self.ty(b), n)):
            return T.mk_is(b, n[:-1], self.owner_of(b, n[:-1], ctx))
        if self.p.lang == "dfy" and n in ("Keys", "Values", "Items") and not self.has_field(self.ty(b), n):
            return T.dom(b) if n == "Keys" else ("app", n, b)
        if self.p.lang == "dfy" and n == "Length":
            return self.settype(("card", b), ("int", ()))
        if self.p.lang == "dfy":
            d = self.tdecl(self.ty(b))
            if d is not None:
                for m in d.members:
                    if m.name == n and m.kind == "const" and m.body is not None:
                        return self.e(m.body, {"this": b}, m)
        if self.p.lang == "rs" and n[:1].isupper():
            # x->Ctor_field names the field of one constructor
            m = re.match(r"[A-Z][A-Za-z0-9]*_(\w+)$", n)
            if m and not (self.ty(b) and self.has_field(self.ty(b), n)):
                n = m.group(1)
        return self.fld(b, n)

    def is_this_field(self, env, n):
        d = self.tdecl(self.ty(env["this"]))
        return d is not None and any(f == n for c, fs in d.ctors for f, _ in fs)

    def has_field(self, ty, n):
        d = self.tdecl(ty)
        return d is not None and any(f == n for c, fs in d.ctors for f, _ in fs)

    def owner_of(self, t, c, ctx):
        ty = self.ty(t)
        if ty and ty[0] in T.OWN and any(k == c for k, _ in T.OWN[ty[0]]):
            return ty[0]
        r = None
        if self.p.lang == "dfy" and ctx is not None:
            r = self.p.lookup(ctx, c)
            if r and r[0] == "ctor":
                return self.p.tkey(r[1])
        c2 = [k for k, cs in T.OWN.items() if any(n == c for n, _ in cs)]
        if len(c2) == 1:
            return c2[0]
        return "?"

    # calls ---------------------------------------------------------------
    def x_call(self, x, env, ctx):
        f, args = x[1], x[2]
        if self.p.lang == "rs":
            return self.rs_call(x, env, ctx)
        if f[0] == "dot" or f[0] == "id":
            p = self.path(f)
            if f[0] == "id" and f[1] in env:
                return self.apply(env[f[1]], [self.e(a, env, ctx) for a in args])
            isthis = p and "this" in env and p[0] not in env and (self.is_this_field(env, p[0]))
            if f[0] == "id" and "this" in env and not isthis:
                d = self.tdecl(self.ty(env["this"]))
                if d is not None:
                    for m in d.members:
                        if m.name == f[1] and m.kind in ("function", "predicate", "lemma"):
                            return self.callfn(m, [self.e(a, env, ctx) for a in args],
                                               None if "static" in m.mods else env["this"], ctx)
            if p and p[0] not in env and not isthis:
                r = self.respath(p, env, ctx)
                if r is not None:
                    av = [self.e(a, env, ctx) for a in args]
                    if r[0] == "ctor":
                        return self.mkctor(r[1], r[2], av)
                    if r[0] == "decl" and r[1].kind in ("function", "predicate", "method", "lemma"):
                        return self.callfn(r[1], av, None, ctx)
                    if r[0] == "decl" and r[1].kind == "type" and r[1].type:
                        rr = self.p.lookup(r[1], ptype(r[1].type)[0])
                        r = rr if rr else r
                    if r[0] == "decl" and r[1].kind == "datatype" and any(c == r[1].name for c, _ in r[1].ctors):
                        return self.mkctor(r[1], r[1].name, av)
                    return ("app", ".".join(p)) + tuple(av)
                if len(p) == 1:
                    return ("app", p[0]) + tuple(self.e(a, env, ctx) for a in args)
            if f[0] == "dot":
                b = self.e(f[1], env, ctx)
                av = [self.e(a, env, ctx) for a in args]
                d = self.tdecl(self.ty(b))
                if d is not None:
                    for m in d.members:
                        if m.name == f[2] and m.kind in ("function", "predicate", "lemma"):
                            return self.callfn(m, av, b, ctx)
                    if any(fn == f[2] for c, fs in d.ctors for fn, _ in fs):
                        return self.apply(self.fld(b, f[2]), av)
                return ("app", "." + f[2], b) + tuple(av)
        b = self.e(f, env, ctx)
        return self.apply(b, [self.e(a, env, ctx) for a in args])

    def apply(self, f, args):
        if f[0] == "lamx" and len(args) == f[2]:
            return T.subst(f[3], {("b", f[1], i): a for i, a in enumerate(args)})
        return ("app", "@", f) + tuple(args)

    def callfn(self, d, args, this, ctx):
        pv = [this] if this is not None else []
        if (d.body is None or d.kind in ("method", "lemma") or d.name in self.opaque or d.qname() in self.opaque
                or not self.inline or self.keep(d) or d in self.stack or len(self.stack) > self.maxdepth
                or len(args) != len(d.params) or d.bodykind == "stmt"):
            t = ("app", d.qname()) + tuple(pv) + tuple(args)
            if d.rets:
                if d.kind == "predicate":
                    T.TYPES.setdefault(t, ("bool", ()))
                elif len(d.rets) == 1:
                    self.settype(t, self.rtype(d.rets[0][1], d))
            return t
        return self.inline_fn(d, args, this)

    def inline_fn(self, d, args, this=None):
        self.used.add((d.file, d.qname()))
        env = {}
        for (n, ty, m), a in zip(d.params, args):
            if a not in T.TYPES:
                self.settype(a, self.rtype(ty, d))
            env[n] = a
        if this is not None:
            env["this"] = this
        self.stack.append(d)
        try:
            t = self.body(d, env)
        finally:
            self.stack.pop()
        if d.rets and t not in T.TYPES and len(d.rets) == 1 and t[0] not in ("int", "bool", "var", "bv", "b"):
            rt = self.rtype(d.rets[0][1], d)
            if rt is not None and rt[0] not in d.tparams:
                self.settype(t, rt)
        return t

    # other expressions ---------------------------------------------------
    def x_un(self, x, env, ctx):
        a = self.e(x[2], env, ctx)
        if x[1] == "!":
            return mk_not(a)
        return T.mul(num(-1), a)

    def x_deref(self, x, env, ctx):
        return self.e(x[1], env, ctx)

    def x_inout(self, x, env, ctx):
        return self.e(x[1], env, ctx)

    def x_inoutx(self, x, env, ctx):
        return self.e(x[1], env, ctx)

    def x_try(self, x, env, ctx):
        return ("app", "try", self.e(x[1], env, ctx))

    def x_bin(self, x, env, ctx):
        op = x[1]
        if op in ("&&", "==>"):
            a, b, env2 = self.guarded(x[2], env, ctx)
            r = self.e(x[3], env2, ctx)
            return mk_and(a, r) if op == "&&" else implies(a, r)
        a = self.e(x[2], env, ctx)
        b = self.e(x[3], env, ctx)
        return self.binop(op, a, b)

    def guarded(self, c, env, ctx):
        """condition that may bind names (iflet / matches / && chains)"""
        if c[0] in ("iflet",):
            s = self.e(c[2], env, ctx)
            t, b = self.pat(c[1], s, ctx)
            e2 = dict(env)
            e2.update(b)
            return t, None, e2
        if c[0] == "matches":
            s = self.e(c[1], env, ctx)
            t, b = self.pat(c[2], s, ctx)
            e2 = dict(env)
            e2.update(b)
            return t, None, e2
        if c[0] == "bin" and c[1] == "&&":
            a, _, e1 = self.guarded(c[2], env, ctx)
            b, _, e2 = self.guarded(c[3], e1, ctx)
            return mk_and(a, b), None, e2
        return self.e(c, env, ctx), None, env

    def binop(self, op, a, b):
        if op == "||":
            return mk_or(a, b)
        if op == "<==>":
            return iff(a, b)
        if op in ("==", "==#"):
            return eq(a, b)
        if op in ("!=", "!=#"):
            return mk_not(eq(a, b))
        ta, tb = self.ty(a), self.ty(b)
        coll = (ta and ta[0] in COLL) or (tb and tb[0] in COLL) or a[0] in CT or b[0] in CT
        if op in ("<", "<=", ">", ">="):
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
                ta, tb = tb, ta
            if coll:
                k = ta or tb or ("?",)
                if k[0] in ("seq", "Seq") or "seq" in (a[0], b[0]):
                    return ("app", "prefix" + op, a, b)
                return ("app", "subset" + op, a, b)
            return T.le(a, b) if op == "<=" else T.lt(a, b)
        if op == "in":
            return T.mk_in(a, b)
        if op == "!in":
            return mk_not(T.mk_in(a, b))
        if op == "!!":
            return ("app", "disjoint") + T.srt([a, b])
        if op == "+":
            if T.numeric(a) or T.numeric(b):
                return self.settype(T.add(a, b), ("int", ()))
            k = (ta or tb or ("?",))[0]
            if k in ("set", "iset", "Set", "ISet", "multiset", "Multiset") or a[0] in ("set", "union") or b[0] in ("set", "union"):
                r = T.union(a, b) if k not in ("multiset", "Multiset") else T.msplus(a, b)
            else:
                r = T.concat(a, b)
            return self.settype(r, ta or tb)
        if op == "-":
            if coll:
                return self.settype(("diff", a, b), ta or tb)
            return self.settype(T.sub(a, b), ("int", ()))
        if op == "*":
            if coll:
                return self.settype(("inter",) + T.srt([a, b]), ta or tb)
            return T.mul(a, b)
        if op in ("/", "%"):
            if a[0] == "int" and b[0] == "int" and b[1] > 0:
                return num(a[1] // b[1] if op == "/" else a[1] % b[1])
            return ("app", op, a, b)
        if op in ("&", "|", "^"):
            return ("app", op) + T.srt([a, b])
        return ("app", op, a, b)

    def x_if(self, x, env, ctx):
        if x[1][0] == "bindguard":
            vs = [n for n, _ in x[1][1]]
            env2 = dict(env)
            bvs = []
            for n, ty in x[1][1]:
                b = T.fresh()
                self.settype(b, self.rtype(ty, ctx))
                env2[n] = b
                bvs.append(b)
            p = self.e(x[1][2], env2, ctx)
            h, (pp,) = T.bind("choose", bvs, [p])
            ch = ("choose", h, pp)
            exq = T.quant("ex", bvs, p)
            env3 = dict(env)
            for i, n in enumerate(vs):
                env3[n] = ch if len(vs) == 1 else ("dot", ch, str(i))
            return tite(exq, self.e(x[2], env3, ctx), self.e(x[3], env, ctx))
        c, _, env2 = self.guarded(x[1], env, ctx)
        a = self.e(x[2], env2, ctx)
        b = self.e(x[3], env, ctx) if x[3] is not None else ("tuple",)
        return tite(c, a, b)

    def x_match(self, x, env, ctx):
        s = self.e(x[1], env, ctx)
        out = None
        rows = []
        for case in x[2]:
            p, b = case[0], case[1]
            t, bd = self.pat(p, s, ctx)
            env2 = dict(env)
            env2.update(bd)
            if len(case) > 2:
                t = mk_and(t, self.e(case[2], env2, ctx))
            rows.append((t, self.e(b, env2, ctx)))
        for t, b in reversed(rows):
            out = b if out is None else tite(t, b, out)
        return out

    def pat(self, p, s, ctx):
        k = p[0]
        if k in ("pwild", "prest"):
            return TRUE, {}
        if k == "prange":
            return ("app", "inrange", s), {}
        if k == "plit":
            v = p[1]
            if v == "true":
                return s if T.isbool(s) else eq(s, TRUE), {}
            if v == "false":
                return mk_not(s), {}
            if v[0].isdigit():
                return eq(s, num(int(v.rstrip("uisze") if not v.startswith("0x") else v, 0) if not v.startswith("0x") else int(v, 16))), {}
            return eq(s, ("str", v)), {}
        if k == "pvar":
            n = p[1]
            if n == "_":
                return TRUE, {}
            if self.p.lang == "dfy":
                dt = self.patctor(n, s, ctx)
                if dt is not None and not [1 for c, fs in dt.ctors if c == n and fs]:
                    return T.mk_is(s, n, self.p.tkey(dt)), {}
            return TRUE, {n: s}
        if k == "pat@":
            t, b = self.pat(p[2], s, ctx)
            b = dict(b)
            b[p[1]] = s
            return t, b
        if k == "ptuple":
            t, b = TRUE, {}
            for i, q in enumerate(p[1]):
                tt, bb = self.pat(q, dot(s, str(i)), ctx)
                t = mk_and(t, tt)
                b.update(bb)
            return t, b
        if k == "por":
            return mk_or(*[self.pat(q, s, ctx)[0] for q in p[1]]), self.pat(p[1][0], s, ctx)[1]
        if k in ("pctor", "pstruct"):
            n = p[1].split("::")[-1]
            dt = self.patctor(p[1], s, ctx)
            own = self.p.tkey(dt) if dt is not None else self.owner_of(s, n, ctx)
            fields = None
            for c, fs in T.OWN.get(own, []):
                if c == n:
                    fields = fs
            if own in T.OWN and self.ty(s) is None and s[0] != "ctor":
                self.settype(s, (own, ()))
            t, b = T.mk_is(s, n, own), {}
            if k == "pctor":
                subs = p[2]
                for i, q in enumerate(subs):
                    f = fields[i] if fields and i < len(fields) else str(i)
                    tt, bb = self.pat(q, self.fld(s, f), ctx)
                    t = mk_and(t, tt)
                    b.update(bb)
            else:
                for f, q in p[2]:
                    tt, bb = self.pat(q, self.fld(s, f), ctx)
                    t = mk_and(t, tt)
                    b.update(bb)
            return t, b
        raise Unsupported("pattern %r" % (p,))

    def patctor(self, n, s, ctx):
        if self.p.lang == "rs":
            parts = n.split("::")
            if len(parts) > 1:
                d = self.p.rs_type("::".join(parts[:-1]), ctx)
                if d is not None and any(c == parts[-1] for c, _ in d.ctors):
                    return d
            d = self.tdecl(self.ty(s))
            if d is not None and any(c == parts[-1] for c, _ in d.ctors):
                return d
            d = self.p.rs_type(n, ctx)
            if d is not None and d.kind == "struct":
                return d
            return None
        d = self.tdecl(self.ty(s))
        if d is not None:
            return d if any(c == n for c, _ in d.ctors) else None
        r = self.p.lookup(ctx, n) if ctx is not None else None
        if r and r[0] == "ctor":
            return r[1]
        return None

    def x_let(self, x, env, ctx):
        env2 = dict(env)
        if len(x[1]) == len(x[2]):
            for p, v in zip(x[1], x[2]):
                s = self.e(v, env, ctx)
                if p[0] == "pvar":
                    env2[p[1]] = s
                else:
                    t, b = self.pat(p, s, ctx)
                    env2.update(b)
        return self.e(x[3], env2, ctx)

    def x_choose(self, x, env, ctx):
        env2 = dict(env)
        bvs = []
        for n in x[1]:
            b = T.fresh()
            env2[n] = b
            bvs.append(b)
        p = self.e(x[2], env2, ctx)
        h, (pp,) = T.bind("choose", bvs, [p])
        ch = ("choose", h, pp)
        env3 = dict(env)
        for i, n in enumerate(x[1]):
            env3[n] = ch if len(bvs) == 1 else ("dot", ch, str(i))
        return self.e(x[3], env3, ctx)

    def x_chooseq(self, x, env, ctx):
        env2, bvs = self.binders(x[1], env, ctx)
        p = self.e(x[2], env2, ctx)
        h, (pp,) = T.bind("choose", bvs, [p])
        return ("choose", h, pp)

    def binders(self, vs, env, ctx):
        env2 = dict(env)
        bvs = []
        for n, ty in vs:
            b = T.fresh()
            if isinstance(n, tuple):    # tuple pattern binder
                t, bd = self.pat(n, b, ctx)
                env2.update(bd)
                bvs.append(b)
                continue
            self.settype(b, self.rtype(ty, ctx))
            env2[n] = b
            bvs.append(b)
        return env2, bvs

    def x_quant(self, x, env, ctx):
        env2, bvs = self.binders(x[2], env, ctx)
        a = TRUE
        e3 = env2
        if x[3] is not None:
            a, _, e3 = self.guarded(x[3], env2, ctx)
        b = self.e(x[4], e3, ctx)
        a, b, bvs = self.byindex(a, b, bvs, x[1] == "forall")
        if x[1] == "forall":
            return T.quant("all", bvs, implies(a, b))
        return T.quant("ex", bvs, mk_and(a, b))

    def byindex(self, a, b, bvs, fa):
        """quantification over the elements of a sequence is quantification over its indices"""
        if len(bvs) != 1 or T.numeric(bvs[0]):
            return a, b, bvs
        v = bvs[0]
        cs = a[1:] if a[0] == "and" else (a,)
        if fa:
            cs += tuple(c[1] for c in (b[1:] if b[0] == "or" else (b,)) if c[0] == "not")
        else:
            cs += b[1:] if b[0] == "and" else (b,)
        for c in cs:
            if c[0] == "in" and c[1] == v and (T.TYPES.get(c[2]) or ("",))[0] in ("Seq", "seq") and not T.free_bvs(c[2], [v]):
                i = self.settype(T.fresh(), ("int", ()))
                m = {c: mk_and(T.le(T.num(0), i), T.lt(i, T.card(c[2]))), v: T.idx(c[2], i)}
                if v in T.TYPES:
                    self.settype(m[v], T.TYPES[v])
                return T.subst(a, m), T.subst(b, m), [i]
        return a, b, bvs

    def x_compr(self, x, env, ctx):
        kind, vs = x[1], x[2]
        env2, bvs = self.binders(vs, env, ctx)
        r, _, e3 = self.guarded(x[3], env2, ctx) if x[3] is not None else (TRUE, None, env2)
        if kind == "map2":
            k = self.e(x[4][1][0], e3, ctx)
            v = self.e(x[4][1][1], e3, ctx)
            h, (rr, kk, vv) = T.bind("compr", bvs, [r, k, v])
            return ("compr", "map2", h, rr, ("tuple", kk, vv))
        if kind == "set" and x[4] is None:
            if len(bvs) == 1:
                h, (rr, bb) = T.bind("compr", bvs, [r, bvs[0]])
                return self.settype(("compr", "set", h, rr, bb), ("set", ()))
            body = ("tuple",) + tuple(bvs)
        else:
            body = self.e(x[4], e3, ctx)
        if kind == "set" and body != bvs[0]:
            h, (rr, bb) = T.bind("compr", bvs, [r, body])
            return self.settype(("compr", "setm", h, rr, bb), ("set", ()))
        h, (rr, bb) = T.bind("compr", bvs, [r, body])
        return self.settype(("compr", kind, h, rr, bb), (kind, ()))

    def x_lam(self, x, env, ctx):
        vs = [(n, None) for n in x[1]]
        env2, bvs = self.binders(vs, env, ctx)
        b = self.e(x[2], env2, ctx)
        h, (bb,) = T.bind("lam", bvs, [b])
        return ("lamx", h, len(bvs), bb)

    def x_tuple(self, x, env, ctx):
        return ("tuple",) + tuple(self.e(a, env, ctx) for a in x[1])

    def x_setlit(self, x, env, ctx):
        k = x[1]
        es = [self.e(a, env, ctx) for a in x[2]]
        if k == "multiset":
            return self.settype(("app", "msetlit") + T.srt(es), ("multiset", ()))
        return self.settype(T.mk_set(es), ("set", ()))

    def x_seqlit(self, x, env, ctx):
        return self.settype(("seq",) + tuple(self.e(a, env, ctx) for a in x[1]), ("seq", ()))

    def x_maplit(self, x, env, ctx):
        return self.settype(T.mk_map([(self.e(a, env, ctx), self.e(b, env, ctx)) for a, b in x[1]]), ("map", ()))

    def x_card(self, x, env, ctx):
        return T.card(self.e(x[1], env, ctx))

    def x_as(self, x, env, ctx):
        a = self.e(x[1], env, ctx)
        t = ptype(x[2])
        n = t[0].split(".")[-1]
        if n in T.NUMT and n not in DROPCAST:
            at = self.ty(a)
            if a[0] == "int" or at and at[0] == n:
                return a
            return self.settype(("app", "cast", ("str", n), a), (n, ()))
        if n in T.NUMT and a not in T.TYPES:
            self.settype(a, (n, ()))
        return a

    def x_is(self, x, env, ctx):
        a = self.e(x[1], env, ctx)
        c = x[2].split("::")[-1]
        return T.mk_is(a, c, self.owner_of(a, c, ctx))

    def x_matches(self, x, env, ctx):
        s = self.e(x[1], env, ctx)
        return self.pat(x[2], s, ctx)[0]

    def x_iflet(self, x, env, ctx):
        s = self.e(x[2], env, ctx)
        return self.pat(x[1], s, ctx)[0]

    def x_seqx(self, x, env, ctx):
        return self.e(x[2], env, ctx)

    def x_new(self, x, env, ctx):
        return ("app", "new:" + x[1]) + tuple(self.e(a, env, ctx) for a in x[2])

    def x_idx(self, x, env, ctx):
        b = self.e(x[1], env, ctx)
        if len(x[2]) != 1:
            return ("app", "multi-index", b) + tuple(self.e(a, env, ctx) for a in x[2])
        k = self.e(x[2][0], env, ctx)
        d = self.method(self.ty(b), "spec_index") if self.p.lang == "rs" else None
        if d is not None and d.body is not None:
            if not self.inline or self.keep(d) or d in self.stack:
                return ("app", self.rs_name(d), b, k)
            return self.inline_fn(d, [b, k])
        return T.idx(b, k)

    def x_slice(self, x, env, ctx):
        b = self.e(x[1], env, ctx)
        lo = self.e(x[2], env, ctx) if x[2] is not None else None
        hi = self.e(x[3], env, ctx) if x[3] is not None else None
        return T.slice_(b, lo, hi)

    def x_upd(self, x, env, ctx):
        return T.mupd(self.e(x[1], env, ctx), self.e(x[2], env, ctx), self.e(x[3], env, ctx))

    def x_recupd(self, x, env, ctx):
        return T.recupd(self.e(x[1], env, ctx), tuple((f, self.e(v, env, ctx)) for f, v in x[2]))

    def x_opaque(self, x, env, ctx):
        return ("app", "opaque:" + str(x[1]))

    # ---------- Rust specifics
    def method(self, ty, name):
        if ty is None or self.p.lang != "rs":
            return None
        tn = ty[0].split(".")
        tn = tn[-2] if tn[-1] == "State" and len(tn) > 1 else tn[-1]
        c = [d for d in self.p.fnidx.get(name, []) if d.parent.kind in ("impl", "sm") and d.parent.name == tn
             and d.params and d.params[0][0] == "self"]
        if len(c) > 1:
            # several types share the name: the impl of the type meant here
            dd = self.tdecl(ty)
            if dd is not None:
                if dd.parent is not None and dd.parent.kind == "sm":
                    c2 = [d for d in c if d.parent is dd.parent] or [d for d in c if self.implof(d.parent) is dd]
                else:
                    c2 = [d for d in c if self.implof(d.parent) is dd]
                c = c2 or c
        if not c:
            # an inherent method on `type A = tn<..>`
            al = {a for a, ds in self.p.tyidx.items() for x in ds if x.kind == "type" and x.type
                  and re.sub(r"<.*", "", x.type.replace(" ", "")).split("::")[-1] == tn}
            c = [d for d in self.p.fnidx.get(name, []) if d.parent.kind == "impl" and d.parent.name in al
                 and d.params and d.params[0][0] == "self"]
            if len(c) > 1:
                return None
        if len(c) > 1:
            # prefer the impl of the exact type / no trait
            c2 = [d for d in c if d.body is not None]
            c = c2 or c
        return c[0] if c else None

    def implof(self, im):
        """the type declaration an impl block is for"""
        if im.kind != "impl" or not im.type:
            return im
        return self.p.rs_type(im.type.split("<")[0], im.parent)

    def rs_id(self, n, env, ctx):
        parts = n.split("::")
        last = parts[-1]
        if last == "None":
            T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
            return T.ctor("None", [], "Option")
        if len(parts) > 1:
            d = self.p.rs_type("::".join(parts[:-1]), ctx)
            if d is not None and d.kind in ("enum", "struct") and any(c == last and not fs for c, fs in d.ctors):
                return self.mkctor(d, last, [])
            if parts[-2] in ("u64", "u32", "usize", "u8", "u16") and last == "MAX":
                return num({"u64": 2**64, "usize": 2**64, "u32": 2**32, "u16": 2**16, "u8": 256}[parts[-2]] - 1)
        c = [d for d in self.p.fnidx.get(last, []) if d.kind == "const"]
        if len(parts) > 1:
            c = [d for d in c if d.parent.kind in ("impl", "trait")] or c
        d = self.p.rs_pick(c, ctx)
        if d is not None and d.body is not None and last not in self.opaque:
            return self.e(d.body, {}, d)
        st = self.p.rs_type(n, ctx)
        if st is not None and st.kind == "struct" and st.ctors and not st.ctors[0][1]:
            return self.mkctor(st, st.name, [])
        return ("var", n)

    def x_struct(self, x, env, ctx):
        _, n, fs, base = x
        parts = n.split("::")
        d = None
        c = parts[-1]
        if len(parts) > 1:
            o = self.p.rs_type("::".join(parts[:-1]), ctx)
            if o is not None and o.kind in ("enum",) and any(k == c for k, _ in o.ctors):
                d = o
        if d is None:
            d = self.p.rs_type(n, ctx)
            if d is not None and d.kind == "struct":
                c = d.ctors[0][0]
            elif d is None or not any(k == c for k, _ in d.ctors):
                d = None
        if d is None:
            cands = [k for k, cs in T.OWN.items() if any(cn == c for cn, _ in cs)]
            if len(cands) == 1:
                d = self._tdecls().get(cands[0])
        vals = {f: self.e(v, env, ctx) for f, v in fs}
        b = self.e(base, env, ctx) if base is not None else None
        if d is None:
            return ("app", "struct:" + n) + tuple(("tuple", ("str", f), v) for f, v in sorted(vals.items()))
        own = self.p.tkey(d)
        for cn, ff in d.ctors:
            if cn == c:
                out = []
                for f, t in ff:
                    if f in vals:
                        out.append((f, vals[f]))
                    elif b is not None:
                        out.append((f, self.fld(b, f)))
                    else:
                        out.append((f, ("app", "missing:" + f)))
                return self.settype(T.ctor(c, out, own), (own, ()))
        raise Unsupported("struct %s" % n)

    def rs_call(self, x, env, ctx):
        f, args = x[1], x[2]
        if f[0] == "id":
            n = f[1]
            if n in env:
                return self.apply(env[n], [self.e(a, env, ctx) for a in args])
            if n == "old" and len(args) == 1:
                return self.x_old(("old", args[0]), env, ctx)
            parts = n.split("::")
            last = parts[-1]
            if last == "Some" and len(args) == 1:
                a = self.e(args[0], env, ctx)
                T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
                return T.ctor("Some", [("0", a)], "Option")
            if last in ("Tracked", "Ghost", "Box", "Rc", "Arc") and len(args) == 1 or n in ("Box::new", "Rc::new", "Arc::new"):
                return self.e(args[0], env, ctx)
            if len(parts) > 1 and parts[-2].split("<")[0] in ("Map", "IMap", "Set", "ISet", "Seq", "Multiset", "Vec"):
                return self.rs_coll(parts[-2].split("<")[0], last, args, env, ctx)
            av = [self.e(a, env, ctx) for a in args]
            # constructors
            if len(parts) > 1:
                o = self.p.rs_type("::".join(parts[:-1]), ctx)
                if o is not None and o.kind in ("enum", "struct"):
                    if any(c == last for c, _ in o.ctors) and last[0].isupper():
                        return self.mkctor(o, last, av)
                sm = self.p.rs_pick([d for d in self.p.tyidx.get(parts[-2], []) if d.kind == "sm"] or
                                    ([d for d in self.p.tyidx.get(parts[-3], []) if d.kind == "sm"] if len(parts) > 2 and parts[-2] in ("State", "Step") else []), ctx)
                if sm is None and parts[-2] == "Self" or parts[-2] == "State" and sm is None:
                    c = ctx
                    while c is not None and c.kind != "sm":
                        c = c.parent
                    sm = c
                if sm is not None:
                    for m in sm.members:
                        if m.name == last and m.kind == "spec":
                            return self.rs_callfn(m, av, ctx)
                    return ("app", "%s::%s" % (sm.name, last)) + tuple(av)
                if o is not None:
                    c = [d for d in self.p.fnidx.get(last, []) if d.parent.kind in ("impl", "trait") and d.parent.name == o.name]
                    d = self.p.rs_pick(c, ctx) or (c[0] if c else None)
                    if d is not None:
                        return self.rs_callfn(d, av, ctx)
                if parts[-2] == "Self":
                    c = ctx
                    while c is not None and c.kind not in ("impl", "trait"):
                        c = c.parent
                    if c is not None:
                        for m in c.members:
                            if m.name == last:
                                return self.rs_callfn(m, av, ctx)
                fc = [d for d in self.p.fnidx.get(last, []) if d.parent.kind == "file" or d.parent.kind == "module"]
                if parts[-2][0].islower():
                    d = self.p.rs_pick(fc, ctx)
                    if d is not None:
                        return self.rs_callfn(d, av, ctx)
                if parts[-2] == "math" and last in ("min", "max") and len(av) == 2:
                    return T.minmax(last, *av)
                return ("app", "::".join(parts[-2:])) + tuple(av)
            if n in ("min", "max") and len(av) == 2 and not self.p.rs_pick([d for d in self.p.fnidx.get(n, []) if d.parent.kind in ("file", "module")], ctx):
                return T.minmax(n, *av)
            st = self.p.rs_type(n, ctx) if last[0].isupper() else None
            if st is not None and st.kind == "struct":
                return self.mkctor(st, st.ctors[0][0], av)
            c = [d for d in self.p.fnidx.get(last, []) if d.parent.kind in ("file", "module", "sm")]
            d = self.p.rs_pick(c, ctx)
            if d is not None:
                return self.rs_callfn(d, av, ctx)
            return ("app", n) + tuple(av)
        if f[0] == "dot":
            b = self.e(f[1], env, ctx)
            return self.rs_method(b, f[2], args, env, ctx)
        return self.apply(self.e(f, env, ctx), [self.e(a, env, ctx) for a in args])

    def rs_callfn(self, d, args, ctx):
        for (_, ty), a in zip([q[:2] for q in d.params], args):
            if a[0] == "bv" and a not in T.TYPES and ty is not None:
                ty = self.rtype(ty, d)
                if ty and self.tdecl(ty) is not None:
                    self.settype(a, ty)
        if (d.body is None or d.kind != "spec" or d.name in self.opaque or not self.inline or self.keep(d) or d in self.stack
                or len(self.stack) > self.maxdepth or len(args) != len(d.params)):
            t = ("app", self.rs_name(d)) + tuple(args)
            if d.rets:
                self.settype(t, self.rtype(d.rets[0][1], d))
            return t
        return self.inline_fn(d, args)

    def rs_name(self, d):
        p = d.parent
        return "%s::%s" % (p.name, d.name) if p.kind in ("impl", "trait", "sm") else d.name

    def rs_coll(self, kind, fn, args, env, ctx):
        av = [self.e(a, env, ctx) for a in args]
        if fn in ("empty", "new") and not av:
            if kind in ("Map", "IMap"):
                return self.settype(("map",), ("Map", ()))
            if kind in ("Set", "ISet"):
                return ("set",)
            if kind in ("Seq", "Vec"):
                return ("seq",)
            return ("app", "msetlit")
        if fn in ("full", "all") and not av and kind in ("Set", "ISet"):
            x = T.fresh()
            h, (rr, bb) = T.bind("compr", [x], [TRUE, x])
            return self.settype(("compr", "set", h, rr, bb), ("Set", ()))
        if fn == "singleton" and len(av) == 1 and kind == "Multiset":
            return self.settype(("app", "msetlit", av[0]), ("Multiset", ()))
        if fn == "new" and kind in ("Map", "IMap") and len(av) == 2 and av[0][0] == "lamx" and av[1][0] == "lamx":
            b = T.fresh()
            r, v = self.apply(av[0], [b]), self.apply(av[1], [b])
            h, (rr, vv) = T.bind("compr", [b], [r, v])
            return self.settype(("compr", "map", h, rr, vv), ("Map", ()))
        if fn == "new" and kind in ("Set", "ISet") and len(av) == 1 and av[0][0] == "lamx":
            b = T.fresh()
            r = self.apply(av[0], [b])
            h, (rr, bb) = T.bind("compr", [b], [r, b])
            return self.settype(("compr", "set", h, rr, bb), ("Set", ()))
        if fn == "new" and kind == "Seq" and len(av) == 2 and av[1][0] == "lamx":
            b = T.fresh()
            self.settype(b, ("int", ()))
            v = self.apply(av[1], [b])
            h, (vv,) = T.bind("seqnew", [b], [v])
            return self.settype(("seqnew", av[0], h, vv), ("Seq", ()))
        return ("app", "%s::%s" % (kind, fn)) + tuple(av)

    def rs_method(self, b, n, args, env, ctx):
        bt = self.ty(b)
        # user-defined method on a known type
        d = self.method(bt, n)
        av = [self.e(a, env, ctx) for a in args]
        if d is not None:
            return self.rs_callfn(d, [b] + av, ctx)
        k = bt[0] if bt else None
        na = len(av)
        S = self.settype
        if k in ("Multiset", "multiset") or b[0] == "app" and b[1] in ("msetlit", "ms+", "ms-"):
            MS = ("Multiset", bt[1] if bt else ())
            MT = ("app", "msetlit")
            if n == "contains":
                return T.mk_in(av[0], b)
            if n == "insert":
                return S(T.msplus(b, MT + (av[0],)), MS)
            if n == "remove":
                return S(("app", "ms-", b, ("app", "msetlit", av[0])), MS)
            if n == "add":
                return S(T.msplus(b, av[0]), MS)
            if n == "sub":
                return S(("app", "ms-", b, av[0]), MS)
            if n == "len":
                return S(("card", b), ("int", ()))
            if n == "is_empty" and na == 0:
                return eq(("card", b), num(0))
            return ("app", "." + n, b) + tuple(av)
        if n in ("contains_key",) and na == 1 or n == "contains" and na == 1:
            if av[0][0] == "bv" and bt and len(bt) > 1 and bt[1] and k in COLL:
                S(av[0], bt[1][0])      # a bound variable has the type of what contains it
            return T.mk_in(av[0], b)
        if n == "dom" and na == 0:
            return T.dom(b)
        if n == "contains_value" and na == 1:
            return T.mk_in(av[0], self.rs_method(b, "values", (), env, ctx))
        if n == "contains_pair" and na == 2:
            return mk_and(T.mk_in(av[0], b), eq(T.idx(b, av[0]), av[1]))
        if n == "map" and na == 1 and av[0][0] == "lamx" and k in ("Set", "ISet"):
            x = T.fresh()
            h, (rr, vv) = T.bind("compr", [x], [T.mk_in(x, b), self.apply(av[0], [x])])
            return S(("app", ".values", ("compr", "map", h, rr, vv)), ("Set", ()))
        if n == "insert" and na == 2 and k not in ("Seq", "Vec"):
            return T.mupd(b, av[0], av[1])
        if n == "update" and na == 2:
            return T.mupd(b, av[0], av[1])
        if n == "insert" and na == 1:
            return S(T.union(b, T.mk_set([av[0]])), bt)
        if n == "remove" and na == 1 and k not in ("Seq", "Vec"):
            if k in ("Set", "ISet") or b[0] in ("set", "union", "dom", "diff"):
                return S(("diff", b, T.mk_set([av[0]])), bt)
            return S(("mrem", b, av[0]), bt)
        if n == "union" and na == 1:
            return S(T.union(b, av[0]), bt or ("Set", ()))
        if n in ("plus",) and na == 1:
            return S(T.union(b, av[0]), bt or ("Set", ()))
        if n == "intersect" and na == 1:
            return S(("inter",) + T.srt([b, av[0]]), bt)
        if n == "difference" and na == 1:
            return S(("diff", b, av[0]), bt)
        if n == "complement" and na == 0 and k in ("Set", "ISet"):
            x = T.fresh()
            h, (rr, bb) = T.bind("compr", [x], [mk_not(T.mk_in(x, b)), x])
            return S(("compr", "set", h, rr, bb), bt)
        if n == "disjoint" and na == 1:
            return ("app", "disjoint") + T.srt([b, av[0]])
        if n == "subset_of" and na == 1:
            return ("app", "subset<=", b, av[0])
        if n == "push" and na == 1:
            return S(T.concat(b, ("seq", av[0])), bt or ("Seq", ()))
        if n == "add" and na == 1:
            return S(T.concat(b, av[0]), bt or ("Seq", ()))
        if n == "len" and na == 0:
            c = T.card(b)
            return S(c, ("int", ())) if c[0] == "card" else c
        if n == "subrange" and na == 2:
            return S(T.slice_(b, av[0], av[1]), bt or ("Seq", ()))
        if n == "take" and na == 1:
            return S(T.slice_(b, num(0), av[0]), bt or ("Seq", ()))
        if n == "skip" and na == 1:
            return S(T.slice_(b, av[0], None), bt or ("Seq", ()))
        if n == "drop_last" and na == 0:
            return S(T.slice_(b, num(0), T.sub(T.card(b), num(1))), bt)
        if n == "drop_first" and na == 0:
            return S(T.slice_(b, num(1), None), bt)
        if n == "last" and na == 0:
            return T.idx(b, T.sub(T.card(b), num(1)))
        if n == "first" and na == 0:
            return T.idx(b, num(0))
        if n in ("unwrap", "get_Some_0") and na == 0:
            T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
            return self.fld(b, "0")
        if n in ("is_Some", "is_some") and na == 0:
            T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
            return T.mk_is(b, "Some", "Option")
        if na == 0 and re.match(r"(arrow|get)_\w", n) and not self.p.fnidx.get(n):
            m = re.match(r"(?:arrow|get)_(?:[A-Z][A-Za-z0-9]*_)?(\w+)$", n)
            return self.fld(b, m.group(1))
        if k in ("Seq", "Vec", "seq") and na == 1 and av[0][0] == "lamx" and (n, av[0][2]) in (("map", 2), ("map_values", 1)):
            x = T.fresh()
            self.settype(x, ("int", ()))
            el = self.settype(T.idx(b, x), bt[1][0] if bt and len(bt) > 1 and bt[1] else None)
            h, (vv,) = T.bind("seqnew", [x], [self.apply(av[0], [x, el] if n == "map" else [el])])
            return S(("seqnew", T.card(b), h, vv), ("Seq", ()))
        if n == "map_values" and na == 1 and av[0][0] == "lamx":
            x = T.fresh()
            h, (rr, vv) = T.bind("compr", [x], [T.mk_in(x, b), self.apply(av[0], [T.idx(b, x)])])
            return S(("compr", "map", h, rr, vv), ("Map", ()))
        if n in ("is_None", "is_none") and na == 0:
            T.OWN.setdefault("Option", [("Some", ("0",)), ("None", ())])
            return T.mk_is(b, "None", "Option")
        if n in RS_IDENT and na == 0:
            return b
        if n in ("spec_eq", "eq", "ext_equal") and na == 1:
            return eq(b, av[0])
        # unique by name among spec fns
        if bt is None or k not in COLL:
            c = [d for d in self.p.fnidx.get(n, []) if d.params and d.params[0][0] == "self" and d.parent.kind in ("impl", "sm")]
            if bt is None and len(c) == 1:
                return self.rs_callfn(c[0], [b] + av, ctx)
        return ("app", "." + n, b) + tuple(av)

    def x_blockx(self, x, env, ctx):
        env2 = dict(env)
        res = self.blk(x[1], x[2], env2, ctx)
        return res

    def blk(self, stmts, tail, env, ctx):
        env = dict(env)
        for i, s in enumerate(stmts):
            if s[0] == "var":
                if s[2] is None:
                    continue
                for (p, ty), v in zip(s[1], s[2]):
                    t = self.e(v, env, ctx)
                    if ty is not None and t not in T.TYPES and t[0] not in ("int", "bool"):
                        self.settype(t, self.rtype(ty, ctx))
                    if p[0] == "pvar":
                        env[p[1]] = t
                    else:
                        _, b = self.pat(p, t, ctx)
                        env.update(b)
            elif s[0] == "exprs" and s[1][0] == "ret":
                return self.e(s[1][1], env, ctx) if s[1][1] is not None else ("tuple",)
            elif s[0] == "letelse":
                t, b = self.pat(s[1], self.e(s[2], env, ctx), ctx)
                env.update(b)
        if tail is None:
            return ("tuple",)
        return self.e(tail, env, ctx)

    def x_macro(self, x, env, ctx):
        return ("app", "macro:" + x[1]) + tuple(self.e(a, env, ctx) for a in x[2])

    def x_proof(self, x, env, ctx):
        return ("tuple",)

    def x_ret(self, x, env, ctx):
        return self.e(x[1], env, ctx) if x[1] is not None else ("tuple",)

    def x_assert(self, x, env, ctx):
        return ("tuple",)

    x_assume = x_assert

    def x_range(self, x, env, ctx):
        return ("app", "range", self.e(x[1], env, ctx) if x[1] else num(0), self.e(x[2], env, ctx) if x[2] else ("var", "end"))

    # ---------- state machine transitions
    def transition(self, smdecl, name, params=None):
        """formula over pre, post and the transition's parameters (renamed positionally)"""
        cand = [m for m in smdecl.members if m.kind == "transition" and m.name == name]
        if not cand:
            raise Missing("%s: transition %s of %s is missing" % (smdecl.file, name, smdecl.name))
        d = cand[0]
        if d.body is None:
            raise Missing("%s: transition %s of %s cannot be read: %s" % (smdecl.file, name, smdecl.name, d.err))
        self.used.add((d.file, "%s.%s" % (smdecl.name, name)))
        st = [m for m in smdecl.members if m.kind == "struct" and m.name == "State"]
        if not st:
            raise Missing("%s: fields of %s are missing" % (smdecl.file, smdecl.name))
        own = self.p.tkey(st[0])
        env = {}
        ps = list(d.params)
        if params is not None and len(params) > len(ps):
            raise Missing("%s: transition %s takes %d parameters, the rule expects %d" % (d.file, d.name, len(ps), len(params)))
        for i, (n, ty, m) in enumerate(ps):
            v = ("var", params[i] if params and i < len(params) else n)
            self.settype(v, self.rtype(ty, d))
            env[n] = v
        for v in ("pre", "post", "self"):
            env[v] = ("var", v)
            self.settype(env[v], (own, ()))
        fields = [f for f, _ in st[0].ctors[0][1]]
        upd = {}
        conj = []
        init = d.extra == "init"
        self.smrun(d.body, env, d, upd, conj, TRUE)
        for f in fields:
            if f in upd:
                conj.append(eq(self.fld(env["post"], f), upd[f]))
            elif init:
                conj.append(FALSE)
            else:
                conj.append(eq(self.fld(env["post"], f), self.fld(env["pre"], f)))
        return mk_and(*conj)

    def smrun(self, body, env, d, upd, conj, pc):
        """env is mutated; updates gated by pc"""
        for s in body:
            k = s[0]
            if k in ("require", "have"):
                c, _, e2 = self.guarded(s[1], env, d)
                conj.append(implies(pc, c))
                env.update(e2)
            elif k == "requirelet":
                t, b = self.pat(s[1], self.e(s[2], env, d), d)
                conj.append(implies(pc, t))
                env.update(b)
            elif k == "var":
                for (p, ty), v in zip(s[1], s[2]):
                    t = self.e(v, env, d)
                    if p[0] == "pvar":
                        env[p[1]] = t
                    else:
                        env.update(self.pat(p, t, d)[1])
            elif k in ("smupdate", "sminit"):
                f = s[1]
                v = self.e(s[4], env, d)
                cur = upd.get(f, self.fld(env["pre"], f))
                if s[2] is not None:
                    v = T.mupd(cur, self.e(s[2], env, d), v)
                upd[f] = ite(pc, v, cur) if pc != TRUE else v
            elif k in ("smadd", "smremove", "smhave", "smguard", "smdeposit", "smwithdraw"):
                f = s[1]
                v = self.e(s[4], env, d)
                cur = upd.get(f, self.fld(env["pre"], f))
                if k == "smremove":
                    if v[0] in ("set", "app") or v[0] == "map":
                        for y in v[1:]:
                            if isinstance(y, tuple) and v[0] == "set":
                                conj.append(implies(pc, T.mk_in(y, cur)))
                    conj.append(implies(pc, ("app", "sm-contains", cur, v)))
                    upd[f] = ite(pc, ("app", "sm-", cur, v), cur)
                elif k == "smadd":
                    upd[f] = ite(pc, ("app", "sm+", cur, v), cur)
                elif k == "smhave":
                    conj.append(implies(pc, ("app", "sm-contains", cur, v)))
            elif k == "ifs":
                c, _, e2 = self.guarded(s[1], env, d)
                e2 = dict(e2)
                self.smrun(s[2], e2, d, upd, conj, mk_and(pc, c))
                e3 = dict(env)
                self.smrun(s[3], e3, d, upd, conj, mk_and(pc, mk_not(c)))
            elif k == "matchs":
                sc = self.e(s[1], env, d)
                neg = TRUE
                for p, b in s[2]:
                    t, bd = self.pat(p, sc, d)
                    e2 = dict(env)
                    e2.update(bd)
                    self.smrun(b, e2, d, upd, conj, mk_and(pc, neg, t))
                    neg = mk_and(neg, mk_not(t))
            elif k == "block":
                self.smrun(s[1], env, d, upd, conj, pc)

    def smdecl(self, f, name):
        d = self.p.load(f)
        for m in d.members:
            if m.kind == "sm" and m.name == name:
                return m
        raise Missing("%s: state machine %s is missing" % (f, name))


CT = {"set", "seq", "map", "union", "inter", "diff", "mupd", "mrem", "compr", "concat", "dom", "slice", "seqnew"}
