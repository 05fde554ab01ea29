"""Executable Rust (Verus) for the path summaries of sa.flow.

Ghost and proof code is erased: what is left is what the compiler emits.  Rust
values have value semantics here: a struct is a record term, `&mut` parameters
are lvalues of the caller, and a call that is not followed hands back new values
for everything it may modify.
"""
import re
from . import rust, flow, flowpy
from . import term as T
from .term import TRUE, FALSE, mk_and, mk_or, mk_not
from .flow import Fn, Unsupported, Ev, app, NONE

GHOST = ("str", "$ghost")
GHOSTW = ("Tracked", "Ghost")
UINT = {"u8", "u16", "u32", "u64", "u128", "usize"}
SINT = {"i8", "i16", "i32", "i64", "i128", "isize"}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
IDENT = {"clone", "borrow", "as_slice", "iter", "into_iter", "copied", "cloned", "to_vec", "as_ref", "as_mut", "into", "to_owned", "borrow_mut",
         "as_mut_slice", "iter_mut", "drain_all", "as_str", "by_ref", "deref"}
DIVERGE = ("panic", "unreachable", "unimplemented", "todo")
PRINTS = ("println", "print", "eprintln", "eprint")

T.OWN.setdefault("rs.Option", [("None", ()), ("Some", ("0",))])
T.OWN.setdefault("rs.Result", [("Ok", ("0",)), ("Err", ("0",))])
SOME = lambda v: T.ctor("Some", (("0", v),), "rs.Option")
RNONE = T.ctor("None", (), "rs.Option")


def tysplit(s):
    """(head, args) of a type as written"""
    if s is None:
        return None, []
    s = s.strip()
    while True:
        m = re.match(r"(&|mut\b|'[a-z_]+\b|tracked\b|ghost\b|dyn\b|impl\b)\s*", s)
        if not m:
            break
        s = s[m.end():]
    if s.startswith("["):
        b = s[1:-1].split(";")[0]
        return "Vec", [b]
    m = re.match(r"([A-Za-z0-9_:]+)\s*<(.*)>$", s)
    if m:
        out, d, cur = [], 0, ""
        for c in m.group(2):
            if c in "<([":
                d += 1
            if c in ">)]":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        if cur:
            out.append(cur)
        return m.group(1).split("::")[-1], [x.strip() for x in out]
    if s.startswith("("):
        out, d, cur = [], 0, ""
        for c in s[1:-1]:
            if c in "<([":
                d += 1
            if c in ">)]":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        if cur.strip():
            out.append(cur)
        return "tuple", [x.strip() for x in out]
    return s.split("::")[-1], []


def isghost(ty):
    h, a = tysplit(ty)
    return h in GHOSTW or h == "PhantomData"


def ismut(ty, mods=()):
    return "&mut" in mods or bool(ty) and re.match(r"&\s*('[a-z_]+\s*)?mut\b", ty.strip()) is not None


# ------------------------------------------------------------------ lowering
class Tr:
    def __init__(self, world, fname, impl):
        self.w, self.file, self.impl = world, fname, impl
        self.scopes = [{}]
        self.n = 0

    def bindname(self, n):
        self.n += 1
        u = n if all(n not in s for s in self.scopes) else "%s$%d" % (n, self.n)
        self.scopes[-1][n] = u
        return u

    def ref(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    # ---- statements
    def block(self, b, ret=None):
        """statements of a block; ret: what to do with its value"""
        if b[0] != "blockx":
            return ret(b) if ret else self.sexpr(b)
        self.scopes.append({})
        try:
            out = []
            for s in b[1]:
                out += self.stmt(s)
            if b[2] is not None:
                out += ret(b[2]) if ret else self.sexpr(b[2])
            elif ret:
                out += ret(None)
            return out
        finally:
            self.scopes.pop()

    def stmt(self, s):
        k = s[0]
        if k == "var":
            (p, ty), = s[1]
            if s[3] or isghost(ty) or p[0] == "pctor" and p[1].split("::")[-1] in GHOSTW:
                self.ghostpat(p)
                return [] if s[3] else self.ghostinit(s[2])
            if s[2] is None:
                n = self.bindname(p[1])
                return [("decl", n, "val", None, ty)]
            x = s[2][0]
            if self.ghostx(x):
                self.ghostpat(p)
                return []
            if p[0] == "pvar" and x[0] == "inout":
                e = self.e(x[1])
                return [("decl", self.bindname(p[1]), "ref", e, ty)]
            if x[0] in ("if", "match", "blockx") and p[0] == "pvar" and not self.hasexit(x):
                # decided by cases: one assignment per case
                tmp = "$v%d" % self.fresh()
                out = self.cases(x, lambda y: [("assign", [("name", tmp)], self.e(y) if y is not None else ("none",))])
                return [("decl", tmp, "val", None, ty)] + out + [("decl", self.bindname(p[1]), "val", ("name", tmp), ty)]
            e = self.e(x)
            if p[0] == "pvar":
                return [("decl", self.bindname(p[1]), "val", e, ty)]
            if p[0] == "pwild":
                return [("expr", e)]
            return [("match", e, [(self.pat(p), None, [])])]
        if k == "letelse":
            e = self.e(s[2])
            eb = self.block(s[3])
            p = self.pat(s[1])
            return [("match", e, [(p, None, []), (("pwild",), None, eb)])]
        if k == "exprs":
            return self.sexpr(s[1])
        raise Unsupported("statement " + k)

    def fresh(self):
        self.w.tmp += 1
        return self.w.tmp

    def ghostpat(self, p):
        for n in patnames(p):
            self.scopes[-1][n] = "$ghost"

    def ghostinit(self, es):
        """`let Ghost(x) = f(..)`: the call itself is executed"""
        x = es[0] if es else None
        if x is None or self.ghostx(x) or x[0] != "call":
            return []
        return [("expr", self.e(x))]

    def ghostx(self, x):
        """an expression whose value is ghost"""
        if x is None:
            return False
        k = x[0]
        if k == "call" and x[1][0] == "id" and x[1][1].split("::")[0] in GHOSTW:
            return True
        if k == "id" and "::" not in x[1] and self.ref(x[1]) == "$ghost":
            return True
        if k == "dot" and x[2] in ("@",):
            return True
        if k == "dot" and self.w.ghostfield(x[2]):
            return True
        return False

    def hasexit(self, x):
        if isinstance(x, tuple) and x:
            if x[0] in ("ret", "brk", "cont", "try") and (len(x) < 2 or x[1] is None or isinstance(x[1], tuple)):
                return True
            if x[0] == "lam":
                return False
        return isinstance(x, (tuple, list)) and any(self.hasexit(y) for y in x)

    def cases(self, x, leaf):
        """distribute `leaf` over the alternatives of x"""
        if x is None:
            return leaf(None)
        if x[0] == "blockx":
            return self.block(x, lambda y: self.cases(y, leaf))
        if x[0] == "if":
            return self.ifs(x, lambda b: self.cases(b, leaf) if b is not None else leaf(None))
        if x[0] == "match":
            return self.matches(x, lambda b: self.cases(b, leaf))
        if x[0] == "ret":
            return self.sexpr(x)
        if x[0] in ("brk", "cont"):
            return self.sexpr(x)
        if x[0] == "macro" and x[1] in DIVERGE:
            return self.sexpr(x)
        return leaf(x)

    def ifs(self, x, sub):
        g, a, b = x[1], x[2], x[3]
        if g[0] == "iflet":
            e = self.e(viewed(g[2]))
            self.scopes.append({})
            p = self.pat(g[1])
            ra = sub(a)
            self.scopes.pop()
            return [("match", e, [(p, None, ra), (("pwild",), None, sub(b))])]
        c = self.e(g)
        return [("if", c, sub(a), sub(b))]

    def matches(self, x, sub):
        e = self.e(viewed(x[1]))
        arms = []
        for c in x[2]:
            self.scopes.append({})
            p = self.pat(c[0])
            g = self.e(c[2]) if len(c) > 2 else None
            arms.append((p, g, sub(c[1])))
            self.scopes.pop()
        return [("match", e, arms)]

    def sexpr(self, x):
        """an expression evaluated for its effects"""
        if x is None:
            return []
        k = x[0]
        if k in ("proof", "assert", "assume"):
            return []
        if k == "macro":
            if x[1] in DIVERGE:
                return [("raise", ("name", "unreached"))]
            if x[1] in PRINTS:
                return [("expr", ("call", ("print",), [self.e(y) for y in x[2] if y[0] != "str"], {}))]
            if x[1] in ("assert", "assert_eq", "debug_assert", "calc_macro", "calc", "reveal") or True and x[1] not in ("vec", "seq"):
                return []
        if k == "if":
            return self.ifs(x, lambda b: self.block(b) if b is not None else [])
        if k == "match":
            return self.matches(x, lambda b: self.block(b))
        if k == "blockx":
            return [("block", self.block(x))]
        if k == "whilex":
            g = x[1]
            if g[0] == "iflet":
                e = self.e(viewed(g[2]))
                self.scopes.append({})
                p = self.pat(g[1])
                b = self.block(x[2])
                self.scopes.pop()
                return [("while", ("bool", True), [("match", e, [(p, None, b), (("pwild",), None, [("break",)])])], [], [])]
            return [("while", self.e(g), self.block(x[2]), [], [])]
        if k == "forx" and x[1][0] in ("pvar", "pwild") and x[2][0] == "range" and x[2][1] is not None and x[2][2] is not None and len(x[2]) == 3 \
                and not (x[2][1][0] == "int" and x[2][2][0] == "int"):
            # counting is a loop with a counter
            cnt, lim = "$r%d" % self.fresh(), "$h%d" % self.fresh()
            pre = [("decl", cnt, "val", self.e(x[2][1]), None), ("decl", lim, "val", self.e(x[2][2]), None)]
            self.scopes.append({})
            bind = [("decl", self.bindname(x[1][1]), "val", ("name", cnt), None)] if x[1][0] == "pvar" else []
            b = bind + self.block(x[3])
            self.scopes.pop()
            up = [("assign", [("name", cnt)], ("bin", "+", ("name", cnt), ("int", 1)))]
            return pre + [("while", ("cmp", "<", ("name", cnt), ("name", lim)), b, up, [])]
        if k == "forx":
            coll = self.range(x[2]) or self.e(x[2])
            self.scopes.append({})
            p = x[1]
            if p[0] == "pvar":
                ip = ("name", self.bindname(p[1]))
                b = self.block(x[3])
            elif p[0] == "pwild":
                ip = ("wild",)
                b = self.block(x[3])
            else:
                tmp = "$i%d" % self.fresh()
                ip = ("name", tmp)
                pp = self.pat(p)
                b = [("match", ("name", tmp), [(pp, None, self.block(x[3]))])]
            self.scopes.pop()
            return [("foreach", ip, coll, b, [])]
        if k == "ret":
            if x[1] is None:
                return [("return", None)]
            return self.tailret(x[1])
        if k == "brk":
            if x[1] is not None:
                raise Unsupported("break with a value")
            return [("break",)]
        if k == "cont":
            return [("continue",)]
        if k == "asg":
            return self.asg(x)
        if k == "tuple" and not x[1]:
            return []
        if k == "call" and x[1][0] == "id" and x[1][1].split("::")[-1] == "unreached":
            return [("raise", ("name", "unreached"))]
        if self.ghostx(x):
            return []
        return [("expr", self.e(x))]

    def asg(self, x):
        t, v = x[1], x[2]
        if self.ghostx(v) or self.ghostx(t) or t[0] == "dot" and self.w.ghostfield(t[2]):
            return []
        if t[0] == "id" and t[1] == "_":
            return self.sexpr(v)
        if v[0] in ("if", "match", "blockx") and not self.hasexit(v):
            tmp = "$v%d" % self.fresh()
            out = self.cases(v, lambda y: [("assign", [("name", tmp)], self.e(y) if y is not None else ("none",))])
            return [("decl", tmp, "val", None, None)] + out + [("assign", [self.e(t)], ("name", tmp))]
        return [("assign", [self.e(t)], self.e(v))]

    def tailret(self, x):
        return self.cases(x, lambda y: [("return", self.e(y))] if y is not None and not self.void(y) else
                          (self.sexpr(y) if y is not None else []) + [("return", None)])

    def void(self, x):
        return x[0] in ("proof", "assert", "assume", "whilex", "forx", "asg") or x[0] == "macro" and x[1] not in ("vec", "seq", "arbitrary", "format", "matches")

    # ---- patterns
    def pat(self, p):
        k = p[0]
        if k == "pvar":
            return ("pvar", self.bindname(p[1]))
        if k in ("pwild", "prest", "plit", "prange"):
            return p
        if k == "ptuple":
            return ("ptuple", [self.pat(q) for q in p[1]])
        if k == "pctor":
            if p[1].split("::")[-1] in GHOSTW:
                self.ghostpat(p)
                return ("pwild",)
            return ("pctor", p[1], [self.pat(q) for q in p[2]])
        if k == "pstruct":
            fs = []
            for f, q in p[2]:
                if self.w.ghostfield(f):
                    self.ghostpat(q)
                else:
                    fs.append((f, self.pat(q)))
            return ("pstruct", p[1], fs)
        if k == "por":
            return ("por", [self.pat(q) for q in p[1]])
        if k == "pat@":
            return ("pat@", self.bindname(p[1]), self.pat(p[2]))
        raise Unsupported("pattern " + k)

    # ---- expressions
    def range(self, x):
        if x[0] == "range" and x[1] is not None and x[2] is not None:
            return ("call", ("fn", "$range"), [self.e(x[1]), self.e(x[2])], {})
        return None

    def e(self, x):
        if self.ghostx(x):
            return ("term", GHOST)
        k = x[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(x)

    def e_int(self, x):
        return ("int", x[1])

    def e_bool(self, x):
        return x

    def e_str(self, x):
        return ("str", x[1])

    def e_lit(self, x):
        return ("str", x[1])

    def e_id(self, x):
        n = x[1]
        if n == "self":
            return ("name", "this")
        if "::" not in n:
            u = self.ref(n)
            if u is not None:
                return ("name", u)
        return ("path", self.w.qual(self, n))

    def e_dot(self, x):
        return ("attr", self.e(x[1]), x[2])

    def e_deref(self, x):
        return self.e(x[1])

    def e_inout(self, x):
        return ("addr", self.e(x[1]))

    def e_un(self, x):
        if x[1] == "!":
            return ("not", self.e(x[2]))
        return ("un", x[1], self.e(x[2]))

    def e_bin(self, x):
        o = x[1]
        a, b = self.e(x[2]), self.e(x[3])
        if o == "&&":
            return ("and", a, b)
        if o == "||":
            return ("or", a, b)
        if o == "==>":
            return ("or", ("not", a), b)
        return ("cmp" if o in ("==", "!=", "<", "<=", ">", ">=") else "bin", o, a, b)

    def e_as(self, x):
        return ("as", self.e(x[1]), tysplit(x[2])[0])

    def e_is(self, x):
        return ("isx", self.e(x[1]), ("pctor?", x[2]))

    def e_matches(self, x):
        return ("isx", self.e(x[1]), self.pat(x[2]))

    def e_idx(self, x):
        return ("index", self.e(x[1]), self.e(x[2][0]))

    def e_slice(self, x):
        lo = self.e(x[2]) if x[2] is not None else ("int", 0)
        return ("call", ("fn", "$slice"), [self.e(x[1]), lo] + ([self.e(x[3])] if x[3] is not None else []), {})

    def e_tuple(self, x):
        return ("tuple", [self.e(y) for y in x[1]]) if x[1] else ("none",)

    def e_seqlit(self, x):
        return ("list", [self.e(y) for y in x[1]])

    def e_struct(self, x):
        fs = [(f, self.e(v)) for f, v in x[2] if not self.w.ghostfield(f) and not self.ghostx(v)]
        n = self.w.qual(self, x[1])
        if x[3] is not None:
            return ("structupd", n, self.e(x[3]), fs)
        return ("mk", n, fs)

    def e_if(self, x):
        return self.valcases(x)

    e_match = e_if

    def valcases(self, x):
        tmp = "$v%d" % self.fresh()
        out = self.cases(x, lambda y: [("assign", [("name", tmp)], self.e(y))] if y is not None and not self.void(y) else
                         (self.sexpr(y) if y is not None else []) + [("assign", [("name", tmp)], ("none",))])
        return ("stmtexpr", [("decl", tmp, "val", None, None)] + out, ("name", tmp))

    def e_blockx(self, x):
        return self.valcases(x)

    def e_ret(self, x):
        return ("exit", ("return", self.e(x[1]) if x[1] is not None else None))

    def e_brk(self, x):
        return ("exit", ("break",))

    def e_cont(self, x):
        return ("exit", ("continue",))

    def e_try(self, x):
        return ("tryx", self.e(x[1]))

    def e_macro(self, x):
        if x[1] in DIVERGE:
            return ("exit", ("raise", ("name", "unreached")))
        if x[1] == "arbitrary":
            return ("term", app("arbitrary"))
        if x[1] == "format":
            return ("fmt", [self.e(y) for y in x[2]])
        return ("stmtexpr", self.sexpr(x), ("none",))

    def e_asg(self, x):
        return ("stmtexpr", self.asg(x), ("none",))

    def e_proof(self, x):
        return ("none",)

    e_assert = e_assume = e_proof

    def e_whilex(self, x):
        return ("stmtexpr", self.sexpr(x), ("none",))

    e_forx = e_whilex

    def e_lam(self, x):
        self.scopes.append({})
        ns = []
        for p in x[1]:
            if not isinstance(p, str):
                raise Unsupported("closure pattern")
            ns.append(self.bindname(p))
        b = self.e(x[2])
        self.scopes.pop()
        return ("lambda", ns, b)

    def e_range(self, x):
        r = self.range(x)
        if r is None:
            raise Unsupported("open range")
        return r

    def e_call(self, x):
        f, a = x[1], [self.e(y) for y in x[2]]
        if f[0] == "dot" and f[2] in ("unwrap", "expect") and viewed(f[1]) is not f[1]:
            return ("call", ("meth", self.e(viewed(f[1])), "$unwrap_mut"), [], {})
        if f[0] == "dot":
            return ("call", ("meth", self.e(f[1]), f[2]), a, {})
        if f[0] == "id":
            if "::" not in f[1] and self.ref(f[1]) is not None:
                return ("call", ("val", ("name", self.ref(f[1]))), a, {})
            q = self.w.qual(self, f[1])
            if q.split("::")[-1] == "unreached":
                return ("exit", ("raise", ("name", "unreached")))
            return ("call", ("fn", q), a, {})
        return ("call", ("val", self.e(f)), a, {})


def viewed(x):
    """`p.as_mut()` looks at the place p"""
    while x[0] == "call" and x[1][0] == "dot" and x[1][2] in ("as_mut", "as_deref_mut") and not x[2]:
        x = x[1][1]
    return x


def patnames(p):
    if p[0] == "pvar":
        return [p[1]]
    if p[0] == "pat@":
        return [p[1]] + patnames(p[2])
    if p[0] in ("ptuple", "por"):
        return [n for q in p[1] for n in patnames(q)]
    if p[0] == "pctor":
        return [n for q in p[2] for n in patnames(q)]
    if p[0] == "pstruct":
        return [n for _, q in p[2] for n in patnames(q)]
    return []


# ------------------------------------------------------------------ world
class World(flowpy.World):
    python = False
    writers = ()
    boolvars = False
    rebinds = False
    valueand = False
    lamterm = True
    cmpexit = True
    diverges = True

    def argterm(self, fn, p):
        if p["ghost"]:
            return GHOST
        return ("var", "%s@%s" % (p["name"], fn.name))

    def thisterm(self, fn):
        return ("var", "self@%s" % fn.cls) if fn.cls else None

    def __init__(self, texts):
        """texts: {file label: source}"""
        self.fns, self.classes, self.consts, self.methods = {}, {}, {}, {}
        self.imports, self.main, self.texts = {}, {}, {}
        self.effect, self.mutating, self.outer = {}, {}, set()
        self.constdone = {}
        self.tmp = 0
        self.structs = {}       # struct name -> [(field, type)]
        self.enums = {}         # enum name -> {variant: [(field, type)]}
        self.ghostf = {}        # field name -> all its declarations are ghost
        self.free = {}          # name -> [Fn]
        self.meth = {}          # method or associated name -> [Fn]
        self.constx = {}        # name -> (file, impl, body)
        self.aliases = {}
        self.errors = []
        self.effb = None
        self.other = None
        trees = {}
        self.alltypes = {}
        for f, src in texts.items():
            d = rust.parse(src, f)
            trees[f] = d
            self.errors += ["%s: %s" % (f, e) for e in d.errors]
            self.curfile = f
            self.types(d)
        for f, d in trees.items():
            self.scan(f, d, None)
        for n, fs in self.structs.items():
            T.OWN.setdefault("rs." + n, [(n, tuple(sorted(x for x, _ in fs)))])
        for n, vs in self.enums.items():
            T.OWN.setdefault("rs." + n, [(v, tuple(x for x, _ in fs)) for v, fs in vs.items()])

    def types(self, d):
        for x in d.members:
            if x.kind in ("struct", "enum", "datatype") and x.ctors:
                if x.name != "State" and self.alltypes.setdefault(x.name, x.ctors) != x.ctors:
                    self.errors.append("%s: two types named %s" % (self.curfile, x.name))
            if x.kind == "struct" and x.ctors:
                fs = x.ctors[0][1]
                for f, ty in fs:
                    self.ghostf[f] = self.ghostf.get(f, True) and isghost(ty)
                self.structs[x.name] = [(f, ty) for f, ty in fs if not isghost(ty)]
            elif x.kind in ("enum", "datatype") and x.ctors:
                for c, fs in x.ctors:
                    for f, ty in fs:
                        self.ghostf[f] = self.ghostf.get(f, True) and isghost(ty)
                self.enums[x.name] = {c: [(f, ty) for f, ty in fs if not isghost(ty)] for c, fs in x.ctors}
                if x.kind == "datatype" and len(x.ctors) == 1 and x.ctors[0][0] == x.name:
                    self.structs[x.name] = self.enums.pop(x.name)[x.name]
            elif x.kind == "type" and x.type:
                self.aliases[x.name] = x.type
            self.types(x)

    def ghostfield(self, f):
        return self.ghostf.get(f, False)

    def scan(self, f, d, impl):
        for x in d.members:
            if x.kind in ("impl", "trait"):
                self.scan(f, x, x)
            elif x.kind == "module":
                self.scan(f, x, None)
            elif x.kind == "exec" and not any(a.startswith("#[inductive") for a in x.attrs):
                self.addfn(f, x, impl)
            elif x.kind == "const" and x.body is not None:
                self.constx[x.name] = (f, impl, x.body)

    def addfn(self, f, x, impl):
        cls = impl.name if impl is not None else None
        name = (cls + "." if cls else "") + x.name
        key = (f, name)
        if key in self.fns and impl is not None and impl.refines:
            name = "%s<%s>.%s" % (cls, re.sub(r"<.*", "", impl.refines), x.name)
            key = (f, name)
        n = 2
        while key in self.fns:
            key = (f, "%s#%d" % (name, n))
            n += 1
        ps, selfm, ghosts = [], None, []
        tr = Tr(self, f, impl)
        for i, (n, ty, mods) in enumerate(x.params):
            if n == "self" and i == 0:
                selfm = "&mut" if "&mut" in mods or ismut(ty) else "&" if "&" in mods or ty and ty.startswith("&") else "val"
                continue
            g = isghost(ty) or any(m in GHOSTW or m in ("ghost", "tracked") for m in mods)
            if g:
                tr.scopes[0][n] = "$ghost"
            u = n if n != "_" else "_%d" % i
            ps.append({"name": u, "mode": "ref" if ismut(ty, mods) else "val", "type": ty, "ghost": g, "default": None})
            if not g and n != "_":
                tr.scopes[0][n] = n
        fn = Fn(key[1], ps, None, f, cls if selfm else None, "fn", x.line)
        fn.impl, fn.selfm, fn.short = impl, selfm, x.name
        fn.owner = cls
        fn.rtype = None
        if x.rets:
            fn.rtype = x.rets[0][1] if len(x.rets) == 1 else "(" + ",".join(str(r[1]) for r in x.rets) + ")"
        fn.external = any("external_body" in a for a in x.attrs)
        fn.raw = x
        fn.lazy = (tr, x)
        fn.body = None
        if x.err:
            fn.body = [("unsup", x.err)]
        self.fns[key] = fn
        (self.meth if cls else self.free).setdefault(x.name, []).append(fn)

    def body(self, fn):
        if fn.body is None:
            tr, x = fn.lazy
            if x.body is None:
                return None
            try:
                if fn.rtype is None or tysplit(fn.rtype) == ("tuple", []):
                    b = tr.block(x.body)
                else:
                    b = tr.tailret(x.body)
                fn.body = rnorm(b)
            except Unsupported as e:
                fn.body = [("unsup", str(e))]
        return fn.body

    def qual(self, tr, n):
        ps = n.split("::")
        if ps[0] == "Self" and tr.impl is not None:
            ps[0] = tr.impl.name
        if ps[-1] == "Self":
            ps[-1] = tr.impl.name if tr.impl is not None else "Self"
        return "::".join(ps[-2:])

    def pre(self, fn, args, this):
        """what callers of fn establish: the preconditions it states in terms of its arguments' values, and their widths"""
        out = []
        for p, a in zip(fn.params, args):
            b = re.fullmatch(r"u(8|16|32|64)|usize", str(p.get("type") or "").strip())
            if b:
                out.append(T.le(a, T.num(2 ** int(b.group(1) or 64) - 1)))
        ps = {p["name"] for p in fn.params if not p["ghost"]} | {"self"}

        def plain(x):
            k = x[0]
            if k == "id":
                return x if x[1] in ps else None
            if k in ("int", "bool"):
                return x
            if k == "call" and x[1] == ("id", "old") and len(x[2]) == 1:
                return plain(x[2][0])
            if k == "call" and x[1][0] == "dot" and x[1][2] in ("len", "view") and not x[2]:
                y = plain(x[1][1])
                return y and (("call", ("dot", y, "len"), []) if x[1][2] == "len" else y)
            if k == "dot":
                y = plain(x[1])
                return y and (y if x[2] == "@" else ("dot", y, x[2]))
            if k == "bin" and x[1] in ("==", "!=", "<", "<=", ">", ">=", "&&", "||"):
                a, b = plain(x[2]), plain(x[3])
                return ("bin", x[1], a, b) if a and b else None
            return None
        n = 0
        for kw, e, _ in fn.raw.specs:
            e = plain(e) if kw == "requires" else None
            if e is None:
                continue
            n += 1
            try:
                tr = Tr(self, fn.file, fn.impl)
                tr.scopes[0].update({q["name"]: q["name"] for q in fn.params if q["name"] in ps})
                g = Fn("%s requires %d" % (fn.name, n), fn.params, [("return", tr.e(e))], fn.file, fn.cls)
                g.selfm, g.rtype, g.external = fn.selfm, "bool", False
                g.lazy = None
                r = Exec(self, keep=(), limit=5).summarise(g, args, this)
                if len(r) == 1 and r[0].kind == "return" and not r[0].events and T.isbool(r[0].val):
                    v = r[0].val
                    out.append(v)
                    if v[0] == "eq" and T.num(0) in v[1:] and any(y[0] == "card" for y in v[1:]):
                        out.append(T.eq([y for y in v[1:] if y[0] == "card"][0][1], ("seq",)))
            except (Unsupported, flow.TooMany):
                continue
        return [x for x in out if x != T.TRUE]

    # ---- hooks of flowref
    def find(self, n):
        f = self.fns.get(n)
        if f is not None:
            self.body(f)
        return f

    def path(self, f):
        return f.file

    def begin(self, ref):
        self.other, ref.other = ref, self

    def mentions(self, f):
        out = set()
        for y in flowpy.walk(self.body(f) or []):
            if isinstance(y, tuple) and y and y[0] == "call" and len(y) == 4:
                g = y[1]
                if g[0] == "meth":
                    out.add(g[2])
                elif g[0] == "fn":
                    out.add(g[1].replace("::", "."))
                    out.add(g[1].split("::")[-1])
        return out

    # ---- types
    def tyterm(self, ty, d=0):
        h, a = tysplit(ty)
        if h is None:
            return None
        if h in self.aliases and d < 5:
            return self.tyterm(self.aliases[h], d + 1)
        if h in UINT or h == "nat":
            return ("nat", ())
        if h in SINT or h == "int":
            return ("int", ())
        if h == "bool":
            return ("bool", ())
        if h in ("Vec", "VecDeque", "Seq"):
            return ("seq", tuple(x for x in (self.tyterm(y, d) for y in a) if x))
        if h in ("HashMap", "HashMapWithView", "BTreeMap"):
            ts = [self.tyterm(y, d) for y in a[:2]]
            return ("map", tuple(ts) if all(ts) else ())
        if h in ("HashSet", "BTreeSet"):
            return ("set", ())
        if h == "tuple":
            ts = [self.tyterm(y, d) if not isghost(y) else ("ghost", ()) for y in a]
            return ("tuple", tuple(t or ("?", ()) for t in ts))
        if h in ("Box", "Arc", "Rc", "RefCell", "Cell") and a:
            return self.tyterm(a[0], d)
        if h in ("Option", "Result"):
            return ("rs." + h, tuple(x for x in (self.tyterm(y, d) for y in a[:1]) if x))
        if h in self.structs or h in self.enums:
            return ("rs." + h, ())
        if h == "Self" and d == 0:
            return None
        return ("rs." + h, ())

    def settype(self, v, ty):
        if ty is None or v is None or v[0] not in ("var", "dot", "idx", "ret", "app", "lv", "acc"):
            return
        t = self.tyterm(ty) if isinstance(ty, str) else ty
        if t and t[0] != "?":
            T.TYPES.setdefault(v, t)

    def tyof(self, v):
        t = T.TYPES.get(v)
        if t:
            return t
        h = v[0]
        if h == "ctor":
            return (v[3], ())
        if h in ("lv", "acc"):
            return self.tyof(v[2])
        if h == "ite":
            return self.tyof(v[2]) or self.tyof(v[3])
        if h == "recupd":
            return self.tyof(v[1])
        if h in ("seq", "concat", "slice"):
            return ("seq", ())
        if h == "map":
            return ("map", ())
        if h == "mupd":
            return self.tyof(v[1])
        if h in ("int", "lin", "card"):
            return ("nat", ())
        if h == "var" and v[1] == "this":
            return None
        return None

    def default(self, ty, name, st):
        return app("uninitialised")

    def coerce(self, v, ty):
        if isinstance(ty, str):
            self.settype(v, ty)
        return v

    def isheap(self, v):
        return False

    def excname(self, x):
        return x[1] if x[0] == "name" else "?"

    def catches(self, names, exc):
        return False

    def kind(self, v):
        k = flow.Exec.kindof(v)
        if k:
            return "int" if k == "nat" else k
        t = self.tyof(v)
        return t[0] if t else None

    def truth(self, v):
        if T.isbool(v):
            return v
        if v[0] == "ite":
            return T.ite(v[1], self.truth(v[2]), self.truth(v[3]))
        return self.mkbool(v)

    def eq(self, a, b):
        if a == b:
            return TRUE
        if a[0] == "ctor" and b[0] == "ctor" and a[1] == b[1]:
            da, db = dict(a[2]), dict(b[2])
            return mk_and(*[self.eq(da[f], db[f]) for f in da if f in db])
        for x, y in ((a, b), (b, a)):
            if x == ("seq",) and y[0] != "seq":
                return T.eq(T.card(y), T.num(0))
        if a[0] == "tuple" and b[0] == "tuple" and len(a) == len(b):
            return mk_and(*[self.eq(x, y) for x, y in zip(a[1:], b[1:])])
        return T.eq(a, b)

    def op(self, o, a):
        if len(a) == 1:
            return T.sub(T.num(0), a[0]) if o == "-" else app("un" + o, a[0])
        x, y = a
        if o in ("==", "!="):
            t = self.eq(x, y)
            return t if o == "==" else mk_not(t)
        if o == "<":
            return T.lt(x, y)
        if o == "<=":
            return T.le(x, y)
        if o == ">":
            return T.lt(y, x)
        if o == ">=":
            return T.le(y, x)
        if o == "+":
            return T.add(x, y)
        if o == "-":
            return T.sub(x, y)
        if o == "*":
            return T.mul(x, y)
        if x[0] == "int" and y[0] == "int":
            if o == "/" and y[1]:
                return T.num(x[1] // y[1])
            if o == "%" and y[1]:
                return T.num(x[1] % y[1])
            if o == "<<":
                return T.num(x[1] << y[1])
            if o == ">>":
                return T.num(x[1] >> y[1])
        if o in ("|", "&", "^") and (T.isbool(x) or T.isbool(y)):
            return mk_or(x, y) if o == "|" else mk_and(x, y) if o == "&" else mk_not(T.iff(x, y))
        if o in ("|", "&", "^"):
            x, y = T.srt([x, y])
        r = app(o, x, y)
        T.TYPES.setdefault(r, ("nat", ()))
        return r

    def index(self, v, i):
        if v[0] == "tuple" and i[0] == "int" and 0 <= i[1] < len(v) - 1:
            return v[1 + i[1]]
        r = T.idx(v, i)
        ty = self.tyof(v)
        if ty and ty[0] in ("seq", "map") and ty[1]:
            self.settype(r, ty[1][-1])
        return r

    def component(self, v, i):
        return self.field(None, v, str(i))

    def field(self, st, v, f):
        if v[0] == "ite":
            return T.ite(v[1], self.field(st, v[2], f), self.field(st, v[3], f))
        r = T.dot(v, f)
        if r[0] == "dot" and r not in T.TYPES:
            t = self.tyof(r[1])
            if t:
                if t[0] == "tuple" and f.isdigit() and int(f) < len(t[1]):
                    self.settype(r, t[1][int(f)])
                elif t[0] in ("rs.Option", "rs.Result") and t[1]:
                    self.settype(r, t[1][0])
                elif t[0].startswith("rs."):
                    for ff, ty in self.fieldsof(t[0][3:]):
                        if ff == f:
                            self.settype(r, ty)
        return r

    def fieldsof(self, n):
        for w in (self, self.other):
            if w is None:
                continue
            if n in w.structs:
                return w.structs[n]
            if n in w.enums:
                return [x for fs in w.enums[n].values() for x in fs]
        return []

    def setfield(self, v, f, x):
        self.field(None, v, f)
        t = self.tyof(v)
        if t and v not in T.TYPES and v[0] in ("var", "ret", "dot", "lv", "idx"):
            T.TYPES[v] = t
        if v[0] == "tuple" and f.isdigit() and int(f) < len(v) - 1:
            return v[:1 + int(f)] + (x,) + v[2 + int(f):]
        return T.recupd(v, ((f, x),))

    def setindex(self, v, i, x):
        r = T.mupd(v, i, x)
        t = self.tyof(v)
        if t:
            T.TYPES.setdefault(r, t)
        return r

    def elements(self, coll):
        if self.kind(coll) == "map":
            return coll, lambda e: ("tuple", e, T.idx(coll, e))
        return coll, lambda e: e

    def inside(self, e, coll):
        if coll[0] == "range":
            return mk_and(T.le(coll[1], e), T.lt(e, coll[2]))
        return T.mk_in(e, coll)

    def isin(self, x, s):
        return T.mk_in(x, s)

    def literal(self, coll):
        return list(coll[1:]) if coll[0] == "seq" else None

    def elemtype(self, e, coll):
        if coll[0] == "range":
            T.TYPES[e] = ("nat", ())
            return
        t = self.tyof(coll)
        if t and t[0] == "seq" and t[1]:
            T.TYPES[e] = t[1][0]

    def as_foreach(self, ex, st, fr, s):
        return None

    def collref(self, x):
        return False

    def outcells(self, st):
        return {k[2]: st.cells[k] for k in st.old if k[2].endswith("&")}

    def target(self, b):
        return b[1] if b[0] == "$ptr" else None

    # ---- names
    def lookup(self, ex, st, fr, n):
        par = st.env.get((fr, "$parent"))
        if par is not None:
            lv = st.env.get((par, n))
            if lv is not None:
                return (st, ex.read(st, lv))
            return self.lookup(ex, st, par, n)
        return (st, ("var", n))

    def global_lv(self, ex, st, fr, n):
        par = st.env.get((fr, "$parent"))
        if par is not None:
            lv = st.env.get((par, n))
            return lv if lv is not None else self.global_lv(ex, st, par, n)
        return None

    def global_target(self, ex, st, fr, n):
        return self.global_lv(ex, st, fr, n)

    def pathval(self, ex, st, fr, n):
        last = n.split("::")[-1]
        if last == "None":
            return [(st, RNONE)]
        v = self.variant(n)
        if v is not None:
            return [(st, T.ctor(v[1], (), "rs." + v[0]))]
        if last in self.constx and (n == last or True):
            f, impl, b = self.constx[last]
            try:
                tr = Tr(self, f, impl)
                return ex.e(st, ex.newframe(), tr.e(b))
            except Unsupported:
                pass
        m = re.match(r"(u8|u16|u32|u64|usize)::(MAX|BITS)$", n)
        if m:
            return [(st, T.num(2 ** WIDTH[m.group(1)] - 1 if m.group(2) == "MAX" else WIDTH[m.group(1)]))]
        return [(st, ("var", n))]

    def variant(self, n):
        """(enum, variant) named by a path"""
        p = n.split("::")
        for w in (self, self.other):
            if w is None:
                continue
            if len(p) > 1:
                t = p[-2]
                if t in w.aliases:
                    t = tysplit(w.aliases[t])[0]
                if t in w.enums and p[-1] in w.enums[t]:
                    return t, p[-1]
            else:
                c = [e for e, vs in w.enums.items() if p[0] in vs]
                if len(c) == 1 and p[0] not in w.structs:
                    return c[0], p[0]
        return None

    def structname(self, n):
        last = n.split("::")[-1]
        for w in (self, self.other):
            if w is not None:
                if last in w.aliases:
                    last = tysplit(w.aliases[last])[0]
                if last in w.structs:
                    return last
        return None

    def special(self, ex, st, fr, x):
        return None

    # ---- patterns
    def pattern(self, ex, st, pat, v, lv):
        """(condition, [(name, lvalue)])"""
        k = pat[0]
        sub = lambda f: ("val", self.field(st, v, f)) if lv[0] == "val" else (lv[0], lv[1] + (("f", f),))
        if k in ("pwild", "prest"):
            return TRUE, []
        if k == "pvar":
            return TRUE, [(pat[1], lv)]
        if k == "plit":
            s = pat[1]
            if s in ("true", "false"):
                t = self.truth(v)
                return (t if s == "true" else mk_not(t)), []
            m = re.match(r"(0x[0-9a-fA-F_]+|\d[\d_]*)", s)
            return (self.eq(v, T.num(int(m.group(1).replace("_", ""), 0)) if m else ("str", s))), []
        if k == "ptuple":
            cs, bs = [], []
            for i, q in enumerate(pat[1]):
                c, b = self.pattern(ex, st, q, self.component(v, i), sub(str(i)))
                cs.append(c)
                bs += b
            return mk_and(*cs), bs
        if k == "por":
            cs, bs = [], []
            for q in pat[1]:
                c, b = self.pattern(ex, st, q, v, lv)
                cs.append(c)
                if b:
                    raise Unsupported("alternatives that bind")
            return mk_or(*cs), bs
        if k == "pat@":
            c, b = self.pattern(ex, st, pat[2], v, lv)
            return c, b + [(pat[1], lv)]
        if k in ("pctor", "pstruct", "pctor?"):
            n = pat[1]
            last = n.split("::")[-1]
            subs = [] if k == "pctor?" else [(str(i), q) for i, q in enumerate(pat[2])] if k == "pctor" else pat[2]
            cond = TRUE
            if last in ("Some", "None"):
                cond = T.mk_is(v, last, "rs.Option")
            elif last in ("Ok", "Err"):
                cond = T.mk_is(v, last, "rs.Result")
            elif self.variant(n) is not None:
                t = self.variant(n)
                cond = T.mk_is(v, t[1], "rs." + t[0])
                self.settype(v, ("rs." + t[0], ()))
            elif self.structname(n) is None and last[0].isupper() and k == "pctor?":
                cond = T.mk_is(v, last, "rs.?")
            if cond[0] == "is":
                self.mkbool(cond)
            bs, cs = [], [cond]
            for f, q in subs:
                if q[0] == "prest":
                    break
                c, b = self.pattern(ex, st, q, self.field(st, v, f), sub(f))
                cs.append(c)
                bs += b
            return mk_and(*cs), bs
        raise Unsupported("pattern " + k)

    # ---- extra expressions
    def xe(self, ex, st, fr, x):
        k = x[0]
        if k == "path":
            return self.pathval(ex, st, fr, x[1])
        if k == "as":
            out = []
            for s, v in ex.e(st, fr, x[1]):
                out.append((s, v if v[0] == "$exit" else self.cast(v, x[2])))
            return out
        if k == "isx":
            out = []
            for s, lv in ex.lval(st, fr, x[1]):
                if lv[0] == "$exit":
                    out.append((s, lv))
                    continue
                c, bs = self.pattern(ex, s, x[2], ex.read(s, lv), lv)
                for n, bl in bs:
                    s.env[fr, n] = bl if bl[0] != "val" else (s.cell(bl[1], n), ())
                out.append((s, c))
            return out
        if k == "mk":
            out = []
            for s, vs in ex.es(st, fr, [y for _, y in x[2]]):
                out.append((s, vs) if vs[0] == "$exit" else (s, self.mk(x[1], [n for n, _ in x[2]], vs[1])))
            return out
        if k == "structupd":
            out = []
            for s, vs in ex.es(st, fr, [x[2]] + [y for _, y in x[3]]):
                if vs[0] == "$exit":
                    out.append((s, vs))
                    continue
                t = vs[1][0]
                for (f, _), v in zip(x[3], vs[1][1:]):
                    t = self.setfield(t, f, v)
                out.append((s, t))
            return out
        if k == "tryx":
            out = []
            for s, v in ex.e(st, fr, x[1]):
                if v[0] == "$exit":
                    out.append((s, v))
                    continue
                t = self.tyof(v)
                opt = (t and t[0] == "rs.Option") or v == RNONE
                good = T.mk_is(v, "Some" if opt else "Ok", "rs.Option" if opt else "rs.Result")
                self.mkbool(good)
                a, b = ex.split(s, good)
                if a is not None:
                    out.append((a, self.field(a, v, "0")))
                if b is not None:
                    out.append((b, ("$exit", ("ret", RNONE if opt else T.ctor("Err", (("0", self.field(b, v, "0")),), "rs.Result")))))
            return out
        raise Unsupported("expression %s" % k)

    def cast(self, v, ty):
        if v[0] == "int" or ty not in WIDTH:
            return v
        if T.isbool(v) and v[0] != "var":
            return T.ite(v, T.num(1), T.num(0))
        if WIDTH[ty] >= 64:
            self.settype(v, ("nat", ()))
            return v
        r = app("as " + ty, v)
        T.TYPES.setdefault(r, ("nat", ()))
        return r

    def mk(self, n, fs, vs):
        last = n.split("::")[-1]
        sn = self.structname(n)
        var = self.variant(n)
        if var is not None and (sn is None or "::" in n):
            order = [f for f, _ in (self.enums.get(var[0]) or self.other.enums[var[0]])[var[1]]]
            d = dict(zip(fs, vs))
            return T.ctor(var[1], tuple((f, d.get(f, GHOST)) for f in order) if set(order) >= set(fs) else tuple(sorted(d.items())), "rs." + var[0])
        return T.ctor(sn or last, tuple(sorted(zip(fs, vs))), "rs." + (sn or last))

    # ---- calls
    def iseff(self, name, sub=False):
        """may calling a function of this name be observed other than through its values?"""
        if self.effb is None:
            self.effb = set()
            dirty = set()
            for f in self.fns.values():
                if self.ext(f):
                    self.effb.add(f.short)
            for _ in range(12):
                n0 = len(self.effb)
                for f in self.fns.values():
                    if f.short not in self.effb:
                        if self.mentions(f) & self.effb or "$print" in self.mentions(f):
                            self.effb.add(f.short)
                if len(self.effb) == n0:
                    break
        return name in self.effb or (not sub and self.other is not None and self.other.iseff(name, True))

    def cands(self, name, nargs, rty):
        cs = [f for f in self.meth.get(name, ()) if f.selfm and len(f.params) == nargs]
        if rty is not None:
            h = rty[0][3:] if rty[0].startswith("rs.") else rty[0]
            own = [f for f in cs if f.owner == h]
            if own:
                return own
            if rty[0] in ("seq", "map", "set", "nat", "int", "bool", "tuple", "rs.Option", "rs.Result"):
                return [f for f in cs if f.impl is not None and f.impl.kind == "trait" and name not in BUILTINS]
            if h in self.structs or h in self.enums:
                return [f for f in cs if f.impl is not None and f.impl.kind == "trait"]
        elif name in BUILTINS:
            return []
        return cs

    def call(self, ex, st, fr, x, stmt):
        _, f, argx, _ = x
        if f[0] == "print":
            return [(s, vs if vs[0] == "$exit" else self.noise(ex, s, vs[1])) for s, vs in ex.es(st, fr, argx)]
        if f[0] == "val":
            out = []
            for s, v in ex.e(st, fr, f[1]):
                if v[0] == "$exit":
                    out.append((s, v))
                    continue
                for s2, vs in ex.es(s, fr, argx):
                    if vs[0] == "$exit":
                        out.append((s2, vs))
                    elif v[0] == "lamx":
                        t = T.subst(v[2], {("b", v[1], i): a for i, a in enumerate(vs[1])})
                        out.append((s2, t))
                    else:
                        out.append((s2, app("apply", v, *vs[1])))
            return out
        if f[0] == "fn":
            return self.fncall(ex, st, fr, f[1], argx)
        _, rx, m = f
        out = []
        if m == "get" and not argx and rx == ("term", GHOST):
            return [(st, GHOST)]
        for s, lv in ex.lval(st, fr, rx):
            if lv[0] == "$exit":
                out.append((s, lv))
                continue
            recv = ex.read(s, lv)
            if recv[0] == "$ptr":
                lv = recv[1]
                recv = ex.read(s, lv)
            cs = self.cands(m, len(argx), self.tyof(recv))
            if m == "clone" and not argx:
                # required of every clone method for itself
                out.append((s, recv))
                continue
            if not cs:
                out += self.args(ex, s, fr, argx, None, lambda s2, a: self.builtin(ex, s2, fr, lv, m, a))
                continue
            fn = self.pick(cs, recv)
            sig = fn or cs[0]
            out += self.args(ex, s, fr, argx, sig, lambda s2, a: self.userm(ex, s2, fr, fn, sig, lv, m, a))
        return out

    def pick(self, cs, recv):
        b = [f for f in cs if self.body(f) is not None]
        if len(b) == 1 and len(cs) == 1:
            return b[0]
        if len(cs) > 1 and self.tyof(recv) is not None:
            own = [f for f in b if "rs." + str(f.owner) == self.tyof(recv)[0]]
            if len(own) == 1:
                return own[0]
        return None

    def args(self, ex, st, fr, argx, sig, k):
        cur = [(st, ())]
        out = []
        for i, a in enumerate(argx):
            nx = []
            p = sig.params[i] if sig is not None and i < len(sig.params) else None
            for s, vs in cur:
                if p is not None and p["ghost"]:
                    nx.append((s, vs + (GHOST,)))
                    continue
                byref = p["mode"] == "ref" if p is not None else a[0] == "addr"
                if byref:
                    y = a[1] if a[0] == "addr" else a
                    for s2, lv in ex.lval(s, fr, y):
                        if lv[0] == "$exit":
                            out.append((s2, lv))
                        elif lv[0] == "val":
                            v = lv[1]
                            nx.append((s2, vs + ((("$lv", v[1]) if v[0] == "$ptr" else v),)))
                        else:
                            v = ex.read(s2, lv)
                            nx.append((s2, vs + (("$lv", v[1] if v[0] == "$ptr" else lv),)))
                    continue
                for s2, v in ex.e(s, fr, a):
                    if v[0] == "$exit":
                        out.append((s2, v))
                    else:
                        if v[0] == "$ptr":
                            v = ex.read(s2, v[1])
                        nx.append((s2, vs + (v,)))
            cur = nx
        for s, vs in cur:
            out += k(s, list(vs))
        return out

    def noise(self, ex, st, vs):
        return ex.event(st, "print", tuple(vs))

    def opaque(self, ex, st, fr, name, sig, recvlv, a, eff):
        """a call that is not followed: new values for what it may change"""
        vals = [ex.read(st, v[1]) if v[0] == "$lv" else v for v in a]
        recv = [ex.read(st, recvlv)] if recvlv is not None else []
        muts = [v[1] for v in a if v[0] == "$lv"]
        selfm = recvlv is not None and recvlv[0] != "val" and (sig.selfm == "&mut" if sig is not None else eff)
        args = tuple(recv + vals)
        if eff:
            r = ex.event(st, name, args)
        else:
            r = app(name, *args)
        if sig is not None and sig.rtype:
            ty = sig.rtype
            if sig.impl is not None:
                ty = re.sub(r"\bSelf\b", sig.impl.name, ty)
            self.settype(r, ty)
        if name.lstrip(".") in INTERIOR:
            selfm = False       # what the lock protects changes, not the place the lock is kept in
        for i, lv in enumerate(([recvlv] if selfm else []) + muts):
            old = ex.read(st, lv)
            v = app("after", r, T.num(i))
            t = self.tyof(old)
            if t:
                T.TYPES.setdefault(v, t)
            ex.write(st, lv, v)
        return [(st, r)]

    def userm(self, ex, st, fr, fn, sig, lv, m, a):
        if fn is None or self.ext(fn) or self.kept(ex, fn) or fn in ex.stack or self.body(fn) is None:
            eff = sig.external or self.iseff(m)
            return self.opaque(ex, st, fr, m, sig, lv, a, eff)
        this = ("$lv", lv) if fn.selfm in ("&mut", "&") and lv[0] != "val" else ex.read(st, lv)
        return ex.inline(st, fn, a, this)

    def ext(self, fn):
        """trusted, and a boundary on both sides: one that only this side has is a helper, and what it does is in its body"""
        return fn.external and (self.other is None or not self.other.fns or any(g.external for g in self.other.fns.values() if g.name == fn.name))

    def kept(self, ex, fn):
        return fn.name in ex.keep or (fn.file, fn.name) in ex.keep

    def fncall(self, ex, st, fr, q, argx):
        ps = q.split("::")
        last = ps[-1]
        if q == "$range":
            return [(s, vs if vs[0] == "$exit" else ("range",) + vs[1]) for s, vs in ex.es(st, fr, argx)]
        if q == "$slice":
            out = []
            for s, vs in ex.es(st, fr, argx):
                if vs[0] == "$exit":
                    out.append((s, vs))
                else:
                    v, lo = vs[1][0], vs[1][1]
                    out.append((s, T.slice_(v, lo, vs[1][2] if len(vs[1]) > 2 else T.card(v))))
            return out
        if last in ("Some", "Ok", "Err") and len(argx) == 1:
            return [(s, vs if vs[0] == "$exit" else (s and T.ctor(last, (("0", vs[1][0]),), "rs.Option" if last == "Some" else "rs.Result"))) for s, vs in ex.es(st, fr, argx)]
        if last == "swap" and len(argx) == 2 and all(a[0] == "addr" for a in argx):
            out = []
            for s, l1 in ex.lval(st, fr, argx[0][1]):
                for s2, l2 in ex.lval(s, fr, argx[1][1]):
                    a, b = ex.read(s2, l1), ex.read(s2, l2)
                    ex.write(s2, l1, b)
                    ex.write(s2, l2, a)
                    out.append((s2, NONE))
            return out
        if last in ("replace", "take") and argx and argx[0][0] == "addr":
            out = []
            for s, l1 in ex.lval(st, fr, argx[0][1]):
                for s2, vs in ex.es(s, fr, argx[1:]):
                    if vs[0] == "$exit":
                        out.append((s2, vs))
                        continue
                    a = ex.read(s2, l1)
                    ex.write(s2, l1, vs[1][0] if vs[1] else self.emptyof(a))
                    out.append((s2, a))
            return out
        if ps[0] in ("Vec", "VecDeque") and last in ("new", "with_capacity"):
            return [(s, vs if vs[0] == "$exit" else ("seq",)) for s, vs in ex.es(st, fr, argx)]
        if ps[0] in ("HashMap", "HashMapWithView", "BTreeMap") and last == "new":
            return [(st, ("map",))]
        if ps[0] in ("AtomicU64", "AtomicUsize", "AtomicU32", "Arc", "Box", "Mutex", "RwLock", "Rc") and last == "new" and len(argx) == 1:
            return ex.e(st, fr, argx[0])
        if last == "array_repeat" or q == "vec_repeat":
            out = []
            for s, vs in ex.es(st, fr, argx):
                out.append((s, vs if vs[0] == "$exit" else app("repeat", *vs[1])))
            return out
        var = self.variant(q)
        cs = []
        if len(ps) > 1:
            cs = [f for f in self.meth.get(last, ()) if f.owner == ps[-2]]
        else:
            cs = list(self.free.get(last, ()))
        if not cs and (var is not None or self.structname(q) is not None and last[0].isupper()):
            return [(s, vs if vs[0] == "$exit" else self.mk(q, [str(i) for i in range(len(vs[1]))], vs[1])) for s, vs in ex.es(st, fr, argx)]
        if not cs:
            return self.args(ex, st, fr, argx, None, lambda s, a: self.opaque(ex, s, fr, q, None, None, a, last in EFFECTS))
        # a method written as a path: the receiver is the first argument
        fn = cs[0] if len(cs) == 1 else None
        sig = cs[0]
        if sig.selfm:
            out = []
            a0 = argx[0][1] if argx[0][0] == "addr" else argx[0]
            for s, lv in ex.lval(st, fr, a0):
                if lv[0] == "$exit":
                    out.append((s, lv))
                else:
                    out += self.args(ex, s, fr, argx[1:], sig, lambda s2, a: self.userm(ex, s2, fr, fn, sig, lv, last, a))
            return out

        def go(s, a):
            if fn is None or self.ext(fn) or self.kept(ex, fn) or fn in ex.stack or self.body(fn) is None:
                return self.opaque(ex, s, fr, q, sig, None, a, sig.external and not pureret(sig) or self.iseff(last))
            return ex.inline(s, fn, a)
        return self.args(ex, st, fr, argx, sig, go)

    def emptyof(self, v):
        k = self.kind(v)
        return ("seq",) if k == "seq" else ("map",) if k == "map" else RNONE if k == "rs.Option" else app("default", v)

    def builtin(self, ex, st, fr, lv, m, a):
        r = ex.read(st, lv)
        v = [ex.read(st, x[1]) if x[0] == "$lv" else x for x in a]
        k = self.kind(r)
        w = lambda t: ex.write(st, lv, self.typed(t, r))
        if m in IDENT and not a:
            return [(st, r)]
        if m == "len" and not a:
            return [(st, T.card(r))]
        if m == "is_empty" and not a:
            return [(st, T.eq(T.card(r), T.num(0)))]
        if lv[0] != "val":
            if m in ("push", "push_back") and len(v) == 1:
                w(T.concat(r, ("seq", v[0])))
                return [(st, NONE)]
            if m == "set" and len(v) == 2:
                w(T.mupd(r, v[0], v[1]))
                return [(st, NONE)]
            if m == "clear" and not v:
                w(("map",) if k == "map" else ("seq",))
                return [(st, NONE)]
            if m == "swap" and len(v) == 2 and k != "map":
                x, y = T.idx(r, v[0]), T.idx(r, v[1])
                w(T.mupd(T.mupd(r, v[0], y), v[1], x))
                return [(st, NONE)]
            if m in ("extend_from_slice", "append", "extend") and len(v) == 1 and k != "map":
                w(T.concat(r, v[0]))
                if m == "append" and a[0][0] == "$lv":
                    ex.write(st, a[0][1], ("seq",))
                return [(st, NONE)]
            if m == "truncate" and len(v) == 1:
                w(T.ite(T.le(T.card(r), v[0]), r, T.slice_(r, T.num(0), v[0])))
                return [(st, NONE)]
            if m in ("pop", "pop_back") and not v:
                n = T.card(r)
                e = T.eq(n, T.num(0))
                last = self.index(r, T.sub(n, T.num(1)))
                out = []
                y, z = ex.split(st, e)
                if y is not None:
                    out.append((y, RNONE))
                if z is not None:
                    ex.write(z, lv, self.typed(T.slice_(r, T.num(0), T.sub(n, T.num(1))), r))
                    out.append((z, SOME(last)))
                return out
            if m == "insert" and len(v) == 2 and k == "map":
                w(T.mupd(r, v[0], v[1]))
                return [(st, T.ite(T.mk_in(v[0], r), SOME(T.idx(r, v[0])), RNONE))]
            if m == "insert" and len(v) == 2 and k == "seq":
                w(T.concat(T.slice_(r, T.num(0), v[0]), ("seq", v[1]), T.slice_(r, v[0], T.card(r))))
                return [(st, NONE)]
            if m == "remove" and len(v) == 1 and k == "seq":
                w(T.concat(T.slice_(r, T.num(0), v[0]), T.slice_(r, T.add(v[0], T.num(1)), T.card(r))))
                return [(st, self.index(r, v[0]))]
            if m == "remove" and len(v) == 1 and k == "map":
                w(("mrem", r, v[0]))
                return [(st, T.ite(T.mk_in(v[0], r), SOME(T.idx(r, v[0])), RNONE))]
            if m == "take" and not v:
                w(RNONE)
                return [(st, r)]
            if m == "replace" and len(v) == 1:
                w(SOME(v[0]))
                return [(st, r)]
        if m in ("contains_key",) and len(v) == 1 or m == "contains" and len(v) == 1:
            return [(st, self.mkbool(T.mk_in(v[0], r)))]
        if m == "get" and len(v) == 1:
            if k == "map":
                return [(st, T.ite(T.mk_in(v[0], r), SOME(T.idx(r, v[0])), RNONE))]
            return [(st, T.ite(T.lt(v[0], T.card(r)), SOME(self.index(r, v[0])), RNONE))]
        if m == "index" and len(v) == 1:
            return [(st, self.index(r, v[0]))]
        if m in ("first", "last") and not v:
            n = T.card(r)
            i = T.num(0) if m == "first" else T.sub(n, T.num(1))
            return [(st, T.ite(T.eq(n, T.num(0)), RNONE, SOME(self.index(r, i))))]
        if m in ("is_some", "is_none", "is_ok", "is_err") and not v:
            c = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[m]
            return [(st, self.mkbool(T.mk_is(r, c, "rs.Option" if c in ("Some", "None") else "rs.Result")))]
        if m in ("unwrap", "expect", "unwrap_err", "$unwrap_mut"):
            o = self.tyof(r)
            opt = not (o and o[0] == "rs.Result")
            good = T.mk_is(r, "Some" if opt else "Ok" if m != "unwrap_err" else "Err", "rs.Option" if opt else "rs.Result")
            self.mkbool(good)
            out = []
            y, z = ex.split(st, good)
            if y is not None:
                out.append((y, ("$ptr", (lv[0], lv[1] + (("f", "0"),))) if m == "$unwrap_mut" and lv[0] != "val" else self.field(y, r, "0")))
            if z is not None:
                out.append((z, ("$exit", ("raise", ("str", "unreached")))))
            return out
        if m == "unwrap_or" and len(v) == 1:
            return [(st, T.ite(T.mk_is(r, "Some", "rs.Option"), self.field(st, r, "0"), v[0]))]
        if m in ("wrapping_add",):
            return [(st, app("wrap+", *T.srt([r] + v)))]
        if m in ("min", "max") and len(v) == 1 and k in ("int", "nat"):
            c = T.le(r, v[0])
            return [(st, T.ite(c, r, v[0]) if m == "min" else T.ite(c, v[0], r))]
        if m in ATOMIC:
            e = ex.event(st, m, (r,) + tuple(v[:-1] if len(v) > 1 else v))
            if m != "load":
                if lv[0] != "val":
                    n = {"fetch_add": lambda: T.add(r, v[0]), "fetch_sub": lambda: T.sub(r, v[0]), "store": lambda: v[0]}.get(m, lambda: app("after", e, T.num(0)))()
                    ex.write(st, lv, n)
            return [(st, r if m in ("fetch_add", "fetch_sub", "load") else NONE)]
        muts = [x for x in a if x[0] == "$lv"]
        return self.opaque(ex, st, fr, "." + m, None, lv, a, bool(muts) or m in EFFECTS)

    def typed(self, t, like):
        ty = self.tyof(like)
        if ty:
            T.TYPES.setdefault(t, ty)
        return t

    def new(self, ex, st, fr, x):
        raise Unsupported("new")


INTERIOR = {"acquire_read", "acquire_write", "release_read", "release_write", "downgrade", "lock", "unlock", "borrow_mut", "send"}
ATOMIC = {"fetch_add", "fetch_sub", "store", "load", "compare_exchange"}
EFFECTS = {"acquire_read", "acquire_write", "release_read", "release_write", "downgrade", "into_inner", "get_mut", "send", "recv", "write_all", "read_exact", "flush", "sync_all", "spawn", "lock", "unlock", "join", "read_line", "exit", "write_at", "read_at", "resize", "copy_from_slice",
           "sort", "reverse", "retain", "dedup", "insert", "remove", "push", "pop", "append", "clear", "swap_remove", "drain", "set_and_swap", "extend_from_vec"}
BUILTINS = {"len", "push", "pop", "insert", "remove", "contains_key", "contains", "get", "index", "set", "swap", "clear", "truncate", "is_empty", "is_some",
            "is_none", "unwrap", "$unwrap_mut", "expect", "clone", "iter", "append", "extend_from_slice", "first", "last", "take", "replace", "resize"} | ATOMIC


def pureret(sig):
    return False


def rnorm(b):
    from . import flowcpp
    return b


class Exec(flow.Exec):
    def e(self, st, fr, x, stmt=False, boolctx=False):
        if x[0] in ("path", "as", "isx", "mk", "structupd", "tryx"):
            return self.w.xe(self, st, fr, x)
        return super().e(st, fr, x, stmt, boolctx)

    def summarise(self, fn, args=None, this=None):
        self.w.body(fn)
        return super().summarise(fn, args, this)

    def inline(self, st, fn, args, this=None, reflvs=None):
        self.w.body(fn)
        return super().inline(st, fn, args, this, reflvs)


World.ExecCls = Exec
