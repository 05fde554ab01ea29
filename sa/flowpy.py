"""Python front end of the path summaries (sa.flow)."""
import ast
import warnings
import os
import re
from . import flow, term as T
from .flow import NONE, Fn, Unsupported, app, fmt
from .term import TRUE, FALSE, mk_and, mk_or, mk_not

BUILTIN_PURE = {"str", "len", "int", "float", "sorted", "min", "max", "set", "list", "dict", "tuple", "range", "enumerate", "zip",
                "any", "all", "isinstance", "repr", "abs", "sum", "bool", "reversed", "hash", "getattr", "hasattr", "type", "ord",
                "chr", "map", "filter", "frozenset", "iter", "next", "round"}
IMPURE = {"print", "input", "exec", "eval"}
IMPURE_PREFIX = ("subprocess.", "shutil.", "os.mkdir", "os.makedirs", "os.remove", "os.rename", "os.chdir", "os.system", "os.unlink",
                 "sys.stdout.", "sys.stderr.", "time.", "random.", "socket.")
IGNORED = {".close", ".flush", "sys.stdout.flush", "sys.stderr.flush"}
NOTHROW = BUILTIN_PURE - {"int", "float", "next", "getattr"}
LISTM = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "discard", "update", "setdefault"}
STRM = {"replace", "endswith", "startswith", "strip", "rstrip", "lstrip", "split", "rsplit", "splitlines", "join", "format", "lower", "upper",
        "encode", "decode", "find", "rfind", "index", "count", "isdigit", "ljust", "rjust", "zfill", "partition", "rpartition"}
STRRES = {".replace", ".strip", ".rstrip", ".lstrip", ".join", ".lower", ".upper", ".decode", ".format", "str", "fmt", "os.path.join", "os.path.abspath",
          "os.path.dirname", "os.path.basename", "os.path.relpath", "os.path.normpath", ".read", "repr", "re.sub", ".readline"}
LISTRES = {".split", ".splitlines", ".readlines", "sorted", "list", ".keys", ".values", "re.findall", "glob.glob", "os.listdir"}
MATCHRES = {"re.search", "re.match", "re.fullmatch"}


INTRES = {"subprocess.call", "os.system", ".count", ".find", ".rfind", "len", "int", "ord", "os.path.getsize", "min", "max"} - {"min", "max"}
EMPTIES = {"list": ("list", []), "set": ("call", ("name", "set"), [], {}), "dict": ("dict", []), "int": ("int", 0)}
WRAPSEQ = {"list", "tuple", "iter", ".keys", "dom"}
DEFAULTKW = {("subprocess.", "shell", ("bool", False)), ("subprocess.", "check", ("bool", False)), ("sorted", "reverse", ("bool", False)),
             ("subprocess.", "cwd", None), ("subprocess.", "env", None), ("subprocess.", "stdin", None), ("subprocess.", "stdout", None),
             ("subprocess.", "stderr", None), ("sorted", "key", None)}


def fmt(vs):
    """a formatted string; a choice between strings is a choice between the results"""
    vs = [v[2] if v[0] == "app" and v[1] == "str" and len(v) == 3 else v for v in vs]
    if sum(1 for v in vs if v[0] == "ite") <= 3:
        for i, v in enumerate(vs):
            if v[0] == "ite":
                return T.ite(v[1], fmt(vs[:i] + [v[2]] + vs[i + 1:]), fmt(vs[:i] + [v[3]] + vs[i + 1:]))
    r = flow.fmt(vs)
    if r[0] == "app" and r[1] == "fmt" and len(r) == 3 and World.kind(World, r[2]) == "str":
        return r[2]
    return r


class Tr:
    """ast -> statement language"""

    def __init__(self, world, file):
        self.w, self.file = world, file
        self.tmp = 0
        self.defaults = {}

    def body(self, ss):
        out = []
        for s in ss:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return []
        if isinstance(s.value, (ast.Yield,)):
            return [("aug", "+", ("name", "$yield"), ("list", [self.e(s.value.value)]))]
        if isinstance(s.value, ast.YieldFrom):
            return [("aug", "+", ("name", "$yield"), self.e(s.value.value))]
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Subscript) \
                and isinstance(c.func.value.value, ast.Name) and c.func.value.value.id in self.defaults:
            self.tmp += 1
            k = ("name", "$key%d" % self.tmp)
            i = ("index", self.e(c.func.value.value), k)
            return [("assign", [k], self.e(c.func.value.slice)),
                    ("if", ("cmp", "in", k, i[1]), [], [("assign", [i], self.defaults[c.func.value.value.id])]),
                    ("expr", ("call", ("attr", i, c.func.attr), [self.e(y) for y in c.args], {}))]
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) \
                and isinstance(c.func.value.func, ast.Attribute) and c.func.value.func.attr == "setdefault" and len(c.func.value.args) == 2 \
                and not any(isinstance(y, ast.Call) for y in ast.walk(c.func.value.func.value)):
            # what setdefault returns is the value held in the map
            self.tmp += 1
            k = ("name", "$key%d" % self.tmp)
            d = self.e(c.func.value.func.value)
            i = ("index", d, k)
            return [("assign", [k], self.e(c.func.value.args[0])),
                    ("if", ("cmp", "in", k, d), [], [("assign", [i], self.e(c.func.value.args[1]))]),
                    ("expr", ("call", ("attr", i, c.func.attr), [self.e(y) for y in c.args], {}))]
        return [("expr", self.e(s.value))]

    def s_Pass(self, s):
        return []

    def s_Import(self, s):
        return []
    s_ImportFrom = s_Import

    def s_Global(self, s):
        return [("globaldecl", n) for n in s.names]
    s_Nonlocal = lambda self, s: []

    def s_Assign(self, s):
        c = s.value
        if isinstance(c, ast.Call) and dotted(c.func) in ("collections.defaultdict", "defaultdict") and len(c.args) == 1 and not c.keywords \
                and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(c.args[0], ast.Name) and c.args[0].id in EMPTIES:
            self.defaults[s.targets[0].id] = EMPTIES[c.args[0].id]
            return [("assign", [self.tgt(s.targets[0])], ("dict", []))]
        return [("assign", [self.tgt(t) for t in s.targets], self.e(s.value))]

    def s_AnnAssign(self, s):
        return [("assign", [self.tgt(s.target)], self.e(s.value))] if s.value is not None else []

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.defaults:
            self.tmp += 1
            k = ("name", "$key%d" % self.tmp)
            i = ("index", self.e(t.value), k)
            return [("assign", [k], self.e(t.slice)),
                    ("if", ("cmp", "in", k, i[1]), [], [("assign", [i], self.defaults[t.value.id])]), ("aug", OPS[type(s.op)], i, self.e(s.value))]
        return [("aug", OPS[type(s.op)], self.tgt(s.target), self.e(s.value))]

    def s_If(self, s):
        return [("if", self.e(s.test), self.body(s.body), self.body(s.orelse))]

    def s_While(self, s):
        return [("while", self.e(s.test), self.body(s.body), [], self.body(s.orelse))]

    def s_For(self, s):
        return [("foreach", self.tgt(s.target), self.e(s.iter), self.body(s.body), self.body(s.orelse))]

    def s_Return(self, s):
        return [("return", self.e(s.value) if s.value is not None else None)]

    def s_Raise(self, s):
        return [("raise", self.e(s.exc) if s.exc is not None else None)]

    def s_Break(self, s):
        return [("break",)]

    def s_Continue(self, s):
        return [("continue",)]

    def s_Assert(self, s):
        return [("assert", self.e(s.test), "raise", "AssertionError")]

    def s_Try(self, s):
        hs = []
        for h in s.handlers:
            if h.type is None:
                ns = ()
            elif isinstance(h.type, ast.Tuple):
                ns = tuple(dotted(x) for x in h.type.elts)
            else:
                ns = (dotted(h.type),)
            hs.append((ns, h.name, self.body(h.body)))
        return [("try", self.body(s.body), hs, self.body(s.orelse), self.body(s.finalbody))]

    def s_With(self, s):
        out = []
        for it in s.items:
            if it.optional_vars is not None:
                out.append(("assign", [self.tgt(it.optional_vars)], self.e(it.context_expr)))
            else:
                out.append(("expr", self.e(it.context_expr)))
        return out + self.body(s.body)

    def s_FunctionDef(self, s):
        return [("nested", self.w.mkfn(s, self.file, None, s.name))]

    def s_Delete(self, s):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                out.append(("expr", ("call", ("attr", self.e(t.value), "$del"), [self.e(t.slice)], {})))
        return out

    def tgt(self, t):
        if isinstance(t, ast.Name):
            return ("name", t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            return ("tuple", [self.tgt(x) for x in t.elts])
        return self.e(t)

    def e(self, x):
        m = getattr(self, "e_" + type(x).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(x).__name__)
        return m(x)

    def e_Constant(self, x):
        v = x.value
        if v is None:
            return ("none",)
        if isinstance(v, bool):
            return ("bool", v)
        if isinstance(v, int):
            return ("int", v)
        if isinstance(v, str):
            return ("str", v)
        return ("term", app("const", ("str", repr(v))))

    def e_Name(self, x):
        return ("name", x.id)

    def e_Attribute(self, x):
        d = dotted(x)
        return ("attr", self.e(x.value), x.attr)

    def e_Subscript(self, x):
        if isinstance(x.slice, ast.Slice):
            s = x.slice
            if s.step is not None:
                return ("call", ("name", "$step"), [self.e(x.value)] + [self.e(y) if y else ("none",) for y in (s.lower, s.upper, s.step)], {})
            return ("call", ("name", "$slice"), [self.e(x.value)] + [self.e(y) if y else ("none",) for y in (s.lower, s.upper)], {})
        if isinstance(x.value, ast.Name) and x.value.id in self.defaults and isinstance(x.ctx, ast.Load):
            return ("call", ("attr", self.e(x.value), "setdefault"), [self.e(x.slice), self.defaults[x.value.id]], {})
        return ("index", self.e(x.value), self.e(x.slice))

    def e_Call(self, x):
        f = x.func
        args = []
        for a in x.args:
            args.append(("call", ("name", "$star"), [self.e(a.value)], {}) if isinstance(a, ast.Starred) else self.e(a))
        kw = {k.arg: self.e(k.value) for k in x.keywords}
        if isinstance(f, ast.Name) and len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp):
            g = x.args[0]
            kinds = {"any": "any", "all": "all", "list": "list", "set": "set", "sum": "sum", "tuple": "list"}
            if f.id in kinds:
                return ("compr", kinds[f.id], self.e(g.elt), self.gens(g.generators))
        if isinstance(f, ast.Name) and f.id in ("map", "filter") and len(x.args) == 2 and isinstance(x.args[0], ast.Lambda):
            la = x.args[0]
            p = ("name", la.args.args[0].arg)
            if f.id == "map":
                return ("compr", "list", self.e(la.body), [(p, self.e(x.args[1]), [])])
            return ("compr", "list", p, [(p, self.e(x.args[1]), [self.e(la.body)])])
        if isinstance(f, ast.Attribute):
            return ("call", ("attr", self.e(f.value), f.attr), args, kw)
        if isinstance(f, ast.Name):
            return ("call", ("name", f.id), args, kw)
        return ("call", ("expr", self.e(f)), args, kw)

    def gens(self, gs):
        return [(self.tgt(g.target), self.e(g.iter), [self.e(c) for c in g.ifs]) for g in gs]

    def e_ListComp(self, x):
        return ("compr", "list", self.e(x.elt), self.gens(x.generators))
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, x):
        return ("compr", "set", self.e(x.elt), self.gens(x.generators))

    def e_DictComp(self, x):
        return ("compr", "dict", (self.e(x.key), self.e(x.value)), self.gens(x.generators))

    def e_BoolOp(self, x):
        op = "and" if isinstance(x.op, ast.And) else "or"
        r = self.e(x.values[-1])
        for v in reversed(x.values[:-1]):
            r = (op, self.e(v), r)
        return r

    def e_UnaryOp(self, x):
        if isinstance(x.op, ast.Not):
            return ("not", self.e(x.operand))
        if isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant):
            return ("int", -x.operand.value) if isinstance(x.operand.value, int) else ("un", "-", self.e(x.operand))
        return ("un", {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(x.op)], self.e(x.operand))

    def e_BinOp(self, x):
        return ("bin", OPS[type(x.op)], self.e(x.left), self.e(x.right))

    def e_Compare(self, x):
        parts = []
        l = x.left
        for o, r in zip(x.ops, x.comparators):
            parts.append(("cmp", CMP[type(o)], self.e(l), self.e(r)))
            l = r
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = ("and", p, r)
        return r

    def e_IfExp(self, x):
        return ("cond", self.e(x.test), self.e(x.body), self.e(x.orelse))

    def e_List(self, x):
        return self.seqlit("list", x)

    def e_Tuple(self, x):
        return self.seqlit("tuple", x)

    def e_Set(self, x):
        return ("set", [self.e(y) for y in x.elts])

    def seqlit(self, k, x):
        if any(isinstance(y, ast.Starred) for y in x.elts):
            r = None
            for y in x.elts:
                p = self.e(y.value) if isinstance(y, ast.Starred) else ("list", [self.e(y)])
                r = p if r is None else ("bin", "+", r, p)
            return r
        return (k, [self.e(y) for y in x.elts])

    def e_Dict(self, x):
        return ("dict", [(self.e(k), self.e(v)) for k, v in zip(x.keys, x.values)])

    def e_Lambda(self, x):
        return ("lambda", [a.arg for a in x.args.args], self.e(x.body))

    def e_JoinedStr(self, x):
        ps = []
        for v in x.values:
            if isinstance(v, ast.Constant):
                ps.append(("str", v.value))
            else:
                ps.append(("call", ("name", "str"), [self.e(v.value)], {}))
        return ("fmt", ps)

    def e_NamedExpr(self, x):
        return ("asg", ("name", x.target.id), self.e(x.value))

    def e_Starred(self, x):
        raise Unsupported("starred expression")


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&",
       ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}


def dotted(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        d = dotted(x.value)
        return d + "." + x.attr if d else None
    return None


class World:
    """the Python modules of one tree"""
    rebinds = True
    valueand = True
    lamterm = True
    cmpexit = True
    diverges = False
    ExecCls = flow.Exec
    boolvars = True
    fills = False
    python = True
    writers = {".write", "sys.stdout.write", "sys.stderr.write"}

    def argterm(self, fn, p):
        return ("var", p["name"])

    def thisterm(self, fn):
        return None

    def paramtype(self, v, ty):
        pass

    def __init__(self, texts, search=()):
        """texts: {module name: source}; search: directories for imports"""
        self.fns = {}       # (module, name) -> Fn
        self.classes = {}   # (module, cls) -> (bases, {method: Fn})
        self.consts = {}    # (module, name) -> IR
        self.imports = {}   # module -> [(alias, modname or None for star, attr)]
        self.main = {}      # module -> Fn of the module-level statements
        self.methods = {}   # name -> [Fn]
        self.texts = texts
        self.constdone = {}
        self.effect = {}
        self.mutating = {}
        self.outer = None
        for m, (src, f) in texts.items():
            self.load(m, src, f)

    def load(self, m, src, f):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        tr = Tr(self, m)
        self.imports[m] = []
        mainbody = []
        for s in tree.body:
            self.top(m, s, tr, mainbody, f)
        self.main[m] = Fn("<module %s>" % m, [], mainbody, m)

    def top(self, m, s, tr, mainbody, f):
        if isinstance(s, ast.FunctionDef):
            self.fns[m, s.name] = self.mkfn(s, m, None, s.name)
        elif isinstance(s, ast.ClassDef):
            ms = {}
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    fn = self.mkfn(b, m, s.name, s.name + "." + b.name)
                    ms[b.name] = fn
                    self.methods.setdefault(b.name, []).append(fn)
                    self.fns[m, s.name + "." + b.name] = fn
                elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                    ms["=" + b.targets[0].id] = tr.e(b.value)
            self.classes[m, s.name] = ([dotted(b) for b in s.bases], ms)
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[m].append((a.asname or a.name, a.name, None))
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                self.imports[m].append((a.asname or a.name, s.module, a.name))
        elif isinstance(s, ast.Try):
            for b in s.body:
                self.top(m, b, tr, mainbody, f)
        elif isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and [getattr(x, "id", getattr(x, "value", None)) for x in [s.test.left] + s.test.comparators] in (["__name__", "__main__"], ["__main__", "__name__"]) and isinstance(s.test.ops[0], ast.Eq):
            try:
                mainbody += tr.body(s.body)
            except Unsupported:
                mainbody.append(("unsup",))
        else:
            try:
                ir = tr.stmt(s)
            except Unsupported:
                ir = [("unsup",)]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                self.consts[m, s.targets[0].id] = ir[0][2] if ir[0][0] == "assign" else None
            mainbody += ir

    def mkfn(self, s, m, cls, name):
        ps = []
        a = s.args
        ds = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults)
        tr = Tr(self, m)
        static = any(dotted(d) == "staticmethod" for d in s.decorator_list)
        for i, (x, d) in enumerate(zip(a.args, ds)):
            if cls is not None and i == 0 and not static:
                continue
            ps.append({"name": x.arg, "mode": "val", "default": tr.e(d) if d is not None else None})
        if a.vararg:
            ps.append({"name": a.vararg.arg, "mode": "val", "star": True})
        try:
            body = tr.body(s.body)
            if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(s)):
                body = [("assign", [("name", "$yield")], ("list", []))] + body + [("return", ("name", "$yield"))]
            if cls is not None and not static and a.args:
                sn = a.args[0].arg
                if sn != "this":
                    body = [("selfname", sn)] + body
        except Unsupported as ex:
            body = [("unsup", str(ex))]
        return Fn(name, ps, body, m, cls if not static else None, "fn", s.lineno)

    # ---- hooks of flowref
    def find(self, n):
        m, f = n
        if f.startswith("=") and (m, f[1:]) in self.consts and n not in self.fns:
            self.fns[n] = Fn(f, [], [("return", ("name", f[1:]))], m)
        if f == "<module>" and n not in self.fns and m in self.main:
            self.fns[n] = Fn(f, [], self.main[m].body, m)
        return self.fns.get(n)

    def path(self, f):
        return self.texts[f.file][1]

    def begin(self, ref):
        self.other, ref.other = ref, self

    def mentions(self, f):
        out = set()
        for y in walk(f.body):
            if isinstance(y, tuple) and len(y) == 2 and y[0] == "name":
                out.add(y[1])
            if isinstance(y, tuple) and len(y) >= 3 and y[0] == "attr" and isinstance(y[2], str):
                out.add(y[2])
        for n in list(out):
            for (m, c) in self.classes:
                if c == n:
                    out |= {c + "." + k for k in self.classes[m, c][1]}
        return out

    # ---- what a function may modify
    def mods(self, fn, seen=()):
        """(field names, parameter indices) a call of fn may change, by its text and that of its callees"""
        k = ("mods", fn.file, fn.name)
        if k in self.effect:
            return self.effect[k]
        if fn in seen:
            return set(), set()
        fs, ps = set(), set()
        names = {p["name"]: i for i, p in enumerate(fn.params)}

        def hit(x):
            while isinstance(x, tuple) and x and x[0] == "index":
                x = x[1]
            if isinstance(x, tuple) and x and x[0] == "attr" and isinstance(x[2], str):
                fs.add(x[2])
            elif isinstance(x, tuple) and x and x[0] == "name" and x[1] in names:
                ps.add(names[x[1]])
        for y in walk(fn.body):
            if not isinstance(y, tuple) or not y:
                continue
            if y[0] == "assign":
                for t in y[1]:
                    for u in (t[1] if t[0] == "tuple" else [t]):
                        if u[0] != "name":
                            hit(u)
            elif y[0] == "aug":
                hit(y[2])
            elif y[0] == "call" and len(y) == 4:
                f = y[1]
                if f[0] == "attr" and f[2] in LISTM | {"$del"}:
                    hit(f[1])
                cs = []
                if f[0] == "attr":
                    cs = self.methods.get(f[2], []) if f[2] != "__init__" else []
                elif f[0] == "name":
                    cs = [g for (m, n), g in self.fns.items() if n == f[1]]
                for g in cs:
                    a, b = self.mods(g, seen + (fn,))
                    fs |= a
                    for i in b:
                        if i < len(y[2]):
                            hit(y[2][i])
            elif y[0] == "nested" and len(y) == 2:
                a, _ = self.mods(y[1], seen + (fn,))
                fs |= a
        if not seen:
            self.effect[k] = (fs, ps)
        return fs, ps

    def callmods(self, fn):
        fs, ps = self.mods(fn)
        other = getattr(self, "other", None)
        if other is not None:
            g = other.fns.get((fn.file, fn.name))
            if g is not None:
                a, b = other.mods(g)
                fs, ps = fs | a, ps | b
        return fs, ps

    # ---- hooks of Exec
    def settype(self, v, ty):
        pass

    def default(self, ty, name, st):
        return NONE

    def coerce(self, v, ty):
        return v

    def isheap(self, v):
        return v[0] == "new" or v == ("var", "this") or v[0] == "var" and bool(self.outerwrites()) and self.kind(v) is None

    def excname(self, x):
        if x[0] == "call" and x[1][0] == "name":
            return x[1][1]
        if x[0] == "name":
            return x[1]
        return "?"

    def catches(self, names, exc):
        n = exc[1] if exc[0] == "str" else "?"
        if n == "?ext":
            return True
        for c in names:
            if c in ("Exception", "BaseException") or c == n:
                return True
            cur = n
            for _ in range(6):
                k = [b for (m, cn), (b, _) in self.classes.items() if cn == cur]
                if not k or not k[0]:
                    break
                cur = k[0][0]
                if cur == c:
                    return True
        return False

    def kind(self, v):
        k = flow.Exec.kindof(v)
        if k:
            return k
        self = World
        if v[0] == "str":
            return "str"
        if v[0] == "app":
            if v[1] in STRRES:
                return "str"
            if v[1] in LISTRES:
                return "seq"
            if v[1] in ("set",):
                return "set"
            if v[1] in MATCHRES:
                return "match"
            if v[1] in INTRES:
                return "int"
            if v[1] in ("intersection", "setminus"):
                return "set"
        if v[0] == "ret" and v[1] in INTRES:
            return "int"
        if v[0] == "ite":
            k = World.kind(World, v[2])
            return k if k and k == World.kind(World, v[3]) else None
        if v[0] == "choose" and v[2][0] == "pair":
            return World.elemkind(self, v[2][1])
        return None

    def elemkind(self, coll):
        if coll[0] == "app" and coll[1] in (".readlines", ".splitlines", ".split", "open"):
            return "str"
        return None

    def elemtype(self, e, coll):
        k = self.elemkind(coll)
        if k:
            T.TYPES[e] = (k, ())

    def truth(self, v):
        if T.isbool(v):
            return v
        if v == NONE:
            return FALSE
        k = self.kind(v)
        if k in ("seq", "set", "map"):
            return T.ge0(T.sub(T.card(v), T.num(1)))
        if k == "int":
            return mk_not(T.eq(v, T.num(0)))
        if k == "match":
            return mk_not(self.eq(v, NONE))
        if k == "str":
            return mk_not(T.eq(v, ("str", "")))
        if v[0] == "ite":
            return T.ite(v[1], self.truth(v[2]), self.truth(v[3]))
        if v[0] in ("new", "ctor"):
            return TRUE
        return self.mkbool(app("truthy", v))

    def mkbool(self, t):
        T.TYPES[t] = ("bool", ())
        return t

    NONNONE = ("str", "int", "lin", "seq", "concat", "map", "mupd", "set", "union", "new", "tuple", "bool", "card", "slice", "in", "and", "or", "not")

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x == NONE:
                if y == NONE:
                    return TRUE
                if y[0] in self.NONNONE or y[0] == "ctor" or self.kind(y) in ("seq", "str", "set", "map", "int"):
                    return FALSE
                if y[0] == "ite":
                    return T.ite(y[1], self.eq(y[2], NONE), self.eq(y[3], NONE))
                return T.mk_is(y, "None", "flow.None")
            if x in (("seq",), ("map",)) and y[0] not in ("seq", "map"):
                return T.eq(T.card(y), T.num(0))
        return T.eq(a, b)

    def op(self, o, a):
        if len(a) == 1:
            if o == "-":
                return T.sub(T.num(0), a[0])
            return app("un" + o, a[0])
        x, y = a
        if o in ("==", "is"):
            return self.eq(x, y)
        if o in ("!=", "is not"):
            return mk_not(self.eq(x, y))
        if o == "<":
            return T.lt(x, y)
        if o == "<=":
            return T.le(x, y)
        if o == ">":
            return T.lt(y, x)
        if o == ">=":
            return T.le(y, x)
        if o in ("in", "not in"):
            r = self.isin(x, y)
            return r if o == "in" else mk_not(r)
        if o == "+":
            kx, ky = self.kind(x), self.kind(y)
            if "str" in (kx, ky):
                return fmt([piece(x), piece(y)])
            if "seq" in (kx, ky):
                r = T.concat(x, y)
                T.TYPES.setdefault(r, ("seq", ()))
                return r
            if "int" in (kx, ky) or x[0] == "acc" or T.numeric(x) or T.numeric(y):
                return T.add(x, y)
            return app("+", x, y)
        if o == "-":
            if self.kind(x) == "set":
                return app("setminus", x, y)
            return T.sub(x, y)
        if o == "*":
            return T.mul(x, y)
        if o == "&" and "set" in (self.kind(x), self.kind(y)):
            return self.intersection(x, y)
        if o == "|":
            if self.kind(x) == "set" or self.kind(y) == "set":
                return self.union(x, y)
            return app("|", x, y)
        if o == "%" and (x[0] == "str" or self.kind(x) == "str"):
            return percent(x, y)
        return app(o, x, y)

    def union(self, x, y):
        r = T.union(x, y)
        T.TYPES.setdefault(r, ("set", ()))
        return r

    def intersection(self, x, y):
        xs = sorted((v[2] if v[0] == "app" and v[1] == "set" and len(v) == 3 else v for v in (x, y)), key=T.key)
        r = app("intersection", *xs)
        T.TYPES.setdefault(r, ("set", ()))
        return r

    def isin(self, x, s):
        if s[0] == "tuple":
            s = ("seq",) + s[1:]
        if s[0] == "str" and x[0] == "str":
            return ("bool", x[1] in s[1])
        if s[0] == "app" and s[1] in ("set", "list", "sorted", "tuple", "frozenset", ".keys", "dom") and len(s) == 3:
            return self.isin(x, s[2])
        if s[0] in ("seq", "set"):
            return mk_or(*[self.eq(x, y) for y in s[1:]])
        return T.mk_in(x, s)

    def index(self, v, i):
        if v[0] == "app" and v[1] == "sorted" and len(v) == 3 and i in (T.num(0), T.num(-1)):
            return app("min" if i == T.num(0) else "max", v[2])
        if v[0] == "tuple" and i[0] == "int":
            k = i[1] if i[1] >= 0 else len(v) - 1 + i[1]
            if 0 <= k < len(v) - 1:
                return v[1 + k]
        if v[0] == "app" and v[1] == ".groups" and len(v) == 3 and i[0] == "int" and i[1] >= 0:
            return app(".group", v[2], T.num(i[1] + 1))
        if i[0] == "int" and i[1] < 0 and self.kind(v) != "map":
            i = T.add(T.card(v), i)
        return T.idx(v, i)

    def component(self, v, i):
        if v[0] == "tuple" and i < len(v) - 1:
            return v[1 + i]
        if v[0] == "ite":
            return T.ite(v[1], self.component(v[2], i), self.component(v[3], i))
        return self.index(v, T.num(i))

    def field(self, st, v, f):
        if v[0] == "ite":
            return T.ite(v[1], self.field(st, v[2], f), self.field(st, v[3], f))
        if v[0] == "ctor" and v[3] == "flow.new" and f not in [n for n, _ in v[2]]:
            d = self.classattr(v[1][4:], f)
            if d is not None:
                return d
        return T.dot(v, f)

    def classattr(self, cls, f):
        for (m, c), (bases, ms) in self.classes.items():
            if c == cls:
                if "=" + f in ms:
                    ir = ms["=" + f]
                    if ir[0] in ("int", "str", "bool"):
                        return T.num(ir[1]) if ir[0] == "int" else (ir[0], ir[1])
                    if ir[0] == "none":
                        return NONE
                for b in bases:
                    r = self.classattr(b, f)
                    if r is not None:
                        return r
        return None

    def setfield(self, v, f, x):
        if v[0] == "ctor" and v[3] == "flow.new":
            d = dict(v[2])
            d[f] = x
            return ("ctor", v[1], tuple(sorted(d.items())), v[3])
        return T.recupd(v, ((f, x),))

    def setindex(self, v, i, x):
        r = T.mupd(v, i, x)
        k = self.kind(v)
        if k:
            T.TYPES.setdefault(r, (k, ()))
        return r

    def elements(self, coll):
        """normalised collection and how to build what the loop variable sees"""
        if coll[0] == "app":
            f = coll[1]
            if f == ".items":
                d = coll[2]
                return d, lambda e: ("tuple", e, T.idx(d, e))
            if f == ".values":
                d = coll[2]
                return d, lambda e: T.idx(d, e)
            if f == "sorted" and len(coll) == 3 and coll[2][0] == "app" and coll[2][1] == ".items":
                d = coll[2][2]
                return app("sorted", d), lambda e: ("tuple", e, T.idx(d, e))
            if f == "zip" and len(coll) == 4 and coll[3] == app("slice", coll[2], T.num(1), NONE):
                s = coll[2]
                return ("range", T.num(0), T.sub(T.card(s), T.num(1))), lambda e: ("tuple", T.idx(s, e), T.idx(s, T.add(e, T.num(1))))
            if f in (".keys", "list", "tuple", "iter", ".readlines") and len(coll) == 3:
                if f == ".readlines":
                    return coll, lambda e: e
                return self.elements(coll[2])
            if f == "enumerate" and len(coll) in (3, 4):
                s = coll[2]
                lo = coll[3] if len(coll) == 4 else T.num(0)
                return ("range", T.num(0), T.card(s)), lambda e: ("tuple", T.add(e, lo), T.idx(s, e))
            if f == "open":
                c = app(".readlines", coll)
                return c, lambda e: e
            if f == "range":
                a = coll[2:]
                if len(a) == 1:
                    return ("range", T.num(0), a[0]), lambda e: e
                if len(a) == 2:
                    return ("range", a[0], a[1]), lambda e: e
        if coll[0] == "compr" and coll[1] == "fold" and coll[3][1] == ("seq",):
            # a list built from another collection: go over that one
            e0, a0 = ("b", coll[2], 0), ("b", coll[2], 1)

            def go(t):
                if t == a0:
                    return FALSE, None
                if t[0] == "concat" and len(t) == 3 and t[1] == a0 and t[2][0] == "seq" and len(t[2]) == 2:
                    return TRUE, t[2][1]
                if t[0] == "ite":
                    x, y = go(t[2]), go(t[3])
                    if x is None or y is None:
                        return None
                    return T.ite(t[1], x[0], y[0]), y[1] if x[1] is None else x[1] if y[1] is None else T.ite(t[1], x[1], y[1])
                return None
            r = go(coll[4])
            if r is not None and r[1] is not None and not flow.occurs(("pair", r[0], r[1]), [a0]):
                return coll[3][2], lambda e: T.subst(r[1], {e0: e}), lambda e: T.subst(r[0], {e0: e})
        return coll, lambda e: e

    def listof(self, coll, whole):
        """the list of a collection's elements; what is appended when it extends a list"""
        if self.kind(coll) == "seq":
            return coll
        if not self.python:
            return None
        if coll[0] == "app" and coll[1] in ("list", "tuple") and len(coll) == 3:
            coll = coll[2]
        if not whole:
            return coll
        r = app("list", coll)
        T.TYPES.setdefault(r, ("seq", ()))
        return r

    def joined(self, ps):
        return fmt([piece(p) for p in ps])

    def textstep(self, t, a):
        """the pieces appended to a text in one step, as a step of a list called $text"""
        if not self.python:
            return None
        if t == a:
            return ("var", "$text")
        if t[:2] == ("app", "fmt") and len(t) > 3 and t[2] == a:
            return T.concat(("var", "$text"), ("seq", fmt(list(t[3:]))))
        if t[0] == "ite":
            x, y = self.textstep(t[2], a), self.textstep(t[3], a)
            if x is not None and y is not None:
                return T.ite(t[1], x, y) if x != y else x
        return None

    def text(self, init, f):
        return fmt([init, self.jointext(f)])

    def jointext(self, f):
        def go(t):
            if t[0] == "concat":
                return T.concat(*[go(x) if x[0] == "seq" else x for x in t[1:]])
            if t[0] == "seq":
                return ("seq",) + tuple(fmt([piece(x)]) for x in t[1:])
            if t[0] == "ite":
                return T.ite(t[1], go(t[2]), go(t[3]))
            return t
        if f[0] == "compr" and f[1] == "fold" and f[3][1] == ("seq",):
            f = f[:4] + (go(f[4]),)
            T.TYPES.setdefault(f, ("seq", ()))
        if f[0] == "dot" and f[1][0] == "compr" and f[1][1] == "fold" and f[1][4][0] == "tuple" and f[2].isdigit() and f[1][3][1][1 + int(f[2])] == ("seq",):
            i, b = int(f[2]), f[1][4]
            f = ("dot", f[1][:4] + (b[:1 + i] + (go(b[1 + i]),) + b[2 + i:],), f[2])
            T.TYPES.setdefault(f, ("seq", ()))
        return app(".join", ("str", ""), f)

    def inside(self, e, coll):
        if coll[0] == "range":
            return mk_and(T.le(coll[1], e), T.lt(e, coll[2]))
        return self.isin(e, coll)

    def empty(self, coll):
        if coll[0] == "range":
            return T.le(coll[2], coll[1])
        return T.eq(T.card(coll), T.num(0))

    def literal(self, coll):
        if coll[0] in ("seq", "tuple"):
            return list(coll[1:])
        if coll[0] == "set" and len(coll) == 1:
            return []
        if coll[0] == "app" and coll[1] == "zip" and len(coll) > 3:
            ls = [self.literal(c) for c in coll[2:]]
            if all(l is not None for l in ls):
                return [("tuple",) + z for z in zip(*ls)]
        if coll[0] == "app" and coll[1] == "range" and all(c[0] == "int" for c in coll[2:]):
            r = range(*[c[1] for c in coll[2:]])
            if len(r) <= 24:
                return [T.num(i) for i in r]
        if coll[0] == "app" and coll[1] == "enumerate" and len(coll) in (3, 4):
            l = self.literal(coll[2])
            lo = coll[3] if len(coll) == 4 else T.num(0)
            if l is not None:
                return [("tuple", T.add(lo, T.num(i)), x) for i, x in enumerate(l)]
        if coll[0] == "app" and coll[1] in ("list", "tuple", "reversed") and len(coll) == 3:
            l = self.literal(coll[2])
            return l[::-1] if l and coll[1] == "reversed" else l
        return None

    def collref(self, x):
        return False

    def as_foreach(self, ex, st, fr, s):
        _, c, body, step, orelse = s[:5]
        # i = a; while i < n: ...; i += 1
        if c[0] == "cmp" and c[1] in ("<", "!=") and c[2][0] == "name" and body and body[-1][0] == "aug" and body[-1][1] == "+" \
                and body[-1][2] == c[2] and body[-1][3] == ("int", 1) and not has(body, "continue") \
                and not assigns(body[:-1], c[2][1]):
            i = c[2][1]
            lo = ex.pure(st, fr, c[2])
            hi = ex.pure(st.copy(), fr, c[3])
            if occurs_name(c[3], assigned(body)):
                return None
            coll = ("range", lo, hi)
            return ex.foreach(st, fr, ("name", i), coll, body[:-1], orelse)
        return None

    def deref(self, ex, st, b):
        return b

    def deref_write(self, ex, st, b, v):
        pass

    def outcells(self, st):
        return {k[2]: st.cells[k] for k, v in st.old.items() if st.cells[k] != v and self.kind(v) is None and v[0] == "var" and st.cells[k][0] in (
            "recupd", "concat", "mupd", "union")}

    def target(self, b):
        return b[1] if b[0] == "$ptr" else None

    def address(self, lv):
        return None

    # ---- names
    def modof(self, ex):
        return ex.stack[-1].file

    def lookup(self, ex, st, fr, n):
        par = st.env.get((fr, "$parent"))
        if par is not None:
            lv = st.env.get((par, n))
            if lv is not None:
                return (st, ex.read(st, lv))
            return self.lookup(ex, st, par, n)
        r = self.gname(ex, st, self.modof(ex), n)
        if r is not None:
            return (st, r)
        return (st, ("var", n))

    def gname(self, ex, st, m, n, depth=0):
        if (m, n) in self.fns:
            return ("fn", m, n)
        if (m, n) in self.classes:
            return ("cls", m, n)
        if (m, n) in self.consts:
            return self.const(ex, st, m, n)
        if depth < 4:
            for al, mod, attr in self.imports.get(m, []):
                if attr == "*" and mod in self.imports:
                    r = self.gname(ex, st, mod, n, depth + 1)
                    if r is not None:
                        return r
                elif al == n and attr is not None and mod in self.imports:
                    return self.gname(ex, st, mod, attr, depth + 1)
                elif al == n and attr is not None:
                    return ("var", mod + "." + attr)
                elif al == n and attr is None:
                    return ("var", mod)
        return None

    def const(self, ex, st, m, n):
        if ("const", m, n) in self.constdone:
            return self.constdone["const", m, n]
        ir = self.consts[m, n]
        val = None
        if ir is not None:
            self.constdone["const", m, n] = ("var", n)
            e2 = flow.Exec(self, keep=())
            e2.stack = [Fn("<const>", [], [], m)]
            s2 = flow.St()
            try:
                rs = e2.e(s2, e2.newframe(), ir)
                if len(rs) == 1 and rs[0][1][0] != "$exit" and not s2.events:
                    val = rs[0][1]
            except (Unsupported, flow.TooMany):
                val = None
        if val is None or self.reassigned(m, n):
            val = ("var", n)
        self.constdone["const", m, n] = val
        return val

    def reassigned(self, m, n):
        for (mm, _), f in self.fns.items():
            if mm == m and any(s == ("globaldecl", n) for s in f.body):
                return True
        return False

    def global_lv(self, ex, st, fr, n):
        par = st.env.get((fr, "$parent"))
        if par is not None:
            return st.env.get((par, n)) or self.global_lv(ex, st, par, n)
        return None

    def global_target(self, ex, st, fr, n):
        return None

    def special(self, ex, st, fr, x):
        if x[0] == "attr" and x[1][0] == "name" and (fr, x[1][1]) not in st.env:
            b = self.gname(ex, st, self.modof(ex), x[1][1])
            if b is not None and b[0] == "var" and b[1] in self.imports:
                r = self.gname(ex, st, b[1], x[2])
                if r is not None:
                    return [(st, r)]
            if b is not None and b[0] == "cls":
                r = self.classattr(b[2], x[2])
                if r is not None:
                    return [(st, r)]
        return None

    # ---- calls
    def lam(self, ex, st, fr, x):
        fr2 = ex.newframe()
        s = st.copy()
        bvs = []
        s.env[fr2, "$parent"] = fr
        for n in x[1]:
            b = T.fresh()
            bvs.append(b)
            s.env[fr2, n] = (s.cell(b, n), ())
        try:
            rs = ex.e(s, fr2, x[2])
        except Unsupported:
            rs = []
        if len(rs) != 1 or rs[0][1][0] == "$exit":
            raise Unsupported("lambda with effects")
        h, (b,) = T.bind("lamx", bvs, [rs[0][1]])
        return ("lamx", h, b)

    def findcls(self, ex, n):
        r = self.gname(ex, None, self.modof(ex), n)
        return r if r is not None and r[0] == "cls" else None

    def method(self, cls, name, m=None):
        for (mm, c), (bases, ms) in self.classes.items():
            if c == cls and (m is None or mm == m):
                if name in ms:
                    return ms[name]
                for b in bases:
                    r = self.method(b, name)
                    if r is not None:
                        return r
        return None

    def outerwrites(self):
        """fields assigned through a parameter or loop variable that is not the receiver"""
        if self.outer is None:
            self.outer = set()
            for fn in list(self.fns.values()):
                roots = {p["name"] for p in fn.params}
                for y in walk(fn.body):
                    if isinstance(y, tuple) and y and y[0] == "foreach" and y[1][0] == "name":
                        roots.add(y[1][1])
                for y in walk(fn.body):
                    if isinstance(y, tuple) and len(y) == 3 and y[0] == "assign":
                        for t in y[1]:
                            if t[0] == "attr" and t[1][0] == "name" and t[1][1] in roots:
                                self.outer.add(t[2])
        return self.outer

    def ismutating(self, cls):
        """do methods other than __init__ write fields of self?"""
        if cls not in self.mutating:
            r = False
            for (mm, c), (bases, ms) in self.classes.items():
                if c == cls:
                    for n, f in ms.items():
                        if isinstance(f, Fn):
                            if n != "__init__" and writes_self(f.body):
                                r = True
                            if n == "__init__" and calls_self(f.body):
                                r = True
                    r = r or any(self.ismutating(b) for b in bases if b != cls)
                    r = r or bool(self.outerwrites() & {y for f in ms.values() if isinstance(f, Fn) for y in self.mods(f)[0]})
            self.mutating[cls] = r
        return self.mutating[cls]

    def construct(self, ex, st, fr, cls, args, kw):
        init = self.method(cls[2], "__init__", cls[1]) or self.method(cls[2], "__init__")
        heap = self.ismutating(cls[2])
        st.n += 1
        obj = ("new", cls[2], st.n)
        if init is None:
            return [(st, obj if heap else ("ctor", "new " + cls[2], tuple((str(i), a) for i, a in enumerate(args)), "flow.new"))]
        out = []
        for s, v in self.run(ex, st, fr, init, args, kw, this=obj):
            if v[0] == "$exit":
                out.append((s, v))
            elif heap:
                out.append((s, obj))
            else:
                fs = {}
                for w in s.heap:
                    if w[0] == "w" and w[1] == obj:
                        fs[w[2]] = w[3]
                s.heap = [w for w in s.heap if not (w[0] == "w" and w[1] == obj)]
                out.append((s, ("ctor", "new " + cls[2], tuple(sorted(fs.items())), "flow.new")))
        return out

    def run(self, ex, st, fr, fn, args, kw, this=None, lvs=None):
        full = list(args)
        if kw:
            names = [p["name"] for p in fn.params]
            d = {}
            for k, v in kw.items():
                if k in names:
                    d[names.index(k)] = v
                else:
                    raise Unsupported("keyword argument %s" % k)
            for i in range(len(full), (max(d) + 1) if d else 0):
                full.append(d.get(i))
        return ex.inline(st, fn, full, this)

    def effectful(self, ex, fn):
        """does a kept helper have observable effects of its own?"""
        k = (fn.file, fn.name)
        if k not in self.effect:
            self.effect[k] = False
            try:
                e2 = flow.Exec(self, keep=ex.keep - {fn.name}, limit=15)
                ps = e2.summarise(fn)
                self.effect[k] = any(flow.effects(p) for p in ps)
            except (Unsupported, flow.TooMany):
                self.effect[k] = True
        return self.effect[k]

    def call(self, ex, st, fr, x, stmt):
        _, f, argx, kwx = x
        # evaluate arguments
        names = sorted(kwx)
        if f == ("name", "super"):
            return [(st, ("super",))]
        out = []
        if f[0] == "attr" and f[1] == ("call", ("name", "super"), [], {}):
            return self.withargs(ex, st, fr, argx, kwx, lambda s, a, kw: self.supercall(ex, s, fr, f[2], a, kw))
        if f[0] == "name":
            if (fr, f[1]) in st.env:
                v = ex.read(st, st.env[fr, f[1]])
                return self.withargs(ex, st, fr, argx, kwx, lambda s, a, kw: self.callvalue(ex, s, fr, v, f[1], a, kw, stmt))
            _, v = self.lookup(ex, st, fr, f[1])
            return self.withargs(ex, st, fr, argx, kwx, lambda s, a, kw: self.callvalue(ex, s, fr, v, f[1], a, kw, stmt), lv=v[0] in ("fn", "cls"))
        if f[0] == "expr":
            for s, v in ex.e(st, fr, f[1]):
                if v[0] == "$exit":
                    out.append((s, v))
                else:
                    out += self.withargs(ex, s, fr, argx, kwx, lambda s2, a, kw: self.callvalue(ex, s2, fr, v, "?", a, kw, stmt))
            return out
        # method call
        _, rx, m = f
        h = self.special(ex, st, fr, ("attr", rx, m))
        if h is not None:
            v = h[0][1]
            return self.withargs(ex, st, fr, argx, kwx, lambda s, a, kw: self.callvalue(ex, s, fr, v, m, a, kw, stmt))
        for s, lv in ex.lval(st, fr, rx):
            if lv[0] == "$exit":
                out.append((s, lv))
                continue
            out += self.withargs(ex, s, fr, argx, kwx, lambda s2, a, kw: self.methcall(ex, s2, fr, lv, m, a, kw, stmt), lv=m in self.methods)
        return out

    def withargs(self, ex, st, fr, argx, kwx, k, lv=False):
        names = sorted(kwx)
        cur = [(st, ())]
        out = []
        for a in list(argx) + [kwx[n] for n in names]:
            nx = []
            for s, vs in cur:
                if lv and a[0] == "name" and (fr, a[1]) in s.env and s.env[fr, a[1]][0][0] == "cell":
                    nx.append((s, vs + (("$lv", s.env[fr, a[1]]),)))
                    continue
                for s2, v in ex.e(s, fr, a):
                    if v[0] == "$exit":
                        out.append((s2, v))
                    else:
                        nx.append((s2, vs + (v,)))
            cur = nx
        for s, vs in cur:
            n = len(argx)
            pos = []
            for a, v in zip(argx, vs[:n]):
                if a[0] == "call" and a[1] == ("name", "$star"):
                    lit = self.literal(v)
                    if lit is None:
                        pos.append(app("*", v))
                    else:
                        pos += lit
                else:
                    pos.append(v)
            out += k(s, pos, dict(zip(names, vs[n:])))
        return out

    def strip(self, ex, st, a):
        return [ex.read(st, x[1]) if x is not None and x[0] == "$lv" else x for x in a]

    def stripk(self, ex, st, kw):
        return {k: ex.read(st, v[1]) if v[0] == "$lv" else v for k, v in kw.items()}

    def supercall(self, ex, st, fr, m, a, kw):
        fn = ex.stack[-1]
        for (mm, c), (bases, ms) in self.classes.items():
            if c == fn.cls:
                for b in bases:
                    t = self.method(b, m)
                    if t is not None:
                        return self.run(ex, st, fr, t, a, kw, this=ex.read(st, st.env[fr, "this"]))
        return [(st, NONE)]

    def callvalue(self, ex, st, fr, v, name, a, kw, stmt):
        if v[0] == "fn":
            return self.callfn(ex, st, fr, self.fns[v[1], v[2]], a, kw)
        if v[0] == "cls":
            return self.construct(ex, st, fr, v, self.strip(ex, st, a), self.stripk(ex, st, kw))
        if v[0] == "pyfn":
            fn = v[2]
            st2 = st
            rs = self.nestedcall(ex, st2, fr, v, self.strip(ex, st, a))
            return rs
        a = self.strip(ex, st, a)
        kw = self.stripk(ex, st, kw)
        if v[0] == "lamx":
            if len(a) == 1:
                return [(st, T.subst(v[2], {("b", v[1], 0): a[0]}))]
        if v[0] != "var":
            return [(st, app("apply", v, *a))]
        return self.external(ex, st, v[1], a, kw, stmt)

    def nestedcall(self, ex, st, fr, v, a):
        _, par, fn = v
        fr2 = ex.fid + 1
        st.env[fr2, "$parent"] = par
        ex.stack.append(Fn("<n>", [], [], fn.file))
        try:
            return ex.inline(st, fn, a)
        finally:
            ex.stack.pop()

    def callfn(self, ex, st, fr, fn, a, kw, this=None):
        rec = fn in ex.stack
        if rec or fn.name in ex.keep or not ex.doinline or (fn.body and fn.body[0][0] == "unsup"):
            a0 = a
            a = self.strip(ex, st, a)
            kw = self.stripk(ex, st, kw)
            full = list(a)
            names = [p["name"] for p in fn.params]
            for i, p in enumerate(fn.params):
                if i >= len(full):
                    if p["name"] in kw:
                        full.append(kw[p["name"]])
                    elif p.get("default") is not None:
                        full.append(ex.pure(st, fr, p["default"]))
            if this is not None:
                full = [this] + full
            pure = not rec and not self.effectful(ex, fn)
            fs, ps = self.callmods(fn)
            n = sum(v for k2, v in st.occ.items() if isinstance(k2, tuple) and k2[0] == fn.name)
            r = ex.event(st, fn.name, tuple(full), pure=pure and not fs and not ps)
            if self.python and returnslist(fn.body):
                T.TYPES.setdefault(r, ("seq", ()))
            if fn.name.endswith("__init__"):
                return [(st, r)]
            for f in sorted(fs):
                st.heap.append(("havoc", f, "%s@%d" % (fn.name, n), None))
            for i, x in enumerate(a0):
                if i in ps and x is not None and x[0] == "$lv":
                    v = ex.read(st, x[1])
                    nv = app("after", ("str", fn.name), ("int", n), ("int", i), v)
                    if v in T.TYPES:
                        T.TYPES[nv] = T.TYPES[v]
                    ex.write(st, x[1], nv)
            return [(st, r)]
        return self.run(ex, st, fr, fn, a, kw, this)

    def methcall(self, ex, st, fr, lv, m, a, kw, stmt):
        recv = ex.read(st, lv)
        if recv[0] in ("str",) and m == "format":
            return [(st, strformat(recv, self.strip(ex, st, a), kw))]
        k = self.kind(recv)
        cls = None
        if recv[0] == "new":
            cls = recv[1]
        elif recv[0] == "ctor" and recv[3] == "flow.new":
            cls = recv[1][4:]
        elif recv == ("var", "this"):
            cls = ex.stack[-1].cls or ex.fn.cls
        if recv[0] == "cls":
            t = self.method(recv[2], m)
            if t is not None:
                return self.callfn(ex, st, fr, t, a, kw) if t.cls is None else self.run(ex, st, fr, t, a[1:], kw, this=a[0])
        if cls is not None:
            t = self.method(cls, m)
            if t is not None:
                return self.callfn(ex, st, fr, t, a, kw, this=recv)
        if k is None and m in self.methods and cls is None and recv[0] not in ("str",) and not (recv[0] == "var" and m in LISTM | STRM):
            ts = self.methods[m]
            if len(ts) == 1 or len({id(t) for t in ts}) == 1:
                return self.callfn(ex, st, fr, ts[0], a, kw, this=recv)
        a = self.strip(ex, st, a)
        kw = self.stripk(ex, st, kw)
        if recv[0] == "lamx":
            return [(st, app("apply", recv, *a))]
        b = self.builtin_method(ex, st, lv, recv, m, a, kw, k)
        if b is not None:
            return [(st, b)]
        if recv[0] == "var" and recv[1] != "this" and self.ismodule(recv[1]):
            return self.external(ex, st, recv[1] + "." + m, a, kw, stmt)
        if recv[0] == "dot":
            d = dottedterm(recv)
            if d is not None and self.ismodule(d.split(".")[0]):
                return self.external(ex, st, d + "." + m, a, kw, stmt)
        return self.external(ex, st, "." + m, [recv] + a, kw, stmt)

    def ismodule(self, n):
        return any(al == n or mod == n for im in self.imports.values() for al, mod, attr in im if attr is None) or "." in n

    def builtin_method(self, ex, st, lv, recv, m, a, kw, k):
        mut = lv[0] != "val"

        def put(v, kd=None):
            if kd:
                T.TYPES.setdefault(v, (kd, ()))
            if mut:
                ex.write(st, lv, v)
            return NONE
        if m == "append" and len(a) == 1:
            return put(T.concat(recv, ("seq", a[0])), "seq")
        if m == "extend" and len(a) == 1:
            x = a[0] if a[0][0] != "tuple" else ("seq",) + a[0][1:]
            return put(T.concat(recv, self.listof(x, recv == ("seq",)) or x), "seq")
        if m == "add" and len(a) == 1:
            return put(T.union(recv, ("set", a[0])), "set")
        if m == "pop" and not a and k != "map":
            r = T.idx(recv, T.sub(T.card(recv), T.num(1)))
            put(T.slice_(recv, T.num(0), T.sub(T.card(recv), T.num(1))), "seq")
            return r
        if m == "pop" and len(a) == 1 and a[0] == T.num(0):
            r = T.idx(recv, T.num(0))
            put(T.slice_(recv, T.num(1), T.card(recv)), "seq")
            return r
        if m == "remove" and len(a) == 1 and k != "str":
            return put(app("remove", recv, a[0]), k)
        if m == "discard" and len(a) == 1:
            return put(app("setminus", recv, ("set", a[0])), "set")
        if m == "$del":
            return put(("mrem", recv, a[0]) if k != "seq" else app("delitem", recv, a[0]), k)
        if m == "insert" and len(a) == 2:
            return put(T.concat(("seq", a[1]), recv) if a[0] == T.num(0) else app("insert", recv, *a), "seq")
        if m == "sort":
            if recv[0] == "app" and recv[1] in WRAPSEQ and len(recv) == 3:
                recv = recv[2]
            return put(app("sorted", recv, *kwterm(kw)), "seq")
        if m == "reverse" and k in ("seq", None):
            return put(app("reversed", recv), "seq")
        if m == "clear" and not a:
            return put({"map": ("map",), "set": ("set",)}.get(k, ("seq",)), k)
        if m == "union" and len(a) == 1 and k in ("set", None):
            r = a[0]
            if r[0] == "app" and r[1] == "set" and len(r) == 3 and r[2][0] in ("app", "compr"):
                pass
            return self.union(recv, r)
        if m == "update" and len(a) == 1 and k == "set":
            x = a[0]
            return put(self.union(recv, x if self.kind(x) == "set" else app("set", x)), "set")
        if m == "intersection" and len(a) == 1:
            return self.intersection(recv, a[0])
        if m == "setdefault" and len(a) == 2:
            if self.isin(a[0], recv) in st.factset:
                return T.idx(recv, a[0])
            v = T.ite(self.isin(a[0], recv), T.idx(recv, a[0]), a[1])
            put(T.mupd(recv, a[0], v), "map")
            return v
        if m == "get" and k == "map" and len(a) in (1, 2):
            return T.ite(self.isin(a[0], recv), T.idx(recv, a[0]), a[1] if len(a) == 2 else NONE)
        if m in ("startswith", "endswith") and len(a) == 1 and a[0][0] in ("tuple", "seq"):
            return mk_or(*[self.mkbool(app("." + m, recv, y)) for y in a[0][1:]])
        if m in ("startswith", "endswith") and len(a) == 1:
            return self.mkbool(app("." + m, recv, a[0]))
        if m == "keys" and not a:
            return app(".keys", recv)
        if m in ("search", "match", "fullmatch", "sub", "findall", "finditer", "split") and recv[0] == "app" and recv[1] == "re.compile":
            return self.regex("re." + m, recv[2:3] + tuple(a) + recv[3:])
        if m == "group" and self.kind(recv) == "match":
            return app(".group", recv, *(a or (T.num(0),)))
        if m == "groups" and self.kind(recv) == "match":
            return app(".groups", recv)
        if m == "replace" and len(a) == 2:
            r = app(".replace", recv, *a)
            if recv[0] == a[0][0] == a[1][0] == "str":
                return ("str", recv[1].replace(a[0][1], a[1][1]))
            return r
        if m == "join" and len(a) == 1 and recv == ("str", "") and a[0][0] == "concat":
            return fmt([self.builtin_method(ex, st, lv, recv, m, [y], kw, k) or app(".join", recv, y) for y in a[0][1:]])
        if m == "join" and len(a) == 1 and recv[0] == "str" and a[0][0] in ("seq", "tuple"):
            ps = []
            for i, y in enumerate(a[0][1:]):
                if i:
                    ps.append(recv)
                ps.append(piece(y))
            return fmt(ps)
        if m == "join" and len(a) == 1 and recv == ("str", ""):
            return self.jointext(a[0])
        return None

    def regex(self, f, a):
        if f == "re.match" and a[0][0] == "str":
            f, a = "re.search", (("str", "^" + a[0][1]),) + tuple(a[1:])
        return app(f, *a)

    def external(self, ex, st, name, a, kw, stmt):
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            return [(st, ("$exit", ("exit", a[0] if a else T.num(0))))]
        if name == "$slice":
            v, lo, hi = a
            if v[0] in ("seq", "tuple") and all(z == NONE or z[0] == "int" for z in (lo, hi)):
                ls = v[1:][slice(*[None if z == NONE else z[1] for z in (lo, hi)])]
                return [(st, (v[0],) + tuple(ls))]
            if self.kind(v) == "str" or self.kind(v) is None:
                r = app("slice", v, lo, hi)
                if self.kind(v):
                    T.TYPES.setdefault(r, ("str", ()))
                return [(st, r)]

            def fix(i, d):
                if i == NONE:
                    return d
                return T.add(T.card(v), i) if i[0] == "int" and i[1] < 0 else i
            return [(st, T.slice_(v, fix(lo, T.num(0)), fix(hi, T.card(v))))]
        if name == "len" and len(a) == 1:
            v = a[0]
            if v[0] == "app" and v[1] in (".keys", "dom"):
                v = v[2]
            return [(st, T.card(v))]
        if name == "str" and len(a) == 1:
            return [(st, fmt([piece(a[0])]))]
        if name == "bool" and len(a) == 1:
            return [(st, self.truth(a[0]))]
        if name == "enumerate" and "start" in kw and len(a) == 1:
            a, kw = a + [kw["start"]], {}
        if name in ("min", "max", "sorted", "set", "sum", "any", "all", "len", "frozenset") and len(a) == 1:
            while a[0][0] == "app" and a[0][1] in WRAPSEQ and len(a[0]) == 3 or name in ("min", "max", "set", "sorted") and not kw \
                    and a[0][0] == "app" and a[0][1] == "sorted" and len(a[0]) == 3:
                a = [a[0][2]]
        if name == "dict" and not a and kw:
            return [(st, T.mk_map([(("str", n), kw[n]) for n in sorted(kw)]))]
        if name == "print" and set(kw) <= {"file", "end", "sep"} and not any(x[0] == "app" and x[1] == "*" for x in a):
            to = kw.get("file", NONE)
            d = "sys.stdout" if to == NONE else dottedterm(to)
            ps = []
            for i, x in enumerate(a):
                ps += ([kw.get("sep", ("str", " "))] if i else []) + [piece(x)]
            t = fmt(ps + [kw.get("end", ("str", "\n"))])
            if d in ("sys.stdout", "sys.stderr"):
                name, a, kw = d + ".write", [t], {}
            else:
                name, a, kw = ".write", [to, t], {}
        if name in ("list", "tuple") and len(a) <= 1 and not kw:
            if not a:
                return [(st, ("seq",))]
            v = a[0]
            if self.kind(v) == "seq":
                return [(st, v)]
            if v[0] == "tuple":
                return [(st, ("seq",) + v[1:])]
            return [(st, app("list", v))]
        if name == "set" and len(a) <= 1:
            if not a:
                return [(st, ("set",))]
            if a[0][0] in ("seq", "tuple"):
                return [(st, T.mk_set(a[0][1:]))]
            if self.kind(a[0]) == "set":
                return [(st, a[0])]
            return [(st, app("set", a[0]))]
        if name == "dict" and not a and not kw:
            return [(st, ("map",))]
        if name in ("any", "all") and len(a) == 1:
            lit = self.literal(a[0])
            if lit is not None:
                return [(st, (mk_or if name == "any" else mk_and)(*[self.truth(y) for y in lit]))]
        if name.startswith("re.") and name != "re.compile" and a:
            if a[0][0] == "app" and a[0][1] == "re.compile":
                a = list(a[0][2:3]) + a[1:] + list(a[0][3:])
            t = self.regex(name, tuple(a) + kwterm(kw))
            return self.maythrow(ex, st, name, t)
        if name in IGNORED:
            return [(st, NONE)]
        kw = {n: v for n, v in kw.items() if not any(name.startswith(p) and n == k and v == (d or NONE) for p, k, d in DEFAULTKW)}
        full = tuple(a) + kwterm(kw)
        impure = name in IMPURE or name.startswith(IMPURE_PREFIX) or (stmt and name not in BUILTIN_PURE) or name in (".write", ".writelines")
        if name == "open" and len(full) > 1 and not (full[1][0] == "str" and full[1][1] in ("r", "rt")):
            impure = True
        elif name == "open":
            full = full[:1]
        if impure:
            r = ex.event(st, name, full)
            return self.maythrow(ex, st, name, r)
        return self.maythrow(ex, st, name, app(name, *full))

    def maythrow(self, ex, st, name, t):
        if ex.intry and name not in NOTHROW and not name.startswith("os.path."):
            c = self.mkbool(app("raises", t))
            a, b = ex.split(st, c)
            out = []
            if a is not None:
                out.append((a, ("$exit", ("raise", ("str", "?ext")))))
            if b is not None:
                out.append((b, t))
            return out
        return [(st, t)]

    def new(self, ex, st, fr, x):
        raise Unsupported("new")


def dottedterm(t):
    if t[0] == "var":
        return t[1]
    if t[0] == "dot":
        d = dottedterm(t[1])
        return d + "." + t[2] if d else None
    return None


def kwterm(kw):
    return tuple(app("kw", ("str", k), kw[k]) for k in sorted(kw))


def piece(v):
    if v[0] == "app" and v[1] == "str" and len(v) == 3:
        return v[2]
    if v[0] == "int":
        return ("str", str(v[1]))
    return v


def percent(x, y):
    if x[0] != "str":
        return app("%", x, y)
    args = list(y[1:]) if y[0] == "tuple" else [y]
    ps = []
    pos = 0
    for m in re.finditer(r"%(\(\w+\))?([-+ #0]*\d*(?:\.\d+)?)([sdrfxgc%])", x[1]):
        ps.append(("str", x[1][pos:m.start()]))
        pos = m.end()
        if m.group(3) == "%":
            ps.append(("str", "%"))
            continue
        if m.group(1):
            v = T.idx(y, ("str", m.group(1)[1:-1]))
        else:
            if not args:
                return app("%", x, y)
            v = args.pop(0)
        if m.group(2) or m.group(3) not in "sd":
            ps.append(app("%" + m.group(2) + m.group(3), v))
        else:
            ps.append(piece(v))
    ps.append(("str", x[1][pos:]))
    return fmt(ps)


def strformat(x, a, kw):
    ps = []
    pos = 0
    n = 0
    for m in re.finditer(r"\{\{|\}\}|\{(\w*)([^}]*)\}", x[1]):
        ps.append(("str", x[1][pos:m.start()]))
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            ps.append(("str", m.group(0)[0]))
            continue
        if m.group(1) == "":
            v = a[n] if n < len(a) else NONE
            n += 1
        elif m.group(1).isdigit():
            v = a[int(m.group(1))]
        else:
            v = kw.get(m.group(1), NONE)
        ps.append(app("fmt:" + m.group(2), v) if m.group(2) else piece(v))
    ps.append(("str", x[1][pos:]))
    return fmt(ps)


def walk(x):
    if isinstance(x, (tuple, list)):
        yield x
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk(y)


def has(body, kind):
    for s in walk(body):
        if isinstance(s, tuple) and s and s[0] == kind:
            return True
    return False


def assigned(body):
    out = set()
    for s in walk(body):
        if isinstance(s, tuple) and len(s) > 1:
            if s[0] == "assign":
                for t in s[1]:
                    for y in walk(t):
                        if isinstance(y, tuple) and len(y) == 2 and y[0] == "name":
                            out.add(y[1])
            elif s[0] in ("aug", "asgop"):
                for y in walk(s[2]):
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "name":
                        out.add(y[1])
            elif s[0] == "call" and s[1][0] == "attr" and s[1][2] in LISTM:
                for y in walk(s[1][1]):
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "name":
                        out.add(y[1])
    return out


def returnslist(body):
    """every result is a list built in the function"""
    rs = [s for s in walk(body) if isinstance(s, tuple) and s and s[0] == "return" and len(s) == 2]
    if not rs or any(isinstance(s, tuple) and s and s[0] == "nested" for s in walk(body)):
        return False

    def listy(x):
        return x is not None and (x[0] == "list" or x[0] == "compr" and x[1] == "list" or x[0] == "call" and x[1] in (("name", "sorted"), ("name", "list")))
    if body[-1][0] != "return":
        return False
    for s in rs:
        x = s[1]
        if listy(x):
            continue
        if x is None or x[0] != "name":
            return False
        asg = [t for t in walk(body) if isinstance(t, tuple) and len(t) == 3 and t[0] == "assign" and any(assignsname(y, x[1]) for y in t[1])]
        if not asg or not all(len(t[1]) == 1 and t[1][0] == x and listy(t[2]) for t in asg):
            return False
        if any(isinstance(t, tuple) and t and t[0] in ("foreach",) and assignsname(t[1], x[1]) for t in walk(body)):
            return False
    return True


def assignsname(t, n):
    return t == ("name", n) or t[0] == "tuple" and any(assignsname(y, n) for y in t[1])


def assigns(body, n):
    return n in assigned(body)


def occurs_name(x, names):
    return any(isinstance(y, tuple) and len(y) == 2 and y[0] == "name" and y[1] in names for y in walk(x))


def writes_self(body):
    """an assignment or a mutating call on a field of the receiver"""
    sn = body[0][1] if body and body[0][0] == "selfname" else "this"
    for s in walk(body):
        if isinstance(s, tuple) and s:
            if s[0] == "assign" and any(rootname(t) == sn for t in s[1] if t[0] != "name"):
                return True
            if s[0] == "aug" and s[2][0] != "name" and rootname(s[2]) == sn:
                return True
            if s[0] == "call" and len(s) == 4 and s[1][0] == "attr" and s[1][2] in LISTM and s[1][1][0] != "name" and rootname(s[1][1]) == sn:
                return True
    return False


def calls_self(body):
    sn = body[0][1] if body and body[0][0] == "selfname" else "this"
    return any(isinstance(s, tuple) and len(s) == 4 and s[0] == "call" and s[1] and s[1][0] == "attr" and s[1][1] == ("name", sn) for s in walk(body))


def rootname(t):
    while t[0] in ("attr", "index"):
        t = t[1]
    return t[1] if t[0] == "name" else None
