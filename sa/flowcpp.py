"""C++ front end of the path summaries (sa.flow): clang's type-checked syntax tree -> statement language."""
import re
from . import flow, flowpy, term as T, cppast
from .flow import NONE, Fn, hwrite, Unsupported, app, fmt
from .flowpy import walk, piece
from .term import TRUE, FALSE, mk_and, mk_or, mk_not

NULL = NONE
WRAP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
        "FullExpr", "CXXStdInitializerListExpr"}
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"}
SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
NOISE = {"benchmark_start", "benchmark_end", "benchmark_append", "benchmark_clear", "benchmark_dump", "malloc_accounting_set_scope",
         "malloc_accounting_default_scope", "init_malloc_accounting", "fini_malloc_accounting", "malloc_accounting_status", "printf", "perror",
         "fprintf", "puts", "fflush", "fputs"}
UNSIGNED = {k for k in SIZES if k.startswith("unsigned")}
# calls without effects on the program or its environment
PUREEXT = {"memcmp", "strcmp", "strlen", "min", "max", "to_string", "__errno_location", "make_pair", "make_tuple", "move", "forward", "strerror",
           "abs", "now", "duration_cast", "equal", "lower_bound", "upper_bound", "hash_combine", "u64add"}
PUREM = {"size", "empty", "ptr", "length", "equals", "select", "at", "begin", "end", "data", "c_str", "count", "has_value", "value", "get", "first", "second",
         "find", "front", "back", "cbegin", "cend", "substr", "capacity", "contains", "sizeI", "operator bool", "compare"}


def bare(t):
    """a type without qualifiers and namespaces"""
    t = re.sub(r"\b(const|volatile|struct|class|typename|enum)\b", " ", t)
    t = re.sub(r"\b(?:\w+::)+", "", t)
    return re.sub(r"\s+", "", t).rstrip("&")


def splitargs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def fnparams(q):
    """parameter types of a function type as clang prints it"""
    d = 0
    i = len(q)
    m = None
    # the last top-level parenthesis group
    stack = []
    groups = []
    for k, ch in enumerate(q):
        if ch == "(":
            stack.append(k)
        elif ch == ")" and stack:
            s = stack.pop()
            if not stack:
                groups.append((s, k))
    if not groups:
        return []
    s, k = groups[-1]
    return splitargs(q[s + 1:k])


def ctype(n):
    t = n.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def spell(n):
    return (n.get("type") or {}).get("qualType") or ""


def category(t):
    """what kind of library value a type denotes"""
    b = bare(t)
    while b.endswith("*"):
        b = b[:-1]
    m = re.match(r"(\w+)", b)
    h = m.group(1) if m else b
    return {"basic_string": "string", "__shared_ptr_access": "shared_ptr", "__shared_ptr": "shared_ptr", "unordered_map": "map",
            "_Rb_tree_iterator": "iter", "_Rb_tree_const_iterator": "iter", "_Node_iterator": "iter", "_Node_iterator_base": "iter",
            "__node_iterator": "iter", "iterator": "iter", "_Self": "iter", "_Optional_base": "optional", "_Optional_base_impl": "optional",
            "linear_seq": "vector", "lseq": "vector", "shared_seq": "vector"}.get(h, h)


class Tr:
    """one function body"""

    def __init__(self, world, tu, key):
        self.w, self.tu, self.key = world, tu, key
        self.names = {}
        self.used = {}
        self.iters = {}
        self.bound = {}     # structured bindings
        self.lambdas = {}   # local functions
        self.node = None    # the function's declaration

    def local(self, d):
        """a name for a local declaration, unique within the function"""
        i = d["id"]
        if i not in self.names:
            n = d.get("name") or "_"
            k = self.used.get(n, 0)
            self.used[n] = k + 1
            self.names[i] = n if k == 0 else "%s$%d" % (n, k)
        return self.names[i]

    # ---- statements
    def body(self, n):
        if n is None or not n:
            return []
        if n.get("kind") == "CompoundStmt":
            return self.seq(kids(n))
        return self.stmt(n)

    def seq(self, ns):
        out = []
        for k, n in enumerate(ns):
            if n.get("kind") == "DeclStmt":
                found = self.search(n, ns[k + 1:])
                if found is not None:
                    return out + found
            if n.get("kind") == "WhileStmt" and k and out and out[-1][0] == "decl":
                it = self.iterwhile(n, ns[k - 1], ns[k + 1:])
                if it is not None:
                    out[-1:] = it
                    continue
            out += self.stmt(n)
        return out

    def stmt(self, n):
        k = n.get("kind")
        if not k:
            return []
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n)
        if k.endswith("Stmt"):
            raise Unsupported("statement %s" % k)
        if self.noisy(n):
            return []
        x = self.e(n)
        if x[0] == "stmtexpr":
            return list(x[1]) + ([("expr", x[2])] if x[2] is not None else [])
        return [("expr", x)]

    def noisy(self, n):
        """output for a human reader"""
        while n.get("kind") in WRAP or n.get("kind") in CASTS:
            n = kids(n)[0]
        if n.get("kind") == "CXXOperatorCallExpr":
            ks = kids(n)
            nm = refname(ks[0])
            if nm == "operator<<":
                x = ks[1]
                while x.get("kind") in WRAP or x.get("kind") in CASTS:
                    x = kids(x)[0]
                if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("name") in ("cout", "cerr", "clog"):
                    return True
                return self.noisy(x)
        if n.get("kind") == "UnresolvedLookupExpr":
            return False
        return False

    def s_CompoundStmt(self, n):
        return [("block", self.seq(kids(n)))]

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for d in kids(n):
            if d.get("kind") == "VarDecl":
                if d.get("storageClass") == "static" or d.get("tls"):
                    raise Unsupported("static local variable")
                if self.lambdadecl(d):
                    continue
                out += self.vardecl(d)
            elif d.get("kind") == "DecompositionDecl":
                self.bindings(d)
                out += self.vardecl(d)
            elif d.get("kind") in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "CXXRecordDecl", "EmptyDecl"):
                continue
            else:
                raise Unsupported("declaration %s" % d.get("kind"))
        return out

    def bindings(self, d):
        """names for the parts of a value: structured bindings"""
        bs = [b for b in kids(d) if b.get("kind") == "BindingDecl"]
        for i, b in enumerate(bs):
            m = kids(b)[0] if kids(b) else {}
            if m.get("kind") == "MemberExpr":
                self.bound[b["id"]] = m
            elif m.get("kind") == "VarDecl" and len(bs) == 2 and category(ctype(d)) == "pair":
                self.bound[b["id"]] = ("attr", ("name", self.local(d)), ("first", "second")[i])
            else:
                raise Unsupported("structured binding")

    def lambdadecl(self, d):
        """a local function: its calls are replaced by its body"""
        init = [x for x in kids(d) if not x.get("kind", "").endswith(("Comment", "Attr"))]
        x = strip(init[0]) if init else {}
        while x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1:
            x = strip(kids(x)[0])
        if x.get("kind") != "LambdaExpr" or "lambda" not in spell(d):
            return False
        self.lambdas[d["id"]] = self.lambdaparts(x)
        return True

    def lambdaparts(self, n):
        rec = kids(n)[0]
        op = [m for m in kids(rec) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        for f in kids(rec):
            if f.get("kind") == "FunctionTemplateDecl":
                # one instance of a generic one
                op += [m for m in kids(f) if m.get("kind") == "CXXMethodDecl"][-1:]
        if not op:
            raise Unsupported("lambda")
        fields = [f for f in kids(rec) if f.get("kind") == "FieldDecl"]
        for f, c in zip(fields, kids(n)[1:]):
            c = strip(c)
            if spell(f).rstrip().endswith("&") or c.get("kind") == "CXXThisExpr":
                continue
            i = (c.get("referencedDecl") or {}).get("id")
            if i is None or ctype(f).replace("const ", "").strip() not in SIZES and not ctype(f).endswith("*") or self.reassigned(i):
                raise Unsupported("lambda with a copy of what may change")
        body = kids(op[0])[-1]
        return [p for p in kids(op[0]) if p.get("kind") == "ParmVarDecl"], body

    def reassigned(self, i):
        """is a local variable ever changed after its declaration?"""
        def go(n):
            k = n.get("kind")
            if k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and kids(n):
                if k == "CompoundAssignOperator" or n.get("opcode") in ("=", "++", "--", "&") and (k != "BinaryOperator" or n["opcode"] == "="):
                    if (strip(kids(n)[0]).get("referencedDecl") or {}).get("id") == i:
                        return True
            return any(go(c) for c in kids(n))
        return self.node is None or go(self.node)

    def lambdacall(self, parts, args, byref=False):
        """the body of a local function, its parameters bound"""
        ps, body = parts
        if len(ps) != len(args):
            raise Unsupported("lambda")
        out = []
        for p, a in zip(ps, args):
            ref = byref or spell(p).rstrip().endswith("&")
            out.append(("decl", self.local(p), "ref" if ref else "val", a, ctype(p)))
        b = self.body(body)
        v = None
        if b and b[-1][0] == "return":
            v = b[-1][1]
            b = b[:-1]
        if any(isinstance(y, tuple) and y and y[0] == "return" for y in walk(b)):
            raise Unsupported("lambda that returns early")
        return ("stmtexpr", [("block", out + b)] if v is None else out + b, v)

    def vardecl(self, d):
        name = self.local(d)
        ty = spell(d)
        init = [x for x in kids(d) if not x.get("kind", "").endswith(("Comment", "Attr"))]
        ref = ty.rstrip().endswith("&")
        ct = ctype(d)
        if ref and not ty.rstrip().endswith("&&"):
            return [("decl", name, "ref", self.e(init[0]), ct)]
        if not init:
            return [("decl", name, "val", None, ct)]
        x = init[0]
        if x.get("kind") == "ParenListExpr":
            return [("decl", name, "val", self.construct(ct, kids(x)), ct)]
        if x.get("kind") == "CXXConstructExpr" and not kids(x) and category(ct) not in self.w.records and category(ct) not in VALUES:
            return [("decl", name, "val", ("call", ("ctor", bare(ct), None), [], {}), ct)]
        v = self.e(x)
        return [("decl", name, "val", v, ct)]

    def condpart(self, n, ks):
        """leading init statement / condition variable of if, while, switch"""
        pre = []
        if n.get("hasInit"):
            pre += self.stmt(ks.pop(0))
        if n.get("hasVar"):
            pre += self.stmt(ks.pop(0))
        return pre

    def s_IfStmt(self, n):
        ks = [x for x in n.get("inner", [])]
        pre = self.condpart(n, ks)
        c = self.e(ks[0])
        a = self.body(ks[1])
        b = self.body(ks[2]) if n.get("hasElse") else []
        r = [("if", c, a, b)]
        return [("block", pre + r)] if pre else r

    def s_WhileStmt(self, n):
        ks = list(n.get("inner", []))
        if n.get("hasVar"):
            raise Unsupported("declaration in a loop condition")
        return [("while", self.e(ks[0]), self.body(ks[1]), [], [])]

    def s_DoStmt(self, n):
        ks = kids(n)
        b = self.body(ks[0])
        if flowpy.has(b, "continue"):
            raise Unsupported("continue in a do loop")
        c = self.e(ks[1])
        if c == ("bool", False):
            if flowpy.has(b, "break"):
                raise Unsupported("break out of a single-pass loop")
            return [("block", b)]
        return [("while", ("bool", True), b + [("if", c, [], [("break",)])], [], [])]

    def s_ForStmt(self, n):
        ks = list(n.get("inner", []))
        init, cv, cond, inc, body = (ks + [{}] * 5)[:5]
        pre = self.stmt(init) if init else []
        if cv:
            raise Unsupported("declaration in a loop condition")
        it = self.iterloop(init, cond, inc, body)
        if it is not None:
            return it
        c = self.e(cond) if cond else ("bool", True)
        step = self.stmt(inc) if inc else []
        b = self.body(body)
        # counting loops: for (i = a; i < n; i++)
        if len(pre) == 1 and pre[0][0] == "decl":
            c = upto(c, pre[0][1])
        if len(pre) == 1 and pre[0][0] == "decl" and c[0] == "cmp" and c[1] in ("<", "!=") and c[2] == ("name", pre[0][1]) and len(step) == 1 \
                and step[0][0] == "expr" and self.isinc(step[0][1], pre[0][1]) and not touched(b, pre[0][1]) \
                and not touchedany(b, c[3]):
            i = pre[0][1]
            return [("foreach", ("name", i), ("call", ("ext", "$range"), [pre[0][3], c[3]], {}), b, [])]
        return [("block", pre + [("while", c, b, step, [])])]

    @staticmethod
    def isinc(x, i):
        return x[0] == "incdec" and x[1] == ("name", i) and x[2] == 1 or x[0] == "asgop" and x[1] == "+" and x[2] == ("name", i) and x[3] == ("int", 1)

    def itervar(self, init):
        """for (auto it = X.begin(); ...): (declaration, X)"""
        if init and init.get("kind") == "DeclStmt":
            ds = kids(init)
            if len(ds) == 1 and ds[0].get("kind") == "VarDecl" and kids(ds[0]):
                x = strip(kids(ds[0])[0])
                if x.get("kind") == "CXXMemberCallExpr":
                    m = kids(x)[0]
                    if m.get("kind") == "MemberExpr" and m.get("name") in ("begin", "cbegin") and category(spellrecv(m)) in ("map", "set", "vector", "list"):
                        return ds[0], kids(m)[0]
        return None

    def isend(self, c, it, coll, op="operator!="):
        """it != X.end()"""
        c = strip(c)
        if c.get("kind") == "CXXRewrittenBinaryOperator":
            c = strip(kids(c)[0])
        if c.get("kind") != "CXXOperatorCallExpr":
            return False
        ks = kids(c)
        if refname(ks[0]) != op:
            return False
        a, b = strip(ks[1]), strip(ks[2])
        if a.get("kind") != "DeclRefExpr":
            a, b = b, a
        if a.get("kind") != "DeclRefExpr" or (a.get("referencedDecl") or {}).get("id") != it["id"] or b.get("kind") != "CXXMemberCallExpr":
            return False
        m = kids(b)[0]
        return m.get("name") in ("end", "cend") and self.e(kids(m)[0]) == coll

    def isstep(self, s, it):
        s = strip(s)
        return s.get("kind") == "CXXOperatorCallExpr" and refname(kids(s)[0]) == "operator++" and \
            (strip(kids(s)[1]).get("referencedDecl") or {}).get("id") == it["id"]

    def conj(self, c):
        c = strip(c)
        if c.get("kind") == "BinaryOperator" and c.get("opcode") == "&&":
            a, b = kids(c)
            return self.conj(a) + self.conj(b)
        return [c]

    def iterloop(self, init, cond, inc, body):
        iv = self.itervar(init)
        if iv is None or not cond or not inc:
            return None
        d, x = iv
        coll = self.e(x)
        cs = self.conj(cond)
        ends = [c for c in cs if self.isend(c, d, coll)]
        if len(ends) != 1 or not self.isstep(inc, d):
            return None
        if cs[0] is not ends[0]:
            return None
        name = self.local(d)
        rest = [self.e(c) for c in cs[1:]]
        b = self.body(body)
        if touched(b, name):
            raise Unsupported("loop moves its own iterator")
        pre = [("if", c, [], [("break",)]) for c in rest]
        # the element is dropped from the collection inside the loop only where the loop is left
        return [("foreach", ("name", name), coll, pre + b, [])]

    def iterwhile(self, n, before, after):
        """auto it = X.begin(); while (it != X.end()) { ...; ++it; }"""
        iv = self.itervar(before)
        ks = list(n.get("inner", []))
        if iv is None or n.get("hasVar") or len(ks) != 2 or ks[1].get("kind") != "CompoundStmt":
            return None
        if uses(after, iv[0]["id"]):
            return None
        steps = []
        b = self.unstep(kids(ks[1]), True, iv[0], steps)
        if b is None or not steps:
            return None
        return self.iterloop(before, ks[0], steps[0], dict(ks[1], inner=b))

    def search(self, d, after):
        """auto it = X.begin(); for (; it != X.end(); ++it) { ... if (...) break; } if (it == X.end()) { A; return } B; return:
        B belongs where the loop is left, A behind it"""
        if not after or len(kids(d)) != 1:
            return None
        v = kids(d)[0]
        loop = pos = None
        iv = self.itervar(d)
        if iv is not None and after[0].get("kind") in ("ForStmt", "WhileStmt"):
            coll = self.e(iv[1])
            n, rest = after[0], after[1:]
            if not uses(rest, v["id"]):
                return None
            ks = list(n.get("inner", []))
            if n["kind"] == "ForStmt":
                init, cv, cond, inc, body = (ks + [{}] * 5)[:5]
                if init or cv:
                    return None
                loop = self.iterloop(d, cond, inc, body)
            else:
                loop = self.iterwhile(n, d, [])
            if loop is None:
                return None
        else:
            x = self.unwrapinit(v)
            if x is None or x.get("kind") != "CallExpr" or refname(kids(x)[0]) != "find_if" or len(kids(x)) != 4:
                return None
            c = self.whole(kids(x)[1:3])
            f = self.lambdaof(kids(x)[3])
            if c is None or f is None:
                return None
            coll, rest = self.e(c), after
            name = self.local(v)
            r = self.lambdacall(self.lambdaparts(f), [("call", ("ext", "$itervalue"), [("name", name)], {})], byref=True)
            if r[2] is None:
                return None
            loop = [("foreach", ("name", name), coll, r[1] + [("if", r[2], [("break",)], [])], [])]
        i = rest[0] if rest else {}
        if i.get("kind") != "IfStmt" or i.get("hasVar") or i.get("hasInit"):
            return None
        ks = list(i.get("inner", []))
        if self.isend(ks[0], v, coll, "operator=="):
            a, b = [ks[1]], ([ks[2]] if i.get("hasElse") else []) + rest[1:]
            one = not i.get("hasElse")
        elif self.isend(ks[0], v, coll):
            b, a = [ks[1]], ([ks[2]] if i.get("hasElse") else []) + rest[1:]
            one = not i.get("hasElse")
        else:
            return None
        if not one and rest[1:] or uses(a, v["id"]):
            return None
        a, b = self.flat(a), self.flat(b)
        if not leaving(b) or rest[1:] and not leaving(a) and a is not None and self.isend(ks[0], v, coll, "operator=="):
            return None

        def put(body):
            out = []
            for s in body:
                if s[0] == "break":
                    return out + b
                if s[0] == "if":
                    s = ("if", s[1], put(s[2]), put(s[3]))
                elif s[0] == "block":
                    s = ("block", put(s[1]))
                elif s[0] not in ("while", "foreach") and flowpy.has([s], "break"):
                    raise Unsupported("break")
                out.append(s)
            return out
        return [loop[0][:3] + (put(loop[0][3]),) + loop[0][4:]] + loop[1:] + a

    def flat(self, ns):
        return self.seq([y for x in ns for y in (kids(x) if x.get("kind") == "CompoundStmt" else [x])])

    def unwrapinit(self, v):
        init = [x for x in kids(v) if not x.get("kind", "").endswith(("Comment", "Attr"))]
        x = strip(init[0]) if init else None
        while x is not None and x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1:
            x = strip(kids(x)[0])
        return x

    def whole(self, ns):
        """X.begin(), X.end(): X"""
        out = []
        for n, w in zip(ns, ("begin", "end")):
            x = strip(n)
            while x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1:
                x = strip(kids(x)[0])
            m = kids(x)[0] if kids(x) else {}
            if x.get("kind") != "CXXMemberCallExpr" or m.get("name") not in (w, "c" + w) or category(spellrecv(m)) not in ("map", "set", "vector", "list"):
                return None
            out.append(kids(m)[0])
        return out[0] if self.e(out[0]) == self.e(out[1]) else None

    def lambdaof(self, n):
        x = strip(n)
        while x.get("kind") == "CXXConstructExpr" and len(kids(x)) == 1:
            x = strip(kids(x)[0])
        return x if x.get("kind") == "LambdaExpr" else None

    def unstep(self, ns, tail, it, steps):
        """a loop body without its `++it`, where every way through it ends with exactly one, or leaves the loop"""
        out = []
        for i, s in enumerate(ns):
            last = i == len(ns) - 1
            k = s.get("kind")
            if self.isstep(s, it):
                steps.append(s)
                if last and tail:
                    return out
                if i == len(ns) - 2 and ns[-1].get("kind") == "ContinueStmt":
                    return out + [ns[-1]]
                return None
            if k == "ContinueStmt":
                return None
            if k in ("ReturnStmt", "BreakStmt"):
                return out + [s]
            if k == "CompoundStmt":
                b = self.unstep(kids(s), tail and last, it, steps)
                if b is None:
                    return None
                out.append(dict(s, inner=b))
                if last:
                    return out
                continue
            if k == "IfStmt" and not s.get("hasVar") and not s.get("hasInit"):
                ks = list(s.get("inner", []))
                if tail and last and len(ks) < 3:
                    return None
                nk = [ks[0]]
                for br in ks[1:]:
                    b = self.unstep(kids(br) if br.get("kind") == "CompoundStmt" else [br], tail and last, it, steps)
                    if b is None:
                        return None
                    nk.append({"kind": "CompoundStmt", "inner": b, "id": br.get("id")})
                out.append(dict(s, inner=nk))
                if last:
                    return out
                continue
            if self.steps(s, it) or flowpy.has(nestless(self.body(s)), "continue"):
                return None
            out.append(s)
        return None if tail else out

    def steps(self, n, it):
        return self.isstep(n, it) if n.get("kind") == "CXXOperatorCallExpr" and len(kids(n)) > 1 and self.isstep(n, it) else any(self.steps(c, it) for c in kids(n))

    def s_CXXForRangeStmt(self, n):
        ks = list(n.get("inner", []))
        if ks[0]:
            raise Unsupported("init statement in a range loop")
        rng = kids(kids(ks[1])[0])[0]
        var = kids(ks[-2])[0]
        ty = spell(var).rstrip()
        name = self.local(var)
        if var.get("kind") == "DecompositionDecl":
            self.bindings(var)
        b = self.body(ks[-1])
        ref = ty.endswith("&") and not ty.startswith("const ")
        if ref and rootwrites(b, name):
            raise Unsupported("loop changes the elements of its collection in place")
        return [("foreach", ("name", name), self.e(rng), b, [])]

    def s_ReturnStmt(self, n):
        ks = kids(n)
        return [("return", self.e(ks[0]) if ks else None)]

    def s_BreakStmt(self, n):
        return [("break",)]

    def s_ContinueStmt(self, n):
        return [("continue",)]

    def s_CXXTryStmt(self, n):
        raise Unsupported("exception handler")

    def s_SwitchStmt(self, n):
        ks = [x for x in n.get("inner", [])]
        pre = self.condpart(n, ks)
        cases = []
        cur = None

        def label(s):
            nonlocal cur
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                c = kids(s)
                if cur is None or cur[1]:
                    if cur is not None and not leaves(cur[1]):
                        raise Unsupported("switch case falls through")
                    cur = ([], [])
                    cases.append(cur)
                if s["kind"] == "DefaultStmt":
                    cur[0].append(None)
                    s = c[0]
                else:
                    cur[0].append(self.e(c[0]))
                    s = c[-1]
            return s
        for s in kids(ks[1]):
            s = label(s)
            if cur is None:
                raise Unsupported("statement before the first case")
            cur[1].extend(self.stmt(s))
        out = []
        for vals, b in cases:
            if None in vals:
                out.append((None, b))
            else:
                out.append((vals, b))
        for vals, b in cases[:-1]:
            if not leaves(b):
                raise Unsupported("switch case falls through")
        return pre + [("switch", self.e(ks[0]), out)]

    # ---- expressions
    def e(self, n):
        k = n.get("kind")
        if k in WRAP:
            return self.e(kids(n)[0])
        if k in CASTS:
            return self.cast(n)
        m = getattr(self, "x_" + k, None) if k else None
        if m is None:
            raise Unsupported("expression %s" % k)
        return m(n)

    def cast(self, n):
        ks = kids(n)
        ck = n.get("castKind")
        if not ks:
            raise Unsupported("cast")
        x = self.e(ks[0])
        if ck == "IntegralCast":
            a, b = SIZES.get(ctype(ks[0]).replace("const ", "").strip()), SIZES.get(ctype(n).replace("const ", "").strip())
            if a and b and b < a and not (x[0] == "int" and 0 <= x[1] < 2 ** (8 * b - 1)):
                return ("call", ("ext", "$trunc%d" % (8 * b)), [x], {})
            if a and b and b >= a and ctype(n).replace("const ", "").strip() in UNSIGNED and ctype(ks[0]).replace("const ", "").strip() not in UNSIGNED and x[0] != "int":
                return ("call", ("ext", "$unsigned"), [x], {})
            return x
        if ck == "NullToPointer":
            return ("none",)
        if ck == "ToVoid":
            return x
        if ck in ("FloatingToIntegral", "IntegralToFloating"):
            return ("call", ("ext", "$" + ck), [x], {})
        if ck == "ArrayToPointerDecay" and x[0] != "str":
            return ("addr", ("index", x, ("int", 0)))
        if ck == "PointerToBoolean":
            return ("cmp", "!=", x, ("none",))
        if ck in ("BitCast", "ReinterpretMemory", "Dependent"):
            # pointers of another element size step differently
            a, b = ctype(ks[0]).replace("const ", "").strip(), ctype(n).replace("const ", "").strip()
            if a.endswith("*") and b.endswith("*") and bare(b)[:-1].strip() not in ("void", "char", "unsigned char", "uint8_t", "uint8") and bare(a) != bare(b):
                return ("call", ("ext", "$as %s" % bare(b)), [x], {})
            return x
        if ck == "IntegralToBoolean":
            return ("cmp", "!=", x, ("int", 0))
        return x

    def x_IntegerLiteral(self, n):
        return ("int", int(n["value"]))

    def x_CharacterLiteral(self, n):
        return ("int", int(n["value"]))

    def x_FloatingLiteral(self, n):
        return ("str", n["value"])

    def x_CXXBoolLiteralExpr(self, n):
        return ("bool", bool(n["value"]))

    def x_StringLiteral(self, n):
        v = n.get("value", '""')
        return ("str", v[v.index('"') + 1:-1])

    def x_CXXNullPtrLiteralExpr(self, n):
        return ("none",)

    def x_GNUNullExpr(self, n):
        return ("none",)

    def x_CXXThisExpr(self, n):
        return ("name", "this")

    def x_CXXDefaultArgExpr(self, n):
        return ("call", ("ext", "$default"), [], {})

    def x_CXXDefaultInitExpr(self, n):
        ks = kids(n)
        return self.e(ks[0]) if ks else ("call", ("ext", "$default"), [], {})

    def x_CXXScalarValueInitExpr(self, n):
        return ("int", 0)

    def x_ImplicitValueInitExpr(self, n):
        return ("int", 0)

    def x_DeclRefExpr(self, n):
        d = n.get("foundReferencedDecl") or n.get("referencedDecl")
        d = n.get("referencedDecl") or d
        k = d.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return ("term", ("fn", self.w.keyof(self.tu, d) or d.get("name")))
        if k == "EnumConstantDecl":
            return ("name", "::" + d["name"])
        g = self.w.globalof(self.tu, d["id"])
        if g is not None:
            return ("name", "::" + g)
        if d["id"] in self.bound:
            b = self.bound[d["id"]]
            return self.e(b) if isinstance(b, dict) else b
        if d["id"] in self.names or k == "ParmVarDecl":
            return ("name", self.local(d))
        if d["id"] in self.tu.localids:
            return ("name", self.local(d))
        return ("name", "::" + d.get("name", "?"))

    def x_MemberExpr(self, n):
        ks = kids(n)
        name = n.get("name")
        if not name:
            return self.e(ks[0])       # member of an anonymous struct or union
        b = ks[0]
        sb = strip(b)
        if n.get("isArrow"):
            if sb.get("kind") == "CXXOperatorCallExpr" and refname(kids(sb)[0]) == "operator->":
                o = kids(sb)[1]
                cat = category(spell(o))
                if cat == "shared_ptr" or cat == "unique_ptr":
                    return ("attr", self.e(o), name, True)
                if cat == "optional":
                    return ("attr", ("call", ("meth", self.e(o), False, "value", None, cat), [], {}), name)
                return ("call", ("ext", "$iterfield"), [self.e(o), ("str", name)], {})
            return ("attr", self.e(b), name, True)
        if sb.get("kind") == "UnaryOperator" and sb.get("opcode") == "*":
            return ("attr", self.e(kids(sb)[0]), name, True)
        return ("attr", self.e(b), name)

    def x_CXXDependentScopeMemberExpr(self, n):
        ks = kids(n)
        if not ks:
            return ("attr", ("name", "this"), n["member"], True)
        return ("attr", self.e(ks[0]), n["member"], True) if n.get("isArrow") else ("attr", self.e(ks[0]), n["member"])

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        x = kids(n)[0]
        if op == "!":
            return ("not", self.e(x))
        if op in ("++", "--"):
            return ("incdec", self.e(x), 1 if op == "++" else -1, not n.get("isPostfix"))
        if op == "-":
            v = self.e(x)
            return ("int", -v[1]) if v[0] == "int" else ("un", "-", v)
        if op == "+":
            return self.e(x)
        if op == "*":
            return self.deref(self.e(x), ctype(n))
        if op == "&":
            return ("addr", self.e(x))
        if op == "~":
            v = self.e(x)
            if v[0] == "int":
                w = SIZES.get(ctype(n).strip(), 8)
                return ("int", ~v[1] & (2 ** (8 * w) - 1))
            return ("un", "~", v)
        if op == "__extension__":
            return self.e(x)
        raise Unsupported("operator %s" % op)

    def deref(self, x, ty):
        if x == ("name", "this"):
            return ("deref", x)
        if category(ty) in self.w.records:
            return ("deref", x)
        return ("attr", x, "*", True)

    BIN = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
    CMP = {"<", "<=", ">", ">=", "==", "!="}

    def binop(self, op, a, b):
        if op in ("<<", ">>", "+", "-", "*", "&", "|", "/") and a[0] == "int" and b[0] == "int":
            try:
                v = {"<<": lambda: a[1] << b[1], ">>": lambda: a[1] >> b[1], "+": lambda: a[1] + b[1], "-": lambda: a[1] - b[1],
                     "*": lambda: a[1] * b[1], "&": lambda: a[1] & b[1], "|": lambda: a[1] | b[1], "/": lambda: a[1] // b[1]}[op]()
                return ("int", v)
            except (ZeroDivisionError, ValueError):
                pass
        return ("bin", op, a, b)

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            return ("asg", self.e(a), self.e(b))
        if op == ",":
            return ("stmtexpr", [("expr", self.e(a))], self.e(b))
        if op in ("&&", "||"):
            return ({"&&": "and", "||": "or"}[op], self.e(a), self.e(b))
        if op in self.CMP:
            return ("cmp", op, self.e(a), self.e(b))
        if op in self.BIN:
            return self.binop(op, self.e(a), self.e(b))
        raise Unsupported("operator %s" % op)

    def x_CompoundAssignOperator(self, n):
        a, b = kids(n)
        return ("asgop", n["opcode"][:-1], self.e(a), self.e(b))

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        return ("cond", self.e(c), self.e(a), self.e(b))

    def x_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        x = self.e(a)
        i = self.e(b)
        ta = ctype(a)
        sa = strip(a)
        if a.get("kind") == "ImplicitCastExpr" and a.get("castKind") == "ArrayToPointerDecay":
            return ("index", self.e(kids(a)[0]), i)
        if "*" in ta and category(ta) not in ("vector", "map") or category(ta) in ("shared_ptr",):
            return ("attr", ("bin", "+", x, i) if i != ("int", 0) else x, "*", True)
        return ("index", x, i)

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") == "sizeof":
            a = n.get("argType")
            ty = (a.get("desugaredQualType") or a.get("qualType")) if a else (ctype(kids(n)[0]) if kids(n) else "")
            s = SIZES.get(ty.replace("const ", "").strip())
            if s:
                return ("int", s)
            return ("call", ("ext", "$sizeof"), [("str", bare(ty))], {})
        raise Unsupported("type trait")

    def x_InitListExpr(self, n):
        ks = kids(n)
        ty = ctype(n)
        if "[" in ty:
            return ("list", [self.e(x) for x in ks])
        if len(ks) == 1 and category(ty) not in self.w.records:
            return self.e(ks[0])
        if category(ty) in self.w.records:
            fs = self.w.records[category(ty)]
            return ("struct", category(ty), list(zip(fs, [self.e(x) for x in ks])))
        return ("list", [self.e(x) for x in ks])

    def x_ParenListExpr(self, n):
        ks = kids(n)
        if len(ks) == 1:
            return self.e(ks[0])
        return ("list", [self.e(x) for x in ks])

    def x_CXXUnresolvedConstructExpr(self, n):
        return self.construct(ctype(n), kids(n))

    def x_CXXTemporaryObjectExpr(self, n):
        return self.x_CXXConstructExpr(n)

    def x_CXXConstructExpr(self, n):
        return self.construct(ctype(n), [x for x in kids(n) if x.get("kind") != "CXXDefaultArgExpr"], n)

    def construct(self, ty, args, n=None):
        cat = category(ty)
        if len(args) == 1:
            a = args[0]
            if category(ctype(a)) == cat or category(spell(a)) == cat:
                return self.e(a)
            if cat in ("shared_ptr", "unique_ptr") and ("*" in ctype(a) or strip(a).get("kind") == "CXXNewExpr" or category(ctype(a)) in ("shared_ptr", "unique_ptr")):
                return self.e(a)
            if cat == "string":
                return self.e(a)
        return ("call", ("ctor", cat, bare(ty)), [self.e(x) for x in args], {})

    def x_CXXNewExpr(self, n):
        ks = kids(n)
        ty = ctype(n).rstrip("* ")
        args = []
        for x in ks:
            x = strip(x)
            if x.get("kind") in ("CXXConstructExpr", "CXXUnresolvedConstructExpr", "ParenListExpr"):
                args = [y for y in kids(x) if y.get("kind") != "CXXDefaultArgExpr"]
        return ("call", ("new", category(ty), bare(ty)), [self.e(x) for x in args], {})

    def x_CXXDeleteExpr(self, n):
        return ("call", ("ext", "$delete"), [self.e(kids(n)[0])], {})

    def x_LambdaExpr(self, n):
        ps, body = self.lambdaparts(n)
        b = self.body(body)
        if len(b) == 1 and b[0][0] == "return":
            return ("lambda", [self.local(p) for p in ps], b[0][1])
        raise Unsupported("lambda with statements")

    def x_CXXThrowExpr(self, n):
        raise Unsupported("throw")

    def args(self, ns):
        return [self.e(x) for x in ns if x.get("kind") != "CXXDefaultArgExpr"]

    def x_CallExpr(self, n):
        ks = kids(n)
        c = strip(ks[0])
        args = ks[1:]
        k = c.get("kind")
        if k == "DeclRefExpr":
            d = c.get("referencedDecl") or {}
            if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                key = self.w.keyof(self.tu, d)
                name = d.get("name")
                if key is None and name in ("make_shared", "make_unique"):
                    t = bare(ctype(n)) if "<" in ctype(n) else bare(spell(n))
                    m = re.search(r"<(.*)>$", t)
                    inner = re.sub(r"^_NonArray<(.*)>$", r"\1", m.group(1)) if m else "?"
                    inner = splitargs(inner)[0]
                    return ("call", ("new", category(inner), inner), self.args(args), {})
                if key is None and name in ("move", "forward", "as_const", "addressof"):
                    return self.e(args[0])
                if key is None and name == "make_pair":
                    return ("tuple", self.args(args))
                if key is None and name == "for_each" and len(args) == 3:
                    x = self.foreach(args)
                    if x is not None:
                        return x
                if key is None and name == "copy" and len(args) == 3:
                    v = [self.e(x) for x in args]
                    if re.sub(r"const |unsigned ", "", ctype(strip(args[0]))).strip() in ("char *", "uint8_t *", "uint8 *", "uint8_t *const"):
                        return ("call", ("fn", None, "memcpy"), [v[2], v[0], ("bin", "-", v[1], v[0])], {})
                return ("call", ("fn", key, name), self.args(args), {})
            return ("call", ("value", self.e(c)), self.args(args), {})
        if k == "UnresolvedLookupExpr":
            name = c.get("name")
            if name in ("move", "forward"):
                return self.e(args[0])
            if name == "make_pair":
                return ("tuple", self.args(args))
            key = None
            for l in c.get("lookups", []):
                key = key or self.w.keyof(self.tu, l)
            return ("call", ("fn", key, name), self.args(args), {})
        if k in ("CXXDependentScopeMemberExpr", "MemberExpr", "UnresolvedMemberExpr"):
            return self.memcall(n, c, args)
        if k == "DependentScopeDeclRefExpr":
            return ("call", ("ext", "static " + (c.get("name") or self.sourcename(c))), self.args(args), {})
        return ("call", ("value", self.e(c)), self.args(args), {})

    def foreach(self, args):
        """std::for_each over all of a collection"""
        c = self.whole(args[:2])
        f = self.lambdaof(args[2])
        if c is None or f is None:
            return None
        ps, body = self.lambdaparts(f)
        if len(ps) != 1:
            return None
        name = self.local(ps[0])
        b = self.body(body)
        ty = spell(ps[0]).rstrip()
        if any(isinstance(y, tuple) and y and y[0] == "return" for y in walk(b)):
            raise Unsupported("lambda that returns early")
        if ty.endswith("&") and not ty.startswith("const ") and rootwrites(b, name):
            raise Unsupported("loop changes the elements of its collection in place")
        return ("stmtexpr", [("foreach", ("name", name), self.e(c), b, [])], None)

    def sourcename(self, c):
        return self.tu.text(c)

    def x_CXXMemberCallExpr(self, n):
        ks = kids(n)
        return self.memcall(n, strip(ks[0]), ks[1:])

    def memcall(self, n, m, args):
        name = m.get("name") or m.get("member")
        ks = kids(m)
        b = ks[0] if ks else None
        arrow = bool(m.get("isArrow"))
        key = self.w.keybyid(self.tu, m.get("referencedMemberDecl"))
        targs = self.w.targs(self.tu, m.get("referencedMemberDecl"))
        if targs:
            name += "<%s>" % ",".join(targs)
        if b is None:
            recv, cat = ("name", "this"), ""
        else:
            sb = strip(b)
            if arrow and sb.get("kind") == "CXXOperatorCallExpr" and refname(kids(sb)[0]) == "operator->":
                o = kids(sb)[1]
                recv, cat = self.e(o), category(spell(o))
                t = ctype(sb)
                if cat not in ("shared_ptr", "unique_ptr"):
                    recv = ("call", ("ext", "$itervalue"), [recv], {})
                cat = category(t)
                if cat == "element_type":
                    mm = re.search(r"<(.*)>", bare(spell(o)))
                    cat = category(splitargs(mm.group(1))[0]) if mm else cat
            else:
                recv, cat = self.e(b), category(ctype(b))
        if name == "get" and cat in ("shared_ptr", "unique_ptr"):
            return recv
        if name.startswith("operator ") or name == "operator bool":
            if cat in ("shared_ptr", "unique_ptr"):
                return ("cmp", "!=", recv, ("none",))
        if name == "at" and len(args) == 1 and key is None:
            if cat == "DafnyArray":
                return ("attr", ("bin", "+", ("call", ("meth", recv, arrow, "ptr", None, cat), [], {}), self.e(args[0])), "*", True)
            return ("index", ("attr", recv, "*", True) if arrow else recv, self.e(args[0]))
        return ("call", ("meth", recv, arrow, name, key, cat), self.args(args), {})

    def x_CXXOperatorCallExpr(self, n):
        ks = kids(n)
        op = refname(ks[0])
        a = ks[1:]
        cat = category(ctype(a[0]))
        key = self.w.keyof(self.tu, (strip(ks[0]).get("referencedDecl") or {}))
        if op is None:
            raise Unsupported("operator call")
        o = op[len("operator"):]
        if o == "=":
            return ("asg", self.e(a[0]), self.e(a[1]))
        if key is not None and self.w.fns.get(key) is not None:
            r = self.e(a[0])
            if strip(ks[0]).get("referencedDecl", {}).get("kind") == "CXXMethodDecl":
                return ("call", ("meth", r, False, op, key, cat), self.args(a[1:]), {})
            return ("call", ("fn", key, op), self.args(a), {})
        if o in ("==", "!=", "<", "<=", ">", ">="):
            return ("cmp", o, self.e(a[0]), self.e(a[1]))
        if o == "[]":
            if cat in ("DafnyArray",):
                return ("attr", ("bin", "+", ("call", ("meth", self.e(a[0]), False, "ptr", None, cat), [], {}), self.e(a[1])), "*", True)
            return ("index", self.e(a[0]), self.e(a[1]))
        if o == "*" and len(a) == 1:
            if cat in ("shared_ptr", "unique_ptr"):
                return self.deref(self.e(a[0]), ctype(n) if category(ctype(n)) != "element_type" else pointee(spell(a[0])))
            if cat == "optional":
                return ("call", ("meth", self.e(a[0]), False, "value", None, cat), [], {})
            return ("call", ("ext", "$itervalue"), [self.e(a[0])], {})
        if o == "->":
            return self.e(a[0])
        if o in ("+=", "-=", "|=", "&=", "^="):
            return ("asgop", o[0], self.e(a[0]), self.e(a[1]))
        if o in ("++", "--"):
            return ("incdec", self.e(a[0]), 1 if o == "++" else -1, len(a) == 1)
        if o == "()":
            f = strip(a[0])
            while f.get("kind") in CASTS and kids(f):
                f = strip(kids(f)[0])
            i = (f.get("referencedDecl") or {}).get("id")
            if i in self.lambdas:
                return self.lambdacall(self.lambdas[i], self.args(a[1:]))
            if f.get("kind") == "LambdaExpr":
                return self.lambdacall(self.lambdaparts(f), self.args(a[1:]))
            return ("call", ("value", self.e(a[0])), self.args(a[1:]), {})
        if o in ("+", "-", "*", "/", "<<", "&", "|"):
            return ("bin", o, self.e(a[0]), self.e(a[1]))
        if o == "!":
            return ("not", self.e(a[0]))
        raise Unsupported(op)


VALUES = {"vector", "map", "set", "string", "optional", "pair", "list", "deque", "unordered_set"}


def pointee(t):
    m = re.search(r"<(.*)>", t)
    return splitargs(m.group(1))[0] if m else t


def kids(n):
    return [x for x in (n.get("inner") or []) if x and not x.get("kind", "").endswith("Comment")]


def strip(n):
    while n.get("kind") in WRAP or n.get("kind") in CASTS:
        ks = kids(n)
        if not ks:
            return n
        n = ks[0]
    return n


def refname(n):
    n = strip(n)
    d = n.get("referencedDecl")
    if d:
        return d.get("name")
    return n.get("name")


def spellrecv(m):
    b = kids(m)[0]
    return ctype(b)


def leaves(b):
    return bool(b) and (b[-1][0] in ("break", "return", "continue", "raise") or b[-1][0] == "block" and leaves(b[-1][1])
                        or b[-1][0] == "if" and leaves(b[-1][2]) and leaves(b[-1][3])
                        or b[-1][0] == "expr" and b[-1][1][0] == "call" and b[-1][1][1][-1] == "fail")


def leaving(b):
    """always returns"""
    return bool(b) and (b[-1][0] == "return" or b[-1][0] == "block" and leaving(b[-1][1]) or b[-1][0] == "if" and leaving(b[-1][2]) and leaving(b[-1][3])
                        or b[-1][0] == "expr" and b[-1][1][0] == "call" and b[-1][1][1][-1] == "fail")


def nestless(b):
    """statements without those of inner loops"""
    out = []
    for s in b:
        if s[0] in ("while", "foreach"):
            continue
        out.append(tuple(nestless(x) if isinstance(x, list) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str) else x for x in s))
    return out


def uses(n, i):
    if isinstance(n, list):
        return any(uses(x, i) for x in n)
    if isinstance(n, dict):
        return (n.get("referencedDecl") or {}).get("id") == i or uses(n.get("inner") or [], i)
    return False


def mentions(x, n):
    return any(isinstance(y, tuple) and len(y) == 2 and y == ("name", n) for y in walk(x))


def norm(b):
    """one form for loops that can be written several ways"""
    b = [tuple(norm(x) if isinstance(x, list) and x and isinstance(x[0], tuple) and x[0] and isinstance(x[0][0], str) and s[0] in ("if", "while", "foreach", "block", "try", "switch") else x for x in s) for s in b]
    k = 0
    while k < len(b):
        s = b[k]
        if s[0] == "while":
            for j in range(k - 1, -1, -1):
                d = b[j]
                if d[0] == "decl" and d[2] == "val" and not mentions(b[j + 1:k], d[1]) and not mentions(b[k + 1:], d[1]):
                    n = (counting(d, s) if j == k - 1 or d[3] and d[3][0] == "int" else None) or rotated(d, s)
                    if n is not None:
                        b[k] = n
                        del b[j]
                        k -= 1
                        break
        k += 1
    return b


def upto(c, i):
    """a bound on a counter as `i < n`"""
    if c[0] == "cmp" and c[1] in (">", ">=", "!=") and c[3] == ("name", i):
        c = ("cmp", {">": "<", ">=": "<=", "!=": "!="}[c[1]], c[3], c[2])
    if c[0] == "cmp" and c[1] == "<=" and c[2] == ("name", i):
        n = c[3]
        c = ("cmp", "<", c[2], n[2] if n[0] == "bin" and n[1] == "-" and n[3] == ("int", 1) else ("int", n[1] + 1) if n[0] == "int" else ("bin", "+", n, ("int", 1)))
    return c


def counting(d, s):
    """decl i = a; while (i < n) { ...; i++; }"""
    _, c, body, step = s[:4]
    i = d[1]
    c = upto(c, i)
    if step or d[3] is None or not (c[0] == "cmp" and c[1] in ("<", "!=") and c[2] == ("name", i)) or touchedany(body, c[3]) or mentions(c[3], i) or flowpy.has(nestless(body), "continue"):
        return None
    incs = [m for m in range(len(body)) if body[m][0] == "expr" and Tr.isinc(body[m][1], i)]
    if len(incs) != 1:
        return None
    rest = body[:incs[0]] + body[incs[0] + 1:]
    if touched(rest, i) or incs[0] != len(body) - 1 and mentions(rest, i):
        return None
    return ("foreach", ("name", i), ("call", ("ext", "$range"), [d[3], c[3]], {}), rest, [])


def rotated(d, s):
    """decl v = true; while (v) { ...; v = e; }"""
    _, c, body, step = s[:4]
    v = d[1]
    if step or d[3] != ("bool", True) or c != ("name", v) or not body:
        return None
    l = body[-1]
    if l[0] != "expr" or l[1][0] != "asg" or l[1][1] != ("name", v) or mentions(l[1][2], v) or mentions(body[:-1], v) or flowpy.has(nestless(body), "continue"):
        return None
    return ("while", ("bool", True), body[:-1] + [("if", l[1][2], [], [("break",)])], [], [])


def rootof(t):
    while t and t[0] in ("attr", "index") and not (t[0] == "attr" and len(t) > 3 and t[3]):
        t = t[1]
    return t[1] if t and t[0] == "name" else None


def touched(b, n):
    """is the local n assigned or handed out by address within b?"""
    for s in walk(b):
        if isinstance(s, tuple) and s:
            if s[0] == "asg" and len(s) == 3 and rootof(s[1]) == n:
                return True
            if s[0] == "asgop" and len(s) == 4 and rootof(s[2]) == n:
                return True
            if s[0] == "incdec" and rootof(s[1]) == n:
                return True
            if s[0] == "addr" and rootof(s[1]) == n:
                return True
    return False


def rootwrites(b, n):
    for s in walk(b):
        if isinstance(s, tuple) and s:
            if s[0] in ("asg",) and rootof(s[1]) == n or s[0] == "asgop" and rootof(s[2]) == n or s[0] == "incdec" and rootof(s[1]) == n:
                return True
    return False


def touchedany(b, x):
    """may the bound x of a counting loop change within b?"""
    ns = {y[1] for y in walk(x) if isinstance(y, tuple) and len(y) == 2 and y[0] == "name"}
    if any(touched(b, n) for n in ns):
        return True
    if any(isinstance(y, tuple) and y and y[0] == "attr" and len(y) > 3 for y in walk(x)):
        return True
    for y in walk(x):
        if isinstance(y, tuple) and y and y[0] == "call" and y[1][0] == "meth":
            r = rootof(y[1][1])
            for s in walk(b):
                if isinstance(s, tuple) and len(s) == 4 and s[0] == "call" and s[1][0] == "meth" and rootof(s[1][1]) == r and s[1][3] not in PUREM:
                    return True
    return False


def kstr(k):
    return None if k is None else "%s(%s)" % k


class TU:
    def __init__(self, file, tree):
        self.file, self.tree = file, tree
        self.ids = {}          # declaration id -> qualified function key
        self.vars = {}         # id -> qualified name of a global
        self.targ = {}
        self.localids = set()
        self.ctx = {}

    def text(self, c):
        return "?"


class World(flowpy.World):
    """functions of a set of translation units"""
    python = False
    writers = ()
    rebinds = False
    valueand = False
    lamterm = True
    cmpexit = True

    boolvars = True
    fills = True

    def pre(self, fn, args, this):
        """what holds whenever a member function is entered: identifiers not handed out yet are in nobody's table.
        The tables start empty, are only added to at `curId` (every function that does is compared), and `curId` only grows"""
        if fn.cls == "DiskIOHandler" and fn.name.split("::")[-1].split("(")[0] in ("read", "write"):
            o = ("var", "this")
            return [mk_not(T.mk_in(T.dot(o, "curId"), T.dot(o, f))) for f in ("writeReqs", "readReqs")]
        return []

    def __init__(self, trees, label=""):
        self.fns, self.classes, self.consts, self.methods = {}, {}, {}, {}
        self.imports, self.main, self.texts = {}, {}, {}
        self.effect, self.mutating, self.outer = {}, {}, set()
        self.constdone = {}
        self.records = {}        # class name -> field names
        self.bases = {}
        self.globals = {}        # qualified name -> (initialiser IR or None, is constant)
        self.fieldinit = {}      # (class, field) -> (unit, default member initialiser)
        self.errors = []
        self.tus = []
        self.ctors, self.dtors = {}, {}
        self.label = label
        self.files = {}
        pend = []
        for f, tree, errs in trees:
            tu = TU(f, tree)
            self.tus.append(tu)
            self.errors += errs
            self.curfile = None
            self.scan(tu, tree, (), pend, f)
        seen = set()
        for tu, key, n, cls, file in pend:
            if key in seen:
                continue
            seen.add(key)
            self.fns[key] = None
        done = set()
        for tu, key, n, cls, file in pend:
            if key in done:
                continue
            done.add(key)
            self.fns[key] = self.mk(tu, key, n, cls, file)
        for key, f in self.fns.items():
            if f.cls:
                self.methods.setdefault(f.name.split("::")[-1], []).append(f)
        for g, (tu, n) in list(self.globals.items()):
            self.globals[g] = self.mkglobal(tu, g, n)

    # ---- declarations
    def scan(self, tu, n, ctx, pend, file, cls=None, inst=False):
        k = n.get("kind")
        loc = n.get("loc") or {}
        for l in (loc, loc.get("spellingLoc") or {}, loc.get("expansionLoc") or {}):
            if l.get("file"):
                self.curfile = l["file"]
        file = self.curfile
        if k == "TranslationUnitDecl" or k == "LinkageSpecDecl":
            for c in kids(n):
                self.scan(tu, c, ctx, pend, file, cls)
        elif k == "NamespaceDecl":
            q = ctx + ((n["name"],) if n.get("name") else ())
            tu.ctx[n["id"]] = q
            for c in kids(n):
                self.scan(tu, c, q, pend, file)
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            name = n.get("name")
            q = ctx + ((name,) if name else ())
            if k == "ClassTemplatePartialSpecializationDecl":
                return
            sp = k != "CXXRecordDecl"
            tu.ctx[n["id"]] = q
            if n.get("completeDefinition") and name and not sp:
                fs = [c["name"] for c in kids(n) if c.get("kind") == "FieldDecl" and c.get("name")]
                for c in kids(n):
                    if c.get("kind") == "FieldDecl" and c.get("name") and c.get("hasInClassInitializer") and kids(c):
                        self.fieldinit[name, c["name"]] = (tu, kids(c)[-1])
                    if c.get("kind") == "FieldDecl" and c.get("name"):
                        T.NNFIELDS[c["name"]] = T.NNFIELDS.get(c["name"], True) and ctype(c).replace("const ", "").strip() in UNSIGNED
                if any(self.hasbody(c) for c in kids(n)) or fs:
                    self.records.setdefault(name, fs)
            for c in kids(n):
                self.scan(tu, c, q, pend, file, name, inst=sp)
        elif k == "ClassTemplateDecl":
            for c in kids(n):
                self.scan(tu, c, ctx, pend, file)
        elif k == "FunctionTemplateDecl":
            first = True
            for c in kids(n):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    self.scan(tu, c, ctx, pend, file, cls, inst=inst or not first)
                    if not first:
                        ta = [str(x.get("value", (x.get("type") or {}).get("qualType", ""))) for x in kids(c) if x.get("kind") == "TemplateArgument"]
                        if all(re.fullmatch(r"-?\d+", x) for x in ta):
                            tu.targ[c["id"]] = ta
                    first = False
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            if n.get("isImplicit") or n.get("explicitlyDefaulted") or n.get("explicitlyDeleted"):
                tu.ids[n["id"]] = None
                return
            q = ctx
            if n.get("parentDeclContextId") in tu.ctx:
                q = tu.ctx[n["parentDeclContextId"]]
                if q and cls is None and k != "FunctionDecl":
                    cls = q[-1]
            sig = ",".join(bare(self.ptype(c)) for c in kids(n) if c.get("kind") == "ParmVarDecl")
            key = ("::".join(q + (n.get("name", "?"),)), sig)
            if n.get("previousDecl") in tu.ids and tu.ids[n["previousDecl"]] is not None and not inst:
                key = tu.ids[n["previousDecl"]]
            tu.ids[n["id"]] = key
            if inst:
                # instances carry concrete types: they stand for their pattern
                cand = [v for v in tu.ids.values() if v is not None and v[0] == key[0] and len(splitargs(v[1])) == len(splitargs(sig))]
                tu.ids[n["id"]] = cand[0] if cand else key
                return
            if self.hasbody(n):
                kk = "ctor" if k == "CXXConstructorDecl" else "dtor" if k == "CXXDestructorDecl" else "fn"
                pend.append((tu, (kk, kstr(key)), n, cls, file))
        elif k == "VarDecl":
            q = ctx
            if n.get("parentDeclContextId") in tu.ctx:
                q = tu.ctx[n["parentDeclContextId"]]
            name = "::".join(q + (n["name"],))
            tu.vars[n["id"]] = name
            if n.get("init") or name not in self.globals:
                self.globals[name] = (tu, n)

    @staticmethod
    def ptype(c):
        return (c.get("type") or {}).get("qualType", "")

    @staticmethod
    def hasbody(n):
        if n.get("kind") == "FunctionTemplateDecl":
            return any(World.hasbody(c) for c in kids(n))
        return n.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl") and \
            any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in kids(n))

    def keyof(self, tu, d):
        return self.keybyid(tu, d.get("id"))

    def keybyid(self, tu, i):
        return kstr(tu.ids.get(i))

    def targs(self, tu, i):
        return tu.targ.get(i)

    def globalof(self, tu, i):
        return tu.vars.get(i)

    def mkglobal(self, tu, g, n):
        const = n.get("constexpr") or "const" in ctype(n).split("*")[-1].split()
        init = None
        if kids(n):
            try:
                init = Tr(self, tu, g).e(kids(n)[0])
            except Unsupported:
                init = None
        return init, const

    def mk(self, tu, key, n, cls, file):
        tr = Tr(self, tu, key)
        tr.node = n
        ps = []
        kk, q = key[0], key[1].split("(")[0]
        try:
            for c in kids(n):
                if c.get("kind") == "ParmVarDecl":
                    t = spell(c).rstrip()
                    byref = t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and " const &" not in t
                    ps.append(dict(name=tr.local(c), mode="ref" if byref else "val", default=None, type=ctype(c)))
            body = []
            for c in kids(n):
                if c.get("kind") == "CXXCtorInitializer":
                    f = (c.get("anyInit") or {}).get("name")
                    ks = kids(c)
                    if f is None:
                        raise Unsupported("delegating or base constructor")
                    x = ks[0]
                    if x.get("kind") == "CXXDefaultInitExpr" and not kids(x) and (cls, f) in self.fieldinit:
                        x = self.fieldinit[cls, f][1]
                    if strip(x).get("kind") == "CXXConstructExpr" and not kids(strip(x)):
                        if category(ctype(x)) in VALUES:
                            body.append(("expr", ("asg", ("attr", ("name", "this"), f, True), ("call", ("ctor", category(ctype(x)), None), [], {}))))
                        continue
                    body.append(("expr", ("asg", ("attr", ("name", "this"), f, True), tr.e(x))))
            for c in kids(n):
                if c.get("kind") == "CompoundStmt":
                    body += norm(tr.body(c))
        except Unsupported as ex:
            body = [("unsup", str(ex))]
        f = Fn(q if kk == "fn" else q, ps, body, file, cls if kk != "fn" or self.isinstance_(n) else None)
        f.key = key
        f.static = n.get("storageClass") == "static"
        if f.static and kk == "fn":
            f.cls = None
        if kk == "fn":
            rt = (n.get("type") or {}).get("qualType", "")
        if kk == "ctor":
            self.ctors.setdefault(cls, []).append(f)
        if kk == "dtor":
            self.dtors[cls] = f
        return f

    @staticmethod
    def isinstance_(n):
        return n.get("kind") == "CXXMethodDecl" and n.get("storageClass") != "static"

    # ---- hooks of flowref
    def find(self, n):
        if n[0] == "global":
            f = self.fns.get(n)
            if f is None and n[1] in self.globals:
                init, const = self.globals[n[1]]
                f = Fn(n[1], [], [("return", init if init is not None else ("none",))], "")
                f.key = n
                self.fns[n] = f
            return f
        f = self.fns.get(n)
        if f is None:
            q = n[1].split("(")[0]
            c = [g for k, g in self.fns.items() if k[0] == n[0] and k[1].split("(")[0] == q]
            other = getattr(self, "other", None)
            if len(c) == 1 and other is not None and sum(1 for k in other.fns if k[0] == n[0] and k[1].split("(")[0] == q) == 1:
                return c[0]
        return f

    def path(self, f):
        p = f.file or ""
        from . import db
        for r in (db.REPO.rstrip("/") + "/",):
            if p.startswith(r):
                return p[len(r):]
        return p

    def begin(self, ref):
        self.other, ref.other = ref, self

    def mentions(self, f):
        out = set()
        for y in walk(f.body):
            if isinstance(y, tuple) and y and y[0] == "call" and len(y) == 4:
                d = y[1]
                if d[0] in ("fn",) and d[1]:
                    out.add(d[1])
                elif d[0] == "meth" and d[4]:
                    out.add(d[4])
                elif d[0] in ("new", "ctor"):
                    for g in self.ctors.get(d[1], []):
                        out.add(g.key[1])
        return out

    # ---- what a call may change
    def mods(self, fn, seen=()):
        k = ("mods", fn.key)
        if k in self.effect:
            return self.effect[k]
        if fn in seen:
            return set(), set()
        fs, ps = set(), set()
        names = {p["name"]: i for i, p in enumerate(fn.params) if p["mode"] == "ref"}

        def hit(x):
            while isinstance(x, tuple) and x and (x[0] == "index" or x[0] == "attr" and not (len(x) > 3 and x[3]) and x[1][0] != "deref"):
                x = x[1]
            if isinstance(x, tuple) and x and x[0] == "attr":
                fs.add(x[2])
            elif isinstance(x, tuple) and x and x[0] == "name":
                if x[1].startswith("::"):
                    fs.add(x[1])
                elif x[1] in names:
                    ps.add(names[x[1]])
        for y in walk(fn.body):
            if not isinstance(y, tuple) or not y:
                continue
            if y[0] == "asg" and len(y) == 3:
                hit(y[1])
            elif y[0] == "asgop" and len(y) == 4:
                hit(y[2])
            elif y[0] == "incdec":
                hit(y[1])
            elif y[0] == "call" and len(y) == 4:
                d = y[1]
                g = None
                if d[0] == "fn":
                    g = self.fns.get(("fn", d[1])) if d[1] else None
                    if g is None and self.isbundle(d):
                        fs.add(None)
                elif d[0] == "meth":
                    g = self.fns.get(("fn", d[4])) if d[4] else None
                    if g is None and d[3] not in PUREM:
                        hit(("attr", d[1], "*", True) if d[2] else d[1])
                gs = [g] if g is not None else []
                if d[0] in ("new", "ctor"):
                    gs = self.ctors.get(d[1], [])
                for g in gs:
                    a, b = self.mods(g, seen + (fn,))
                    fs |= a
                    for i in b:
                        if i < len(y[2]):
                            hit(y[2][i])
                    for i, p in enumerate(g.params):
                        if i < len(y[2]) and y[2][i][0] == "addr":
                            hit(y[2][i][1])
        if not seen:
            self.effect[k] = (fs, ps)
        return fs, ps

    @staticmethod
    def isbundle(d):
        """code generated from Dafny may call back into anything"""
        return d[1] is not None and "_Compile::__default::" in d[1] and "::MaxLen(" not in d[1]

    def callmods(self, fn):
        fs, ps = self.mods(fn)
        other = getattr(self, "other", None)
        if other is not None:
            g = other.fns.get(fn.key)
            if g is not None:
                a, b = other.mods(g)
                fs, ps = fs | a, ps | b
        return fs, ps

    # ---- values
    def settype(self, v, ty):
        if not ty or not isinstance(ty, str) or v[0] in ("int", "bool", "str", "$ptr", "new"):
            return
        t = ty.strip()
        if t.endswith("*") or v in T.TYPES:
            return
        b = bare(t)
        if b in ("bool",):
            T.TYPES[v] = ("bool", ())
        elif t.replace("const ", "").replace("&", "").strip() in SIZES:
            T.TYPES[v] = ("int", ())
        else:
            c = category(t)
            k = {"vector": "seq", "map": "map", "string": "str", "set": "set"}.get(c)
            if k:
                T.TYPES[v] = (k, ())

    def paramtype(self, v, ty):
        if v[0] == "var":
            (T.NNVARS.add if ty.replace("const ", "").replace("&", "").strip() in UNSIGNED else T.NNVARS.discard)(v)

    def default(self, ty, name, st):
        c = category(ty or "")
        if c in ("vector", "list", "deque"):
            return ("seq",)
        if c == "map":
            return ("map",)
        if c in ("set", "unordered_set"):
            return ("set",)
        if c == "string":
            return ("str", "")
        if c == "Tuple0":
            return app("new Tuple0")
        if c in ("shared_ptr", "unique_ptr", "optional"):
            return NONE
        return app("uninit", ("str", bare(ty or "")))

    def coerce(self, v, ty):
        return v

    def isheap(self, v):
        return False

    def kind(self, v):
        k = flow.Exec.kindof(v)
        if k:
            return k
        if v[0] == "str":
            return "str"
        return None

    def truth(self, v):
        if T.isbool(v):
            return v
        if v == NONE:
            return FALSE
        if v[0] == "int":
            return TRUE if v[1] else FALSE
        if v[0] == "ite":
            return T.ite(v[1], self.truth(v[2]), self.truth(v[3]))
        if v[0] == "new":
            return TRUE
        if v[0] in ("ret", "app", "lin"):
            return mk_not(T.eq(v, T.num(0)))
        return self.mkbool(app("truthy", v))

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "app" and x[1] == "iter" and y[0] == "app" and y[1] == "end":
                return mk_not(x[4])
            if x[0] == "app" and x[1] == "end" and y[0] == "app" and y[1] == "end":
                return TRUE
            if x == NONE and y[0] == "app" and y[1] == "some":
                return FALSE
            if x == NONE and y[0] in ("app",) and y[1] in ("&", "ref", "elems"):
                return FALSE
        return super().eq(a, b)

    def op(self, o, a):
        if len(a) == 2:
            x, y = a
            if o == "+" and (x[0] == "str" or y[0] == "str" or "str" in (self.kind(x), self.kind(y))):
                return fmt([piece(x), piece(y)])
            if o == "+":
                return T.add(x, y)
            if o == "-":
                return T.sub(x, y)
            if o == "*":
                return T.mul(x, y)
            if o in ("|", "^", "&") and T.key(y) < T.key(x):
                x, y = y, x
            if o == "&" and T.isbool(x) and T.isbool(y):
                return mk_and(x, y)
            if o == "|" and T.isbool(x) and T.isbool(y):
                return mk_or(x, y)
            # low bits cleared, remainders and shifts, all in terms of division
            for p, q in ((x, y), (y, x)):
                if o == "&" and p[0] == "int":
                    for w in (64, 32):
                        k = (1 << w) - p[1]
                        if 1 < k < 1 << 31 and k & (k - 1) == 0:
                            return T.mul(T.num(k), app("/", q, T.num(k)))
            if y[0] == "int" and y[1] > 0:
                if o == "%":
                    return T.sub(x, T.mul(y, app("/", x, y)))
                if o in ("<<", ">>") and y[1] < 64:
                    m = T.num(1 << y[1])
                    return T.mul(x, m) if o == "<<" else app("/", x, m)
            if o in ("&", "|", "^", "<<", ">>", "/", "%"):
                return app(o, x, y)
            for p, q in ((x, y), (y, x)):
                if o in ("==", "!=") and T.isbool(p) and q[0] == "int":
                    r = p if q[1] else mk_not(p)
                    return r if o == "==" else mk_not(r)
        return super().op(o, a)

    def index(self, v, i):
        if v[0] == "ite":
            return T.ite(v[1], self.index(v[2], i), self.index(v[3], i))
        return T.idx(v, i)

    def field(self, st, v, f):
        if v[0] == "ite":
            return T.ite(v[1], self.field(st, v[2], f), self.field(st, v[3], f))
        if v[0] == "tuple" and f in ("first", "second") and len(v) == 3:
            return v[1 + (f == "second")]
        if v[0] == "ctor" and v[3] == "flow.new":
            for n, x in v[2]:
                if n == f:
                    return x
        return T.dot(v, f)

    def setfield(self, v, f, x):
        if v[0] == "tuple" and f in ("first", "second") and len(v) == 3:
            return ("tuple", x, v[2]) if f == "first" else ("tuple", v[1], x)
        if v[0] == "ctor" and v[3] == "flow.new":
            d = dict(v[2])
            d[f] = x
            return ("ctor", v[1], tuple(sorted(d.items())), v[3])
        return T.recupd(v, ((f, x),))

    def setindex(self, v, i, x):
        r = T.mupd(v, i, x)
        d, y = {}, r
        while y[0] == "mupd" and y[2][0] == "int":
            d.setdefault(y[2][1], y[3])
            y = y[1]
        m = re.search(r"\[(\d+)\]$", y[2][1]) if y[:2] == ("app", "uninit") and y[2][0] == "str" else None
        if m and set(d) == set(range(int(m.group(1)))):
            return ("seq",) + tuple(d[k] for k in sorted(d))
        k = self.kind(v)
        if k:
            T.TYPES.setdefault(r, (k, ()))
        return r

    def mkstruct(self, name, fs, vs):
        return ("ctor", "new " + name, tuple(sorted(zip(fs, vs))), "flow.new")

    def elements(self, coll):
        if self.kind(coll) == "map":
            return coll, lambda e: ("tuple", e, T.idx(coll, e))
        return coll, lambda e: e

    def inside(self, e, coll):
        if coll[0] == "range":
            return mk_and(T.le(coll[1], e), T.lt(e, coll[2]))
        return T.mk_in(e, coll)

    def literal(self, coll):
        if coll[0] == "seq":
            return list(coll[1:])
        return None

    def as_foreach(self, ex, st, fr, s):
        return None

    def collref(self, x):
        return False

    def deref(self, ex, st, b):
        return b

    def deref_write(self, ex, st, b, v):
        flow.hwrite(st, b, "*", v)

    def outcells(self, st):
        return {k[2]: st.cells[k] for k, v in st.old.items() if k[2].endswith("&") and st.cells[k] != v}

    # ---- names
    def lookup(self, ex, st, fr, n):
        par = st.env.get((fr, "$parent"))
        if par is not None and not n.startswith("::"):
            lv = st.env.get((par, n))
            if lv is not None:
                return (st, ex.read(st, lv))
            return self.lookup(ex, st, par, n)
        if n.startswith("::"):
            g = n[2:]
            if g in self.globals:
                init, const = self.globals[g]
                if const and init is not None and init[0] in ("int", "bool", "str"):
                    return (st, ex.pure(st, fr, init))
                return (st, flow.hread(st, ("var", "globals"), n))
        return (st, ("var", n))

    def global_lv(self, ex, st, fr, n):
        if n.startswith("::") and n[2:] in self.globals:
            init, const = self.globals[n[2:]]
            if const and init is not None and init[0] in ("int", "bool", "str"):
                return None
            return (("heap", ("var", "globals")), (("f", n),))
        return None

    def special(self, ex, st, fr, x):
        return None

    def target(self, b):
        """the storage a pointer value designates, when known"""
        if b[0] == "$ptr":
            return b[1]
        if b[0] == "app" and b[1] == "&":
            return (("heap", b[2]), tuple(("f", y[1]) if y[0] == "str" else ("i", y[2]) for y in b[3:]))
        return None

    def address(self, lv):
        root, path = lv
        if root[0] == "heap":
            if len(path) == 1 and path[0] == ("f", "*"):
                return root[1]
            if len(path) == 2 and path[0] == ("f", "*") and path[1][0] == "i" and root[1][0] != "new":
                pass
            return app("&", root[1], *[("str", p[1]) if p[0] == "f" else app("at", p[1]) for p in path])
        return None

    # ---- calls
    def snap(self, ex, st, v):
        """a pointer argument of an observed call: what it points to at that moment"""
        if v[0] == "$ptr":
            root, path = v[1]
            if path and path[-1][0] == "i":
                arr = ex.read(st, (root, path[:-1]))
                if arr[:2] == ("app", "filled") and path[-1][1] == T.num(0) and arr[2][:2] == ("app", "resize"):
                    # room for one entry per element: only the entries stored count
                    coll = arr[3][3][2] if arr[3][:2] == ("compr", "fold") else arr[3]
                    if T.card(coll) == arr[2][-1]:
                        arr = arr[3]
                return app("elems", arr, path[-1][1])
            return app("ref", ex.read(st, v[1]))
        if isinstance(v, tuple) and any(isinstance(y, tuple) for y in v):
            return v
        return v

    def call(self, ex, st, fr, x, stmt):
        _, d, argx, _ = x
        out = []
        if d[0] == "ext":
            return self.evalargs(ex, st, fr, argx, lambda s, a: self.builtin(ex, s, fr, d[1], a, stmt))
        if d[0] == "value":
            for s, v in ex.e(st, fr, d[1]):
                if v[0] == "$exit":
                    out.append((s, v))
                else:
                    out += self.evalargs(ex, s, fr, argx, lambda s2, a, v=v: self.callval(ex, s2, fr, v, a, stmt))
            return out
        if d[0] == "fn":
            fn = self.fns.get(("fn", d[1])) if d[1] is not None else None
            if fn is not None:
                refs = [p["mode"] == "ref" for p in fn.params]
                return self.evalargs(ex, st, fr, argx, lambda s, a: self.callproj(ex, s, fr, fn, a, None), refs)
            name = d[1].split("(")[0] if d[1] is not None else d[2]
            return self.evalargs(ex, st, fr, argx, lambda s, a: self.extcall(ex, s, fr, name, a, stmt, bundle=self.isbundle(d)))
        if d[0] in ("ctor", "new"):
            return self.evalargs(ex, st, fr, argx, lambda s, a: self.mkobject(ex, s, fr, d[1], a, d[0] == "new"))
        if d[0] == "meth":
            _, rx, arrow, name, key, cat = d
            fn = self.fns.get(("fn", key)) if key is not None else None
            if arrow:
                rs = [(s, v if v[0] == "$exit" else ("$obj", v)) for s, v in ex.e(st, fr, rx)]
            else:
                rs = [(s, lv if lv[0] == "$exit" else ("$at", lv)) for s, lv in ex.lval(st, fr, rx)]
            refs = [p["mode"] == "ref" for p in fn.params] if fn is not None else None
            for s, r in rs:
                if r[0] == "$exit":
                    out.append((s, r))
                    continue
                out += self.evalargs(ex, s, fr, argx, lambda s2, a, r=r: self.callmeth(ex, s2, fr, r, name, fn, key, cat, a, stmt), refs)
            return out
        raise Unsupported("call of %s" % d[0])

    def evalargs(self, ex, st, fr, argx, k, refs=None):
        cur, out = [(st, ())], []
        for i, a in enumerate(argx):
            nx = []
            for s, vs in cur:
                if refs and i < len(refs) and refs[i]:
                    for s2, lv in ex.lval(s, fr, a):
                        if lv[0] == "$exit":
                            out.append((s2, lv))
                        else:
                            nx.append((s2, vs + (("$lv", lv) if lv[0] != "val" else lv[1],)))
                    continue
                for s2, v in ex.e(s, fr, a):
                    if v[0] == "$exit":
                        out.append((s2, v))
                    else:
                        nx.append((s2, vs + (v,)))
            cur = nx
        for s, vs in cur:
            out += k(s, list(vs))
        return out

    def callval(self, ex, st, fr, v, a, stmt):
        if v[0] == "fn":
            fn = self.fns.get(("fn", v[1]))
            if fn is not None:
                return self.callproj(ex, st, fr, fn, a, None)
            return self.extcall(ex, st, fr, v[1].split("(")[0], a, stmt)
        if v[0] == "lamx" and len(a) == 1:
            return [(st, T.subst(v[2], {("b", v[1], 0): a[0]}))]
        a = [self.snap(ex, st, y) for y in a]
        return [(st, ex.event(st, "call", (v,) + tuple(a)))]

    def lam(self, ex, st, fr, x):
        fr2 = ex.newframe()
        s = st.copy()
        bvs = []
        s.env[fr2, "$parent"] = fr
        for n in x[1]:
            b = T.fresh()
            bvs.append(b)
            s.env[fr2, n] = (s.cell(b, n), ())
        n0 = len(s.events)
        rs = ex.e(s, fr2, x[2])
        if len(rs) != 1 or rs[0][1][0] == "$exit":
            raise Unsupported("lambda")
        s2, v = rs[0]
        parts = [v] + [app("do", ("str", e.name), *e.args) for e in s2.events[n0:]]
        h, bs = T.bind("lamx", bvs, parts)
        if len(bs) == 1:
            return ("lamx", h, bs[0])
        return ("lamx", h, ("tuple",) + tuple(bs))

    # a project function
    def callproj(self, ex, st, fr, fn, a, this):
        if fn in ex.stack or fn.key[1] in ex.keep or fn.name in NOISE or not ex.doinline or fn.body[:1] and fn.body[0][0] == "unsup":
            return self.kept(ex, st, fr, fn, a, this)
        return ex.inline(st, fn, a, this)

    def kept(self, ex, st, fr, fn, a, this):
        if fn.name in NOISE:
            return [(st, NONE)]
        full = []
        outs = []
        for i, v in enumerate(a):
            if v[0] == "$lv":
                outs.append((i, v[1]))
                full.append(self.snap(ex, st, ex.read(st, v[1])))
            else:
                if v[0] == "$ptr" or v[0] == "app" and v[1] == "&":
                    outs.append((i, self.target(v)))
                full.append(app("slot", ("int", i)) if v[0] == "$ptr" and self.outonly(fn, i) else self.snap(ex, st, v))
        if this is not None:
            full = [self.snap(ex, st, this)] + full
        pure = not self.effectful(ex, fn) and fn not in ex.stack
        fs, ps = self.callmods(fn)
        shown = fn.name
        n = sum(v for k2, v in st.occ.items() if isinstance(k2, tuple) and k2[0] == shown)
        r = ex.event(st, shown, tuple(full), pure=pure and not fs)
        for f in sorted(fs, key=str):
            st.heap.append(("havoc", f, "%s@%d" % (shown, n), None))
        if this is not None and this[0] == "$ptr" and fs:
            outs.append((-1, this[1]))
        for i, lv in outs:
            if i >= 0 and i < len(fn.params) and not self.mayset(fn, i, ps):
                continue
            ex.write(st, lv, app("after", ("str", shown), ("int", n), ("int", i), r))
        return [(st, r)]

    def outonly(self, fn, i):
        return self.mayset(fn, i, set())

    def mayset(self, fn, i, ps):
        """may the callee store through its i-th parameter?"""
        def one(f):
            if f is None or i >= len(f.params):
                return False
            p = f.params[i]["name"]
            for y in walk(f.body):
                if isinstance(y, tuple) and y and y[0] in ("asg", "asgop", "incdec"):
                    t = y[2] if y[0] == "asgop" else y[1]
                    while t and t[0] in ("index",) or t and t[0] == "attr" and not (len(t) > 3 and t[3]):
                        t = t[1]
                    if t[0] == "attr" and t[1] == ("name", p) or t[0] == "deref" and t[1] == ("name", p) or f.params[i]["mode"] == "ref" and t == ("name", p):
                        return True
                if isinstance(y, tuple) and len(y) == 4 and y[0] == "call":
                    for j, z in enumerate(y[2]):
                        if z == ("name", p):
                            d = y[1]
                            g = self.fns.get(("fn", d[1])) if d[0] == "fn" and d[1] else None
                            if g is None or g is not f:
                                if g is None and d[0] == "fn" and d[-1] in PUREEXT:
                                    continue
                                if g is None:
                                    return "*" in (f.params[i].get("type") or "") and "const" not in f.params[i]["type"]
                                if self.mayset(g, j, set()):
                                    return True
            return False
        other = getattr(self, "other", None)
        return one(fn) or (other is not None and one(other.fns.get(fn.key)))

    def effectful(self, ex, fn):
        k = fn.key
        if k not in self.effect:
            self.effect[k] = False
            try:
                e2 = flow.Exec(self, keep=ex.keep - {fn.key[1]}, limit=15)
                ps = e2.summarise(fn)
                self.effect[k] = any(flow.effects(p) or p.kind != "return" for p in ps)
            except (Unsupported, flow.TooMany):
                self.effect[k] = True
        return self.effect[k]

    def mkobject(self, ex, st, fr, cls, a, heap):
        if cls in self.records:
            cs = [c for c in self.ctors.get(cls, []) if len(c.params) == len(a)]
            if len(cs) > 1:
                cs = [c for c in cs if self.fits(c, a)] or cs
            st.n += 1
            obj = ("new", cls, st.n)
            if not cs:
                if len(a) == 0:
                    fs = []
                    for f in self.records[cls]:
                        if (cls, f) in self.fieldinit:
                            tu, x = self.fieldinit[cls, f]
                            (st, v), = ex.e(st, ex.newframe(), Tr(self, tu, "init of %s" % f).e(x))
                            fs.append((f, v))
                    if heap:
                        for f, v in fs:
                            flow.hwrite(st, obj, f, v)
                        return [(st, obj)]
                    return [(st, ("ctor", "new " + cls, tuple(sorted(fs)), "flow.new"))]
                return [(st, obj if heap else app("new " + cls, *[self.snap(ex, st, x) for x in a]))]
            if len(cs) > 1:
                raise Unsupported("overloaded constructor of %s" % cls)
            c = cs[0]
            if c.key[1] in ex.keep and heap:
                r = self.kept(ex, st, fr, c, a, obj)
                return [(s, v if v[0] == "$exit" else obj) for s, v in r]
            out = []
            for s, v in ex.inline(st, c, a, obj):
                if v[0] == "$exit":
                    out.append((s, v))
                elif heap:
                    out.append((s, obj))
                else:
                    fs = {}
                    for w in s.heap:
                        if w[0] == "w" and w[1] == obj:
                            fs[w[2]] = w[3]
                    s.heap = [w for w in s.heap if not (w[0] == "w" and w[1] == obj)]
                    out.append((s, ("ctor", "new " + cls, tuple(sorted(fs.items())), "flow.new")))
            return out
        if heap:
            st.n += 1
            obj = ("new", cls, st.n)
            flow.hwrite(st, obj, "*", self.value(cls, a, st, ex))
            return [(st, obj)]
        return [(st, self.value(cls, a, st, ex))]

    def fits(self, c, a):
        for p, v in zip(c.params, a):
            t = category(p.get("type") or "")
            if t == "string" and not (v[0] == "str" or self.kind(v) == "str"):
                return False
            if t == "int" and self.kind(v) != "int":
                return False
            if t == "DafnySequence" and self.kind(v) in ("int", "str"):
                return False
        return True

    def value(self, cls, a, st, ex):
        a = [self.snap(ex, st, x) for x in a]
        if cls in ("vector", "list", "deque"):
            if not a:
                return ("seq",)
            if len(a) == 1 and a[0][0] == "seq":
                return a[0]
            r = app("fill", a[0], a[1]) if len(a) == 2 else app("resize", ("seq",), a[0])
            T.TYPES.setdefault(r, ("seq", ()))
            return r
        if cls == "map":
            return ("map",) if not a else app("new map", *a)
        if cls in ("set", "unordered_set"):
            return ("set",) if not a else app("new set", *a)
        if cls == "string":
            if not a:
                return ("str", "")
            r = app("string", *a)
            T.TYPES.setdefault(r, ("str", ()))
            return r
        if cls == "pair" and len(a) == 2:
            return ("tuple",) + tuple(a)
        if cls == "optional":
            if not a:
                return NONE
            if len(a) == 1:
                return NONE if a[0] == ("var", "::nullopt") or a[0] == NONE else app("some", a[0])
        if cls in ("shared_ptr", "unique_ptr") and not a:
            return NONE
        return app("new " + cls, *a)

    # methods
    def callmeth(self, ex, st, fr, r, m, fn, key, cat, a, stmt):
        if fn is not None:
            if r[0] == "$obj":
                this = r[1]
            elif r[1][0] == "val":
                this = ("$ptr", (st.cell(r[1][1], "tmp"), ()))
            else:
                ad = self.address(r[1])
                root, path = r[1]
                this = root[1] if root[0] == "heap" and not path else ad if ad is not None else ("$ptr", r[1])
            return self.callproj(ex, st, fr, fn, a, this)
        # library object
        if r[0] == "$obj":
            t = self.target(r[1])
            lv = t if t is not None else (("heap", r[1]), (("f", "*"),))
        else:
            lv = r[1]
        recv = ex.read(st, lv)
        k = self.kind(recv) or {"vector": "seq", "map": "map", "string": "str", "set": "set"}.get(cat)
        a = [self.snap(ex, st, y) for y in a]
        b = self.libmethod(ex, st, lv, recv, m, a, k, cat)
        if b is not None:
            return [(st, b)]
        name = (key.split("(")[0] if key is not None else "." + m)
        if m.split("<")[0] in PUREM or key is not None and m.startswith(("is_", "dtor_")):
            return [(st, app(name if "<" not in m else name + m[m.index("<"):], recv, *a))]
        # unknown effect on the receiver
        r = ex.event(st, name, (recv,) + tuple(a))
        if lv[0] != "val":
            ex.write(st, lv, app("after", ("str", name), r, recv))
        return [(st, r)]

    def libmethod(self, ex, st, lv, recv, m, a, k, cat):
        def put(v, kd=None):
            if kd:
                T.TYPES.setdefault(v, (kd, ()))
            if lv[0] != "val":
                ex.write(st, lv, v)
            return NONE
        n = len(a)
        if cat in ("shared_ptr", "unique_ptr"):
            if m == "reset":
                return put(a[0] if a else NONE)
            return None
        if cat == "optional":
            if m == "has_value" or m == "operator bool":
                return self.some(recv)
            if m == "value" or m == "operator*":
                return self.payload(recv)
            if m == "value_or":
                return T.ite(self.some(recv), self.payload(recv), a[0])
            if m == "reset":
                return put(NONE)
            return None
        if cat == "pair":
            return None
        if k == "map" or cat == "map":
            if recv[0] not in ("map",):
                T.TYPES.setdefault(recv, ("map", ()))
            if m in ("size", "empty"):
                c = T.card(recv)
                return c if m == "size" else T.eq(c, T.num(0))
            if m in ("end", "cend"):
                return app("end", ("str", "map"))
            if m in ("begin", "cbegin"):
                return app("iter", recv, app("firstkey", recv), mk_not(T.eq(T.card(recv), T.num(0))))
            if m == "find":
                return app("iter", recv, a[0], T.mk_in(a[0], recv))
            if m == "count" or m == "contains":
                i = T.mk_in(a[0], recv)
                return i if m == "contains" else T.ite(i, T.num(1), T.num(0))
            if m == "at":
                return T.idx(recv, a[0])
            if m == "erase":
                key = a[0]
                if key[0] == "app" and key[1] == "iter":
                    st.stale |= {key}
                    key = key[3]
                elif key[0] == "tuple" and len(key) == 3:
                    st.stale |= {key}
                    key = key[1]
                return put(("mrem", recv, key), "map")
            if m == "clear":
                return put(("map",), "map")
            if m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                if n == 1:
                    p = a[0]
                    if p[0] == "tuple" and len(p) == 3:
                        kk, v = p[1], p[2]
                    else:
                        kk, v = self.field(st, p, "first"), self.field(st, p, "second")
                elif n == 2:
                    kk, v = a
                else:
                    return None
                new = T.mupd(recv, kk, v)
                T.TYPES.setdefault(new, ("map", ()))
                r = new if m == "insert_or_assign" else T.ite(T.mk_in(kk, recv), recv, new)
                put(r, "map")
                return app("inserted", recv, kk)
            return None
        if k == "seq" or cat in ("vector", "list", "deque"):
            if recv[0] != "seq":
                T.TYPES.setdefault(recv, ("seq", ()))
            if m == "size":
                return T.appendcount(recv) or T.card(recv)
            if m == "empty":
                return T.eq(T.appendcount(recv) or T.card(recv), T.num(0))
            if m in ("push_back", "emplace_back") and n == 1:
                return put(T.concat(recv, ("seq", a[0])), "seq")
            if m == "pop_back":
                return put(T.slice_(recv, T.num(0), T.sub(T.card(recv), T.num(1))), "seq")
            if m == "clear":
                return put(("seq",), "seq")
            if m == "resize":
                return put(app("resize", recv, *a), "seq")
            if m == "reserve" or m == "shrink_to_fit":
                return NONE
            if m == "assign":
                return put(app("fill", *a), "seq")
            if m == "at":
                return T.idx(recv, a[0])
            if m == "front":
                return T.idx(recv, T.num(0))
            if m == "back":
                return T.idx(recv, T.sub(T.card(recv), T.num(1)))
            if m == "data":
                return app("elems", recv, T.num(0))
            return None
        if k in ("set",) or cat in ("set", "unordered_set"):
            if m == "size":
                return T.card(recv)
            if m == "insert" and n == 1:
                return put(self.union(recv, ("set", a[0])), "set")
            if m in ("count", "contains"):
                i = T.mk_in(a[0], recv)
                return i if m == "contains" else T.ite(i, T.num(1), T.num(0))
            if m == "clear":
                return put(("set",), "set")
            return None
        if k == "str" or cat == "string":
            if m in ("c_str", "data"):
                return recv
            if m in ("size", "length"):
                return T.card(recv)
            return None
        if m == "at" and n == 1 and cat in ("DafnyArray", "DafnySequence"):
            return flow.hread(st, T.add(app(".ptr", recv), a[0]), "*")
        if m in ("begin", "ptr", "data", "cbegin") and cat in ("DafnyArray", "DafnySequence"):
            return app(".ptr", recv)
        if m == "end" and cat in ("DafnyArray", "DafnySequence"):
            return T.add(app(".ptr", recv), app(".size", recv))
        if m == "size":
            r = app(".size", recv)
            T.TYPES.setdefault(r, ("int", ()))
            return r
        if m == "select" and n == 1 and cat == "DafnySequence":
            return T.idx(recv, a[0])
        return None

    def some(self, v):
        if v[0] == "app" and v[1] == "some":
            return TRUE
        if v[0] == "ite":
            return T.ite(v[1], self.some(v[2]), self.some(v[3]))
        return mk_not(self.eq(v, NONE))

    def payload(self, v):
        if v[0] == "app" and v[1] == "some":
            return v[2]
        if v[0] == "ite":
            return T.ite(v[1], self.payload(v[2]), self.payload(v[3]))
        return app("val", v)

    # ---- library and system functions
    def builtin(self, ex, st, fr, name, a, stmt):
        if name == "$range":
            return [(st, ("range", a[0], a[1]))]
        if name.startswith("$trunc") and a[0][0] == "compr" and a[0][1] == "fold" and T.nonneg(a[0]):
            return [(st, a[0])]     # a count of things held in memory
        if name == "$unsigned":
            # a failure (-1) seen as an unsigned number is a huge one
            v = a[0]
            if v[0] == "ret" and v[1] in T.GEM1:
                w = app("$wrapped", v)
                T.TYPES.setdefault(w, ("int", ()))
                c = T.le(T.num(0), v)
                return [(st, v if c in st.factset else T.ite(c, v, w))]
            return [(st, v)]
        if name.startswith("$trunc"):
            v = a[0]
            if v[0] == "int" and 0 <= v[1] < 2 ** (int(name[6:]) - 1):
                return [(st, v)]
            r = app(name, v)
            T.TYPES.setdefault(r, ("int", ()))
            return [(st, r)]
        if name == "$iterfield":
            it, f = a[0], a[1][1]
            if it in st.stale:
                return [(st, app("erased", it, ("str", f)))]
            return [(st, self.iterfield(ex, st, it, f))]
        if name == "$itervalue":
            it = a[0]
            if it in st.stale:
                return [(st, app("erased", it))]
            if it[0] == "app" and it[1] == "iter":
                return [(st, ("tuple", it[3], T.idx(it[2], it[3])) if self.kind(it[2]) == "map" else it[3])]
            if it[0] != "app":
                return [(st, it)]
            return [(st, app("*", it))]
        if name == "$delete":
            hwrite(st, a[0], "*", app("freed"))
            return [(st, ex.event(st, "delete", (a[0],)))]
        return [(st, app(name, *a))]

    def iterfield(self, ex, st, it, f):
        if it[0] == "ite":
            return T.ite(it[1], self.iterfield(ex, st, it[2], f), self.iterfield(ex, st, it[3], f))
        if it[0] == "app" and it[1] == "iter":
            if f == "first":
                return it[3]
            if f == "second":
                return T.idx(it[2], it[3])
        if it[0] == "tuple" and len(it) == 3 and f in ("first", "second"):
            return it[1 + (f == "second")]
        return T.dot(app("*", it), f)

    def extcall(self, ex, st, fr, name, a, stmt, bundle=False):
        short = name.split("::")[-1]
        if name in NOISE or short in NOISE:
            return [(st, NONE)]
        if name in ("exit", "_exit", "abort", "quick_exit", "terminate", "std::exit"):
            return [(st, ("$exit", ("exit", a[0] if a else T.num(1))))]
        if name in ("memcpy", "__builtin_memcpy", "memmove") and len(a) == 3:
            d = a[0]
            src = self.snap(ex, st, a[1])
            if d[0] == "$ptr":
                ex.write(st, d[1], app("bytes", src, a[2]))
                return [(st, NONE)]
            ex.event(st, "memcpy", (d, src, a[2]))
            return [(st, d)]
        if name == "to_string":
            r = app("str", a[0])
            T.TYPES.setdefault(r, ("str", ()))
            return [(st, r)]
        if name in ("min", "max"):
            x, y = a[0], a[1]
            c = T.le(x, y)
            return [(st, T.ite(c, x, y) if name == "min" else T.ite(c, y, x))]
        if name == "assert" or name == "__assert_fail":
            return [(st, ("$exit", ("exit", ("str", "assert"))))]
        outs = [(i, self.target(v)) for i, v in enumerate(a) if v[0] == "$ptr"]
        vs = tuple(self.snap(ex, st, v) for v in a)
        if short in PUREEXT or name.endswith("::MaxLen") or name.startswith("_mm_") or name.startswith("static call"):
            r = app(name, *vs)
            if short in ("memcmp", "strcmp", "strlen") or name.endswith("::MaxLen"):
                T.TYPES.setdefault(r, ("int", ()))
            return [(st, r)]
        if short.startswith(("create_", "is_", "dtor_")) or name.startswith("static "):
            return [(st, app(name, *vs))]
        n = sum(v for k2, v in st.occ.items() if isinstance(k2, tuple) and k2[0] == name)
        r = ex.event(st, name, vs)
        if short in INTEXT and r[0] == "ret":
            T.TYPES.setdefault(r, ("int", ()))
        if bundle:
            st.heap.append(("havoc", None, "%s@%d" % (name, n), None))
        else:
            for i, lv in outs:
                if lv is not None and name not in CONSTARGS:
                    ex.write(st, lv, app("after", ("str", name), ("int", n), ("int", i), r))
        return [(st, r)]


INTEXT = {"open", "close", "pread", "pwrite", "read", "write", "aio_write", "aio_error", "aio_return", "aio_suspend", "fcntl", "posix_memalign", "fsync", "fdatasync", "ftruncate"}
# system calls that only read what their pointer arguments designate
CONSTARGS = {"aio_suspend", "pwrite", "write", "open", "aio_error"}


def load(root, dirs, files, defines=()):
    return World(cppast.parse(root, dirs, files, defines), root)
