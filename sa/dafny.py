"""Dafny front end (Dafny 2.3 plus the linear extension used by VeriBetrFS).

Produces a raw syntax tree; nothing here depends on layout, comments or names
other than the language's own keywords.
"""
import re

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>@"(?:[^"]|"")*"|"(?:\\.|[^"\\])*")
 |(?P<chr>'(?:\\.|[^'\\])')
 |(?P<num>0x[0-9a-fA-F_]+|[0-9][0-9_]*(?:\.[0-9]+)?)
 |(?P<id>[A-Za-z_][A-Za-z0-9_'?]*\#?)
 |(?P<op><==>|==>|<==(?!=)|\{:|:\||:=|::|==\#|!=\#|==|!=|<=|>=|&&|\|\||=>|!!|\.\.\.|\.\.|->|~>|-->|[-+*/%<>=!&|^(){}\[\],;:.@`?\#])
""", re.X)


class PErr(Exception):
    pass


class T:
    __slots__ = ("k", "s", "line", "sp")

    def __init__(self, k, s, line, sp):
        self.k, self.s, self.line, self.sp = k, s, line, sp

    def __repr__(self):
        return "%s@%d" % (self.s, self.line)


def lex(src):
    out = []
    i, n, line = 0, len(src), 1
    sp = False
    while i < n:
        m = TOK.match(src, i)
        if not m:
            # unknown character: keep as an operator token
            out.append(T("op", src[i], line, sp))
            i += 1
            sp = False
            continue
        k = m.lastgroup
        s = m.group()
        if k == "bc":
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            sp = True
            continue
        if k in ("ws", "lc"):
            sp = True
            line += s.count("\n")
            i = m.end()
            continue
        out.append(T(k, s, line, sp))
        sp = False
        line += s.count("\n")
        i = m.end()
    out.append(T("eof", "", line, True))
    return out


MODS = {"ghost", "static", "protected", "linear", "shared", "inout", "glinear",
        "gshared", "inductive", "twostate", "abstract", "private", "opened",
        "unbounded"}
MEMBERS = {"function", "predicate", "method", "lemma", "const", "var", "constructor",
           "copredicate", "colemma", "iterator", "least", "greatest"}
SPECKW = {"requires", "ensures", "reads", "modifies", "decreases", "invariant", "yield"}
ATOMKW = {"if", "match", "var", "forall", "exists", "set", "iset", "map", "imap",
          "seq", "multiset", "old", "true", "false", "null", "this", "assert",
          "assume", "reveal", "calc", "new", "fresh", "linear", "shared", "inout",
          "glinear", "gshared", "ghost", "unchanged", "allocated", "expect"}
LINW = {"linear", "shared", "glinear", "gshared", "ghost", "inout"}


class Decl:
    """A module-level or type-level declaration."""

    def __init__(self, kind, name, line):
        self.kind, self.name, self.line = kind, name, line
        self.mods, self.attrs = [], []
        self.params, self.rets, self.specs = [], [], []
        self.body = None
        self.bodykind = None
        self.err = None
        self.members = []
        self.ctors = []
        self.type = None
        self.refines = None
        self.extra = None
        self.tparams = []
        self.toks = None
        self.parent = None
        self.file = None

    def qname(self):
        p, n = self.parent, self.name
        while p is not None and p.kind != "file":
            n = "%s.%s" % (p.name, n)
            p = p.parent
        return n

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.qname())


class Parser:
    def __init__(self, src, fname="?"):
        self.t = lex(src)
        self.i = 0
        self.fname = fname
        self.includes = []
        self.errors = []

    # ---- token helpers
    @property
    def c(self):
        return self.t[self.i]

    def pk(self, n=1):
        j = self.i + n
        return self.t[j] if j < len(self.t) else self.t[-1]

    def at(self, *ss):
        c = self.t[self.i]
        return c.s in ss and c.k != "str"

    def acc(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.at(s):
            raise PErr("%s:%d: expected %r got %r" % (self.fname, self.c.line, s, self.c.s))
        self.i += 1

    def ident(self):
        c = self.c
        if c.k not in ("id", "num"):
            raise PErr("%s:%d: expected identifier got %r" % (self.fname, c.line, c.s))
        self.i += 1
        return c.s

    def balanced(self):
        """skip a balanced bracket group starting at the current token"""
        op = {"(": ")", "{": "}", "[": "]", "{:": "}"}
        st = []
        while True:
            s = self.c.s if self.c.k == "op" else None
            if self.c.k == "eof":
                raise PErr("%s: eof in bracket group" % self.fname)
            if s in op:
                st.append(op[s])
            elif s in (")", "}", "]"):
                if not st or st[-1] != s:
                    raise PErr("%s:%d: unbalanced" % (self.fname, self.c.line))
                st.pop()
            self.i += 1
            if not st:
                return

    def attrs(self):
        out = []
        while self.at("{:"):
            a = self.i
            self.balanced()
            out.append([t.s for t in self.t[a + 1:self.i - 1]])
        return out

    # ---- types (kept as strings)
    def type_(self):
        a = self.i
        while self.c.s in LINW and self.pk().k == "id":
            self.i += 1
        b = self.i
        self._typeatom()
        while self.at("->", "~>", "-->"):
            self.i += 1
            self._typeatom()
        return "".join(t.s for t in self.t[b:self.i])

    def _typeatom(self):
        if self.at("("):
            self.i += 1
            if not self.at(")"):
                self.type_()
                while self.acc(","):
                    self.type_()
            self.exp(")")
        else:
            self.ident()
            self._targs()
            if self.at("(") and self.modty:
                self.balanced()
            while self.at(".") and self.pk().k == "id":
                self.i += 1
                self.ident()
                self._targs()

    def _targs(self):
        if self.at("<"):
            self.i += 1
            self.type_()
            while self.acc(","):
                self.type_()
            self.exp(">")

    def try_targs(self):
        """after an identifier in expression position: skip `<T>` if it is a
        type-argument list directly followed by ( or ."""
        if not self.at("<"):
            return
        s = self.i
        try:
            self._targs()
            if self.at("(", ".", "[", "{") and not self.t[self.i].sp:
                return
        except PErr:
            pass
        self.i = s

    # ---- file / module
    def file(self):
        d = Decl("file", self.fname, 1)
        d.file = self.fname
        while self.at("include"):
            self.i += 1
            self.includes.append((self.c.s.strip('"'), self.c.line))
            self.i += 1
        self.decls(d, "eof")
        return d

    def decls(self, owner, end):
        while True:
            if end == "eof" and self.c.k == "eof":
                return
            if end != "eof" and self.at(end):
                return
            if self.c.k == "eof":
                raise PErr("%s: eof in declarations" % self.fname)
            if self.at("include"):
                self.i += 1
                self.includes.append((self.c.s.strip('"'), self.c.line))
                self.i += 1
                continue
            if self.acc(";"):
                continue
            s = self.i
            try:
                m = self.decl(owner)
            except PErr as e:
                self.errors.append(str(e))
                # resynchronise on the next declaration keyword
                self.i = max(self.i, s + 1)
                depth = 0
                while self.c.k != "eof":
                    if self.c.k == "op" and self.c.s in ("{", "{:", "(", "["):
                        try:
                            self.balanced()
                        except PErr:
                            self.i += 1
                        continue
                    if self.at("}"):
                        break
                    if self.c.k == "id" and self.c.s in (
                            "module", "function", "predicate", "method", "lemma",
                            "datatype", "class", "import", "type", "newtype",
                            "export", "static", "protected"):
                        break
                    self.i += 1
                m = None
                if self.c.k == "eof":
                    return
            if m is not None:
                m.parent = owner
                m.file = self.fname
                owner.members.append(m)

    def decl(self, owner):
        mods = []
        while self.c.s in MODS or (self.c.s == "function" and self.pk().s == "method" and False):
            mods.append(self.c.s)
            self.i += 1
        c = self.c
        k = c.s
        line = c.line
        if k == "module":
            self.i += 1
            at = self.attrs()
            d = Decl("module", self.ident(), line)
            while self.acc("."):
                d.name += "." + self.ident()
            d.attrs, d.mods = at, mods
            if self.at("("):
                self.modty = True
                try:
                    d.params = self.formals()
                finally:
                    self.modty = False
            if self.at("refines"):
                self.i += 1
                d.refines = self._modpath()
            if self.at("="):  # rare
                self.i += 1
                self.type_()
                return d
            self.exp("{")
            self.decls(d, "}")
            self.exp("}")
            return d
        if k == "import":
            self.i += 1
            op = False
            if self.at("opened"):
                op = True
                self.i += 1
            nm = self.ident()
            while self.acc("."):
                nm += "." + self.ident()
            d = Decl("import", nm, line)
            d.mods = ["opened"] if op else []
            d.extra = nm
            if self.at("="):
                self.i += 1
                d.extra = self._modpath()
            elif self.at(":"):
                self.i += 1
                d.extra = self._modpath()
                d.mods.append("abstract")
                if self.at("as", "default"):
                    self.i += 1
                    d.extra = self._modpath()
            elif self.at("`"):
                self.i += 1
                self.ident()
            return d
        if k == "export":
            self.i += 1
            d = Decl("export", "", line)
            if self.c.k == "id" and not self.at("provides", "reveals", "extends"):
                d.name = self.ident()
            d.extra = []
            while self.at("provides", "reveals", "extends"):
                kk = self.ident()
                if self.acc("*"):
                    d.extra.append((kk, "*"))
                    continue
                while True:
                    n = self.ident()
                    while self.acc("."):
                        n += "." + self.ident()
                    d.extra.append((kk, n))
                    self.acc("`") and self.ident()
                    if not self.acc(","):
                        break
            return d
        if k in ("datatype", "codatatype"):
            self.i += 1
            at = self.attrs()
            d = Decl("datatype", self.ident(), line)
            d.mods, d.attrs = mods, at
            d.tparams = self.tparams()
            self.exp("=")
            self.acc("|")
            while True:
                while self.c.s in LINW and self.pk().k == "id":
                    self.i += 1
                self.attrs()
                cn = self.ident()
                fs = []
                if self.at("("):
                    fs = self.formals()
                d.ctors.append((cn, [(n, t) for (n, t, m) in fs]))
                if not self.acc("|"):
                    break
            if self.at("{"):
                self.i += 1
                self.decls(d, "}")
                self.exp("}")
            self.acc(";")
            return d
        if k in ("type", "newtype"):
            self.i += 1
            at = self.attrs()
            d = Decl("type", self.ident(), line)
            d.attrs, d.mods = at, mods
            if self.at("("):
                self.balanced()
            d.tparams = self.tparams()
            if self.at("("):
                self.balanced()
            if self.at("="):
                self.i += 1
                # either a type, or x : T | pred
                if self.c.k == "id" and self.pk().s in (":", "|"):
                    v = self.ident()
                    if self.acc(":"):
                        d.type = self.type_()
                    self.exp("|")
                    d.extra = (v, self.expr())
                    if self.at("witness") or (self.at("ghost") and self.pk().s == "witness"):
                        self.acc("ghost")
                        self.i += 1
                        self.expr()
                else:
                    d.type = self.type_()
            if self.at("{"):
                self.balanced()
            self.acc(";")
            return d
        if k in ("class", "trait"):
            self.i += 1
            at = self.attrs()
            d = Decl("class", self.ident(), line)
            d.attrs = at
            d.tparams = self.tparams()
            if self.at("extends"):
                self.i += 1
                self.type_()
                while self.acc(","):
                    self.type_()
            self.exp("{")
            self.decls(d, "}")
            self.exp("}")
            return d
        if k in ("const",) or (k == "var" and owner.kind == "class"):
            self.i += 1
            at = self.attrs()
            d = Decl("const", self.ident(), line)
            d.mods = mods
            if self.acc(":"):
                d.type = self.type_()
            if self.at(":=", "="):
                self.i += 1
                d.body = self.expr()
                d.bodykind = "expr"
            while self.acc(","):
                self.ident()
                if self.acc(":"):
                    self.type_()
            self.acc(";")
            return d
        if k in MEMBERS:
            return self.callable_(owner, mods)
        raise PErr("%s:%d: unexpected %r" % (self.fname, c.line, c.s))

    def _modpath(self):
        n = self.ident()
        while True:
            if self.at("("):
                a = self.i
                self.balanced()
                n += "".join(t.s for t in self.t[a:self.i])
            if not self.acc("."):
                break
            n += "." + self.ident()
        if self.acc("`"):
            self.ident()
        return n

    def tparams(self):
        out = []
        if self.at("<"):
            self.i += 1
            while not self.at(">"):
                if self.at("+", "-", "*", "!"):
                    self.i += 1
                    continue
                if self.at("("):
                    self.balanced()
                    continue
                if self.c.k == "id":
                    out.append(self.c.s)
                self.i += 1
            self.exp(">")
        return out

    def formals(self):
        self.exp("(")
        out = []
        anon = 0
        while not self.at(")"):
            m = []
            while self.c.s in (LINW | {"new", "nameonly", "older"}) and self.pk().k == "id":
                m.append(self.c.s)
                self.i += 1
            if self.c.k in ("id", "num") and self.pk().s == ":":
                n = self.ident()
                self.exp(":")
                ty = self.type_()
            else:
                n = "_%d" % anon
                anon += 1
                ty = self.type_()
            if self.at(":="):
                self.i += 1
                self.expr()
            out.append((n, ty, m))
            if not self.acc(","):
                break
        self.exp(")")
        return out

    def callable_(self, owner, mods):
        line = self.c.line
        kinds = []
        while self.c.s in (MEMBERS | MODS | {"function", "method"}) and self.c.s not in ("var", "const"):
            kinds.append(self.c.s)
            self.i += 1
        at = self.attrs()
        name = ""
        if self.c.k in ("id",) and not self.at("("):
            name = self.ident()
        if kinds[-1] == "constructor" and not name:
            name = "_ctor"
        if "lemma" in kinds or "colemma" in kinds:
            kind = "lemma"
        elif "predicate" in kinds or "copredicate" in kinds:
            kind = "predicate"
        elif "function" in kinds:
            kind = "function"
        else:
            kind = "method"
        d = Decl(kind, name, line)
        d.mods = mods + [k for k in kinds if k not in ("function", "predicate", "lemma")]
        d.attrs = at
        d.tparams = self.tparams()
        if self.at("["):
            self.balanced()
        if name == "operator" and self.at("("):
            self.balanced()
            d.tparams = self.tparams()
        if self.at("("):
            d.params = self.formals()
        if self.at(":"):
            self.i += 1
            save = self.i
            if self.at("("):
                try:
                    r = self.formals()
                    if len(r) == 1 and not r[0][0].startswith("_"):
                        d.rets = r
                    else:
                        raise PErr("")
                except PErr:
                    self.i = save
            if not d.rets:
                d.rets = [("result", self.type_(), [])]
        elif kind == "predicate":
            d.rets = [("result", "bool", [])]
        if self.at("returns"):
            self.i += 1
            d.rets = self.formals()
        while True:
            self.acc(";")
            if self.at(*SPECKW):
                kw = self.ident()
                free = False
                self.attrs()
                if kw in ("reads", "modifies", "decreases"):
                    self.exprlist_star()
                    continue
                a = self.i
                e = self.expr()
                d.specs.append((kw, e, (a, self.i)))
                continue
            break
        if self.at("{"):
            a = self.i
            self.balanced()
            z = self.i
            d.toks = (a, z)
            self.i = a
            try:
                if kind in ("function", "predicate"):
                    self.exp("{")
                    self.infun = 1
                    try:
                        d.body = self.expr()
                        while self.at("|"):
                            self.i += 1
                            d.body = ("bin", "|", d.body, self.expr())
                    finally:
                        self.infun = 0
                    self.acc(";")
                    self.exp("}")
                    d.bodykind = "expr"
                    if self.i != z:
                        raise PErr("%s:%d: trailing tokens in body of %s" % (self.fname, self.c.line, name))
                else:
                    d.body = self.block()
                    d.bodykind = "stmt"
                    if self.i != z:
                        raise PErr("%s:%d: trailing tokens in body of %s" % (self.fname, self.c.line, name))
            except PErr as e:
                d.err = str(e)
                d.body = None
                self.errors.append(str(e))
                self.i = z
        return d

    def exprlist_star(self):
        while True:
            if self.at("*"):
                self.i += 1
            else:
                self.expr()
                if self.acc("`"):
                    self.ident()
            if not self.acc(","):
                break

    # ---- expressions
    infun = 0
    modty = False
    nolam = 0

    def expr(self):
        e = self.equiv()
        # `Lemma(x); e` -- a statement expression inside a function body
        if self.infun and self.at(";") and e[0] in ("call",):
            nx = self.pk()
            if not (nx.s in ("}", ")", ",", "]") and nx.k == "op"):
                self.i += 1
                return self.expr()
        return e

    def nosemi(self):
        sv, self.infun = self.infun, 0
        try:
            return self.expr()
        finally:
            self.infun = sv

    def insemi(self):
        sv, self.infun = self.infun, 1
        try:
            return self.expr()
        finally:
            self.infun = sv

    def equiv(self):
        e = self.implies()
        while self.at("<==>"):
            self.i += 1
            e = ("bin", "<==>", e, self.implies())
        return e

    def implies(self):
        e = self.logic()
        if self.at("==>"):
            self.i += 1
            return ("bin", "==>", e, self.implies())
        while self.at("<=="):
            self.i += 1
            e = ("bin", "==>", self.logic(), e)
        return e

    def logic(self):
        if self.at("&&", "||"):
            op = self.c.s
            self.i += 1
        else:
            op = None
        e = self.rel()
        # Dafny: && and || do not mix without parentheses
        while self.at("&&", "||"):
            o = self.c.s
            self.i += 1
            e = ("bin", o, e, self.rel())
        return e

    RELS = ("==", "!=", "<", "<=", ">", ">=", "in", "!in", "!!", "==#", "!=#")

    def _relop(self):
        if self.at("!") and self.pk().s == "in" and self.pk().k == "id":
            return "!in", 2
        if self.at("!in"):
            return "!in", 1
        if self.c.k == "id" and self.c.s == "in":
            return "in", 1
        if self.c.k == "op" and self.c.s in self.RELS:
            return self.c.s, 1
        return None, 0

    def rel(self):
        e = self.add()
        parts = []
        while True:
            op, n = self._relop()
            if not op:
                break
            self.i += n
            parts.append((op, self.add()))
        if not parts:
            return e
        out = None
        l = e
        for op, r in parts:
            x = ("bin", op, l, r)
            out = x if out is None else ("bin", "&&", out, x)
            l = r
        return out

    def add(self):
        e = self.mul()
        while self.at("+", "-"):
            op = self.c.s
            self.i += 1
            e = ("bin", op, e, self.mul())
        return e

    def mul(self):
        e = self.bit()
        while self.at("*", "/", "%"):
            op = self.c.s
            self.i += 1
            e = ("bin", op, e, self.bit())
        return e

    def bit(self):
        e = self.asx()
        while self.at("&", "^") or (self.at("<") and self.pk().s == "<" and not self.pk().sp) \
                or (self.at(">") and self.pk().s == ">" and not self.pk().sp):
            op = self.c.s
            self.i += 1
            if op in "<>":
                op += op
                self.i += 1
            e = ("bin", op, e, self.asx())
        return e

    def asx(self):
        e = self.unary()
        while self.c.k == "id" and self.c.s in ("as", "is"):
            kw = self.c.s
            self.i += 1
            e = (kw, e, self.astype())
        return e

    def astype(self):
        if self.at("("):
            return self.type_()
        n = self.ident()
        while self.at(".") and self.pk().k == "id":
            self.i += 1
            n += "." + self.ident()
        s = self.i
        if self.at("<") and not self.c.sp:
            try:
                self._targs()
            except PErr:
                self.i = s
        return n

    def unary(self):
        if self.at("!") and not (self.pk().s == "in" and self.pk().k == "id"):
            self.i += 1
            return ("un", "!", self.unary())
        if self.at("-"):
            self.i += 1
            return ("un", "-", self.unary())
        return self.suffixed()

    def args(self):
        self.exp("(")
        out = []
        while not self.at(")"):
            io = False
            while self.c.s in LINW and (self.pk().k == "id" or self.pk().s == "("):
                if self.c.s == "inout":
                    io = True
                self.i += 1
            if self.c.k == "id" and self.pk().s == ":=":
                self.i += 2
            e = self.expr()
            out.append(("inout", e) if io else e)
            if not self.acc(","):
                break
        self.exp(")")
        return out

    def suffixed(self):
        e = self.atom()
        while True:
            if self.at("."):
                nx = self.pk()
                if nx.s == "(":
                    self.i += 2
                    ups = []
                    while True:
                        f = self.ident()
                        self.exp(":=")
                        ups.append((f, self.expr()))
                        if not self.acc(","):
                            break
                    self.exp(")")
                    e = ("recupd", e, ups)
                    continue
                if nx.k in ("id", "num"):
                    self.i += 2
                    if nx.k == "num" and "." in nx.s:
                        for p in nx.s.split("."):
                            e = ("dot", e, p)
                    else:
                        e = ("dot", e, nx.s)
                    self.try_targs()
                    continue
                raise PErr("%s:%d: bad suffix" % (self.fname, self.c.line))
            if self.at("("):
                e = ("call", e, self.args())
                continue
            if self.at("["):
                self.i += 1
                if self.at(".."):
                    self.i += 1
                    hi = None if self.at("]") else self.expr()
                    self.exp("]")
                    e = ("slice", e, None, hi)
                    continue
                a = self.expr()
                if self.at(":="):
                    self.i += 1
                    v = self.expr()
                    self.exp("]")
                    e = ("upd", e, a, v)
                elif self.at(".."):
                    self.i += 1
                    hi = None if self.at("]") else self.expr()
                    self.exp("]")
                    e = ("slice", e, a, hi)
                elif self.at(":"):
                    while not self.at("]"):
                        self.i += 1
                    self.exp("]")
                    e = ("opaque", "multislice", e)
                else:
                    ix = [a]
                    while self.acc(","):
                        ix.append(self.expr())
                    self.exp("]")
                    e = ("idx", e, ix)
                continue
            if self.at("`"):
                self.i += 1
                self.ident()
                continue
            return e

    def qvars(self):
        out = []
        while True:
            n = self.ident()
            ty = None
            if self.acc(":"):
                ty = self.type_()
            if self.c.k == "op" and self.at("<") and self.pk().s == "-":
                self.i += 2
                self.add()
            out.append((n, ty))
            if not self.acc(","):
                break
        self.attrs()
        return out

    def pattern(self):
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.acc(","):
                    break
            self.exp(")")
            return ("ptuple", ps)
        while self.c.s in LINW and self.pk().k == "id":
            self.i += 1
        if self.c.k in ("num", "str", "chr"):
            v = self.c
            self.i += 1
            return ("plit", v.s)
        n = self.ident()
        while self.at(".") and self.pk().k == "id":
            self.i += 1
            n = self.ident()
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.acc(","):
                    break
            self.exp(")")
            return ("pctor", n, ps)
        if self.acc(":"):
            self.type_()
        if n in ("true", "false"):
            return ("plit", n)
        return ("pvar", n)

    def atom(self):
        c = self.c
        s = c.s
        if c.k == "num":
            self.i += 1
            x = s.replace("_", "")
            if "." in x:
                # `t.0.1` style never reaches here; a real literal
                return ("lit", x)
            return ("int", int(x, 16) if x.startswith("0x") else int(x))
        if c.k == "str":
            self.i += 1
            return ("str", s)
        if c.k == "chr":
            self.i += 1
            return ("str", s)
        if c.k == "id":
            if s in ("true", "false"):
                self.i += 1
                return ("bool", s == "true")
            if s in LINW and (self.pk().k == "id" or self.pk().s in ("(", "[")):
                self.i += 1
                io = s == "inout"
                e = self.atom() if not self.at("var") else self.atom()
                return ("inoutx", e) if io else e
            if s == "if":
                self.i += 1
                self.acc("case")
                co = self.guard()
                self.exp("then")
                a = self.insemi()
                self.exp("else")
                b = self.expr()
                return ("if", co, a, b)
            if s == "match":
                self.i += 1
                sc = self.expr()
                br = self.acc("{")
                cs = []
                while self.at("case"):
                    self.i += 1
                    p = self.pattern()
                    self.exp("=>")
                    cs.append((p, self.expr()))
                if br:
                    self.exp("}")
                return ("match", sc, cs)
            if s == "var":
                self.i += 1
                ps = [self.pattern()]
                while self.acc(","):
                    ps.append(self.pattern())
                if self.acc(":"):
                    self.type_()
                if self.at(":|"):
                    self.i += 1
                    e = self.nosemi()
                    self.exp(";")
                    b = self.insemi()
                    return ("choose", [p[1] for p in ps], e, b)
                self.exp(":=")
                es = [self.nosemi()]
                while self.acc(","):
                    es.append(self.nosemi())
                self.exp(";")
                return ("let", ps, es, self.insemi())
            if s in ("forall", "exists"):
                self.i += 1
                vs = self.qvars()
                rng = None
                if self.at("|"):
                    self.i += 1
                    rng = self.expr()
                self.exp("::")
                return ("quant", s, vs, rng, self.expr())
            if s in ("set", "iset") and self.pk().k == "id":
                self.i += 1
                vs = self.qvars()
                self.exp("|")
                rng = self.expr()
                body = None
                if self.at("::"):
                    self.i += 1
                    body = self.expr()
                return ("compr", "set", vs, rng, body)
            if s in ("set", "iset", "multiset") and self.pk().s == "{":
                self.i += 1
                return self._setlit(s)
            if s in ("map", "imap") and self.pk().k == "id":
                self.i += 1
                vs = self.qvars()
                rng = None
                if self.at("|"):
                    self.i += 1
                    rng = self.expr()
                self.exp("::")
                body = self.expr()
                if self.at(":="):
                    self.i += 1
                    v = self.expr()
                    return ("compr", "map2", vs, rng, ("tuple", [body, v]))
                return ("compr", "map", vs, rng, body)
            if s in ("map", "imap") and self.pk().s == "[":
                self.i += 2
                prs = []
                while not self.at("]"):
                    k = self.expr()
                    self.exp(":=")
                    prs.append((k, self.expr()))
                    if not self.acc(","):
                        break
                self.exp("]")
                return ("maplit", prs)
            if s == "old" and self.pk().s == "(":
                self.i += 2
                e = self.expr()
                self.exp(")")
                return ("old", e)
            if s in ("assert", "assume", "expect"):
                self.i += 1
                self.attrs()
                if self.c.k == "id" and self.pk().s == ":" and self.pk(2).s != ":":
                    self.i += 2
                e = self.nosemi()
                if self.at("by"):
                    self.i += 1
                    self.balanced()
                self.acc(";")
                return ("seqx", (s, e), self.insemi())
            if s == "reveal" and self.pk().k == "id":
                self.i += 1
                self.suffixed()
                self.exp(";")
                return self.insemi()
            if s == "calc":
                self.i += 1
                while not self.at("{"):
                    self.i += 1
                self.balanced()
                self.acc(";")
                return self.insemi()
            if s == "new" and self.pk().s == ";":
                self.i += 1
                return ("new", "", [])
            if s == "new":
                self.i += 1
                if self.at("["):
                    self.balanced()
                    if self.at("("):
                        self.args()
                    return ("new", "", [])
                ty = self.type_()
                if self.at("("):
                    return ("new", ty, self.args())
                if self.at("["):
                    self.i += 1
                    a = []
                    while not self.at("]"):
                        a.append(self.expr())
                        if not self.acc(","):
                            break
                    self.exp("]")
                    if self.at("("):
                        self.args()
                    elif self.at("["):
                        self.balanced()
                    return ("new", ty, a)
                return ("new", ty, [])
            if self.pk().k == "id" and self.pk().s in ("requires", "reads"):
                sv = self.i
                try:
                    self.i += 1
                    while self.at("requires", "reads"):
                        self.i += 1
                        self.nolam += 1
                        try:
                            self.nosemi()
                        finally:
                            self.nolam -= 1
                    self.exp("=>")
                    return ("lam", [s], self.expr())
                except PErr:
                    self.i = sv
            # lambda  x => e
            if self.pk().s == "=>" and not self.nolam and not (self.pk(-1).s in ("case",)):
                self.i += 2
                return ("lam", [s], self.expr())
            self.i += 1
            self.try_targs()
            e = ("id", s)
            # statement-expression  Lemma(x); e
            return e
        if s == "(":
            # lambda with parenthesised params?
            lam = self._try_lambda()
            if lam is not None:
                return lam
            self.i += 1
            if self.at(")"):
                self.i += 1
                return ("tuple", [])
            es = []
            while True:
                while self.c.s in LINW and self.pk().k == "id":
                    self.i += 1
                x = self.insemi()
                while self.at("|"):
                    self.i += 1
                    x = ("bin", "|", x, self.insemi())
                es.append(x)
                if not self.acc(","):
                    break
            self.exp(")")
            return es[0] if len(es) == 1 else ("tuple", es)
        if s == "{":
            return self._setlit("set")
        if s == "[":
            self.i += 1
            es = []
            while not self.at("]"):
                es.append(self.expr())
                if not self.acc(","):
                    break
            self.exp("]")
            return ("seqlit", es)
        if s == "|":
            self.i += 1
            e = self.expr()
            self.exp("|")
            return ("card", e)
        if s == "*":
            self.i += 1
            return ("star",)
        if s in ("&&", "||"):
            return self.logic()
        raise PErr("%s:%d: unexpected %r in expression" % (self.fname, c.line, s))

    def guard(self):
        """`if x :| P` binds; otherwise an expression"""
        s = self.i
        if self.c.k == "id":
            try:
                vs = self.qvars()
                if self.at(":|"):
                    self.i += 1
                    return ("bindguard", vs, self.expr())
            except PErr:
                pass
            self.i = s
        return self.expr()

    def _setlit(self, kind):
        self.exp("{")
        es = []
        while not self.at("}"):
            es.append(self.expr())
            if not self.acc(","):
                break
        self.exp("}")
        return ("setlit", kind, es)

    def _try_lambda(self):
        s = self.i
        try:
            self.i += 1
            ps = []
            while not self.at(")"):
                if self.c.k != "id":
                    raise PErr("")
                ps.append(self.ident())
                if self.acc(":"):
                    self.type_()
                if not self.acc(","):
                    break
            self.exp(")")
            while self.at("requires", "reads"):
                self.i += 1
                self.nolam += 1
                try:
                    self.nosemi()
                finally:
                    self.nolam -= 1
            if not self.at("=>"):
                raise PErr("")
            self.i += 1
            return ("lam", ps, self.expr())
        except PErr:
            self.i = s
            return None

    # lemma-call statement expressions: handled in `expr` of function bodies
    # by overriding equiv()

    # ---- statements
    def block(self):
        self.exp("{")
        out = []
        while not self.at("}"):
            st = self.stmt()
            if st is not None:
                out.append(st)
        self.exp("}")
        return out

    def specs(self):
        out = []
        while True:
            self.acc(";")
            if self.at("invariant", "decreases", "modifies", "ensures", "requires"):
                kw = self.ident()
                self.attrs()
                if kw in ("decreases", "modifies"):
                    self.exprlist_star()
                else:
                    out.append((kw, self.expr()))
                continue
            return out

    def stmt(self):
        c = self.c
        s = c.s
        ln = c.line
        if s == "{":
            return ("block", self.block())
        if s == ";":
            self.i += 1
            return None
        if c.k == "id":
            mods = []
            j = self.i
            while self.t[j].s in LINW and self.t[j].k == "id" and (self.t[j + 1].k == "id"):
                mods.append(self.t[j].s)
                j += 1
            if self.t[j].s == "var" and self.t[j].k == "id":
                self.i = j + 1
                return self.varstmt("ghost" in mods or "glinear" in mods, ln)
            if mods and self.t[j].s in ("match", "if"):
                self.i = j
                s = self.t[j].s
            if s == "if":
                return self.ifstmt()
            if s == "while":
                self.i += 1
                g = ("star",) if self.acc("*") else self.expr()
                self.specs()
                b = self.block() if self.at("{") else []
                return ("while", g, b, ln)
            if s == "match":
                self.i += 1
                sc = self.expr()
                br = self.acc("{")
                cs = []
                while self.at("case"):
                    self.i += 1
                    p = self.pattern()
                    self.exp("=>")
                    body = []
                    while not self.at("case", "}"):
                        st = self.stmt()
                        if st is not None:
                            body.append(st)
                    cs.append((p, body))
                if br:
                    self.exp("}")
                return ("matchs", sc, cs, ln)
            if s == "return":
                self.i += 1
                es = []
                if not self.at(";"):
                    while True:
                        while self.c.s in LINW and self.pk().k == "id":
                            self.i += 1
                        es.append(self.expr())
                        if not self.acc(","):
                            break
                self.exp(";")
                return ("return", es, ln)
            if s in ("assert", "assume", "expect"):
                self.i += 1
                self.attrs()
                if self.c.k == "id" and self.pk().s == ":":
                    self.i += 2
                e = ("star",) if self.acc("*") else self.expr()
                if self.at("by"):
                    self.i += 1
                    self.balanced()
                elif self.at(","):
                    self.i += 1
                    self.expr()
                    self.exp(";")
                else:
                    self.exp(";")
                return (s, e, ln)
            if s == "calc":
                self.i += 1
                while not self.at("{"):
                    self.i += 1
                self.balanced()
                return None
            if s == "forall":
                # ghost forall statement
                self.i += 1
                if self.at("("):
                    self.balanced()
                elif self.at("ensures", "{"):
                    pass
                else:
                    self.qvars()
                    if self.acc("|"):
                        self.expr()
                self.specs()
                if self.at("{"):
                    self.balanced()
                return None
            if s == "reveal":
                self.i += 1
                self.suffixed()
                while self.acc(","):
                    self.suffixed()
                self.exp(";")
                return None
            if s == "print":
                self.i += 1
                es = [self.expr()]
                while self.acc(","):
                    es.append(self.expr())
                self.exp(";")
                return ("print", es, ln)
            if s == "break":
                self.i += 1
                if self.c.k == "id":
                    self.ident()
                self.exp(";")
                return ("break", ln)
            if s == "label":
                self.i += 1
                self.ident()
                self.exp(":")
                return self.stmt()
            if s == "modify":
                self.i += 1
                self.exprlist_star()
                self.acc(";")
                return ("opaque", "modify", ln)
        # assignment or call
        lhs = [self.lhs()]
        while self.acc(","):
            lhs.append(self.lhs())
        if self.at(":="):
            self.i += 1
            rhs = self.rhslist()
            self.exp(";")
            return ("assign", lhs, rhs, ln)
        if self.at(":|"):
            self.i += 1
            self.acc("assume")
            e = self.expr()
            self.exp(";")
            return ("suchthat", lhs, e, ln)
        if self.at("{"):  # call with attribute/initialiser: not used
            pass
        self.exp(";")
        return ("exprs", lhs[0], ln)

    def lhs(self):
        while self.c.s in LINW and self.c.k == "id" and (self.pk().k == "id"):
            io = self.c.s == "inout"
            self.i += 1
        return self.suffixed()

    def rhslist(self):
        out = []
        while True:
            while self.c.s in LINW and self.c.k == "id" and self.pk().k == "id" and self.pk().s not in ("if",):
                self.i += 1
            if self.at("*") and self.pk().s in (";", ","):
                self.i += 1
                out.append(("star",))
            else:
                out.append(self.expr())
            self.attrs()
            if not self.acc(","):
                return out

    def varstmt(self, ghost, ln):
        self.attrs()
        ps = []
        while True:
            while self.c.s in LINW and self.pk().k == "id":
                self.i += 1
            p = self.pattern0()
            ty = None
            if self.acc(":"):
                ty = self.type_()
            ps.append((p, ty))
            if not self.acc(","):
                break
        if self.at(":="):
            self.i += 1
            rhs = self.rhslist()
            self.exp(";")
            return ("var", ps, rhs, ghost, ln)
        if self.at(":|"):
            self.i += 1
            self.acc("assume")
            e = self.expr()
            self.exp(";")
            return ("varst", ps, e, ghost, ln)
        self.exp(";")
        return ("var", ps, None, ghost, ln)

    def pattern0(self):
        if self.at("("):
            return self.pattern()
        n = self.ident()
        while self.at(".") and self.pk().k == "id":
            self.i += 1
            n = self.ident()
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                while self.c.s in LINW and self.pk().k == "id":
                    self.i += 1
                p = self.pattern0()
                if self.acc(":"):
                    self.type_()
                ps.append(p)
                if not self.acc(","):
                    break
            self.exp(")")
            return ("pctor", n, ps)
        return ("pvar", n)

    def ifstmt(self):
        ln = self.c.line
        self.exp("if")
        if self.at("{") or self.at("case"):
            br = self.acc("{")
            cs = []
            while self.at("case"):
                self.i += 1
                g = self.expr()
                self.exp("=>")
                body = []
                while not self.at("case", "}"):
                    st = self.stmt()
                    if st is not None:
                        body.append(st)
                cs.append((g, body))
            if br:
                self.exp("}")
            # guarded alternatives (non-exclusive in general)
            return ("ifcase", cs, ln)
        if self.acc("*"):
            g = ("star",)
        else:
            g = self.guard()
        a = self.block()
        b = []
        if self.acc("else"):
            if self.at("if"):
                b = [self.ifstmt()]
            else:
                b = self.block()
        return ("ifs", g, a, b, ln)


def parse(src, fname="?"):
    p = Parser(src, fname)
    d = p.file()
    d.includes = p.includes
    d.errors = p.errors
    d.parser = p
    return d
