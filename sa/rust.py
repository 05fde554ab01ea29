"""Rust / Verus front end.  Produces the same raw tree shapes as dafny.py."""
import re
from .dafny import Decl, PErr

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>b?r\#"(?:.|\n)*?"\#|b?"(?:\\(?:.|\n)|[^"\\])*")
 |(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*(?![.\w]))?(?:int|nat|[iu](?:8|16|32|64|128|size)|f32|f64)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><==>|==>|<==(?!=)|=~~=|=~=|===|!==|!~=|&&&|\|\|\||\.\.\.|\.\.=|\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|[-+*/%<>=!&|^(){}\[\],;:.@?\#$~])
""", re.X)


class T:
    __slots__ = ("k", "s", "line", "sp")

    def __init__(self, k, s, line, sp):
        self.k, self.s, self.line, self.sp = k, s, line, sp

    def __repr__(self):
        return "%s@%d" % (self.s, self.line)


def lex(src):
    out = []
    i, n, line = 0, len(src), 1
    sp = False
    while i < n:
        m = TOK.match(src, i)
        if not m:
            out.append(T("op", src[i], line, sp))
            i += 1
            sp = False
            continue
        k, s = m.lastgroup, m.group()
        if k == "bc":
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            sp = True
            continue
        if k in ("ws", "lc"):
            line += s.count("\n")
            i = m.end()
            sp = True
            continue
        out.append(T(k, s, line, sp))
        sp = False
        line += s.count("\n")
        i = m.end()
    out.append(T("eof", "", line, True))
    return out


FNMODS = {"pub", "open", "closed", "spec", "proof", "exec", "broadcast", "const", "unsafe",
          "async", "extern", "default", "axiom", "uninterp", "tracked", "ghost", "group"}
SPECKW = {"requires", "ensures", "recommends", "decreases", "invariant", "opens_invariants",
          "invariant_except_break", "invariant_ensures", "returns", "no_unwind", "via", "when",
          "default_ensures", "unwind"}
GH = {"ghost", "tracked"}


class Parser:
    def __init__(self, src, fname="?"):
        self.t = lex(src)
        self.i = 0
        self.fname = fname
        self.errors = []
        self.nostruct = 0

    @property
    def c(self):
        return self.t[self.i]

    def pk(self, n=1):
        j = self.i + n
        return self.t[j] if j < len(self.t) else self.t[-1]

    def at(self, *ss):
        c = self.t[self.i]
        return c.s in ss and c.k not in ("str", "chr")

    def acc(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def err(self, what):
        raise PErr("%s:%d: %s (at %r)" % (self.fname, self.c.line, what, self.c.s))

    def exp(self, s):
        if not self.at(s):
            self.err("expected %r" % s)
        self.i += 1

    def ident(self):
        if self.c.k != "id":
            self.err("expected identifier")
        s = self.c.s
        self.i += 1
        return s

    OPEN = {"(": ")", "{": "}", "[": "]"}

    def balanced(self):
        st = []
        a = self.i
        while True:
            c = self.c
            if c.k == "eof":
                self.i = a
                self.err("eof in group")
            if c.k == "op":
                if c.s in self.OPEN:
                    st.append(self.OPEN[c.s])
                elif c.s in (")", "}", "]"):
                    if not st or st[-1] != c.s:
                        self.err("unbalanced")
                    st.pop()
            self.i += 1
            if not st:
                return

    def attrs(self):
        out = []
        while self.at("#") and (self.pk().s == "[" or (self.pk().s == "!" and self.pk(2).s == "[")):
            a = self.i
            self.i += 1
            self.acc("!")
            self.balanced()
            out.append("".join(t.s for t in self.t[a:self.i]))
        return out

    # ---- generics and types, kept as text
    def angle(self):
        """skip <...>; handles nested and >> produced as separate tokens"""
        self.exp("<")
        d = 1
        while d:
            c = self.c
            if c.k == "eof":
                self.err("eof in generics")
            if c.k == "op":
                if c.s == "<":
                    d += 1
                elif c.s == ">":
                    d -= 1
                elif c.s in ("(", "[", "{"):
                    self.balanced()
                    continue
                elif c.s in (")", "]", "}", ";"):
                    self.err("bad generics")
            self.i += 1

    def type_(self):
        a = self.i
        self._type()
        return "".join((" " if t.k in ("id", "life") and self.t[j - 1].k in ("id", "life") and j > a else "") + t.s
                       for j, t in enumerate(self.t[a:self.i], a))

    def _type(self):
        self.attrs()
        if self.at("&", "&&"):
            self.i += 1
            if self.c.k == "life":
                self.i += 1
            self.acc("mut")
            return self._type()
        if self.at("*") and self.pk().s in ("const", "mut"):
            self.i += 2
            return self._type()
        if self.at("(", "["):
            self.balanced()
            return
        if self.at("!"):
            self.i += 1
            return
        if self.at("_"):
            self.i += 1
            return
        if self.at("impl", "dyn", "for", "tracked", "ghost"):
            kw = self.c.s
            self.i += 1
            if kw == "for":
                self.angle()
            self._type()
            while self.acc("+"):
                if self.c.k == "life":
                    self.i += 1
                else:
                    self._type()
            return
        if self.at("spec_fn", "fn", "Fn", "FnMut", "FnOnce", "FnSpec"):
            self.i += 1
            if self.at("<"):
                self.angle()
            if self.at("("):
                self.balanced()
            if self.acc("->"):
                self._type()
            return
        if self.at("<"):
            self.angle()
        elif self.at("::"):
            self.i += 1
            self.ident()
        else:
            self.ident()
        while True:
            if self.at("<"):
                self.angle()
            elif self.at("::"):
                self.i += 1
                if not self.at("<"):
                    self.ident()
            elif self.at("(") and self.t[self.i - 1].s in ("Fn", "FnMut", "FnOnce", "spec_fn"):
                self.balanced()
                if self.acc("->"):
                    self._type()
            else:
                return

    # ---- items
    def file(self):
        d = Decl("file", self.fname, 1)
        d.file = self.fname
        self.items(d, "eof")
        return d

    def items(self, owner, end):
        while True:
            if end == "eof" and self.c.k == "eof":
                return
            if end != "eof" and self.at(end):
                return
            if self.c.k == "eof":
                self.err("eof in items")
            if self.acc(";") or self.acc(","):
                continue
            s = self.i
            try:
                m = self.item(owner)
            except PErr as e:
                self.errors.append(str(e))
                self.i = max(self.i, s + 1)
                while self.c.k != "eof":
                    if self.c.k == "op" and self.c.s in self.OPEN:
                        try:
                            self.balanced()
                        except PErr:
                            self.i += 1
                        continue
                    if self.at("}"):
                        break
                    if self.c.k == "id" and self.c.s in ("pub", "fn", "impl", "struct", "enum", "trait", "use", "mod",
                                                         "transition", "init", "state_machine", "proof", "spec", "open"):
                        break
                    self.i += 1
                m = None
                if self.c.k == "eof":
                    return
            if m is None and self.i == s:
                self.i += 1
            if m is not None:
                for x in (m if isinstance(m, list) else [m]):
                    x.parent = owner
                    x.file = self.fname
                    owner.members.append(x)

    def vis(self):
        if self.acc("pub") and self.at("(") and self.pk().s in ("crate", "super", "in", "self"):
            self.balanced()

    def generics(self):
        if not self.at("<"):
            return []
        a = self.i
        self.angle()
        out = []
        d = 0
        new = True
        for t in self.t[a:self.i]:
            if t.s == "<":
                d += 1
            elif t.s == ">":
                d -= 1
            if d == 1 and t.s in ("<", ","):
                new = True
                continue
            if new and t.k == "id" and t.s != "const":
                out.append(t.s)
                new = False
        return out

    def where(self):
        if self.at("where"):
            while not self.at("{", ";") and not (self.c.k == "id" and self.c.s in SPECKW):
                if self.at("("):
                    self.balanced()
                else:
                    self.i += 1

    def item(self, owner):
        at = self.attrs()
        line = self.c.line
        if self.at("}") or self.c.k == "eof":
            return None
        s = self.c.s
        # macros
        if self.c.k == "id" and self.pk().s == "!":
            nm = self.ident()
            self.i += 1
            if nm in ("verus", "verus_"):
                self.exp("{")
                self.items(owner, "}")
                self.exp("}")
                return None
            if nm in ("state_machine", "tokenized_state_machine"):
                self.exp("{")
                n = self.ident()
                g = self.generics()
                self.where()
                self.exp("{")
                d = Decl("sm", n, line)
                d.tparams = g
                d.attrs = at
                d.extra = nm
                self.items(d, "}")
                self.exp("}")
                self.exp("}")
                return d
            if nm in ("init", "transition", "property", "readonly"):
                self.exp("{")
                self.attrs()
                d = Decl("transition", "", line)
                d.extra = nm
                d.attrs = at
                d.name = self.ident()
                self.exp("(")
                d.params = self.params()
                d.toks = (self.i, None)
                a = self.i
                self.balanced()
                z = self.i
                self.i = a
                try:
                    d.body = self.smblock()
                    d.bodykind = "sm"
                    if self.i != z:
                        self.err("trailing in transition")
                except PErr as e:
                    self.errors.append(str(e))
                    d.err = str(e)
                    d.body = None
                    self.i = z
                self.exp("}")
                return d
            if nm == "macro_rules":
                self.ident()
                self.balanced()
                return None
            self.balanced()
            self.acc(";")
            d = Decl("macro", nm, line)
            return d
        self.vis()
        if self.at("fields") and self.pk().s == "{":
            self.i += 2
            d = Decl("struct", "State", line)
            d.ctors = [("State", self.fieldlist("}"))]
            return d
        if self.at("use"):
            a = self.i
            while not self.at(";"):
                self.i += 1
            d = Decl("use", "".join(t.s if t.s != "as" else " as " for t in self.t[a + 1:self.i]), line)
            self.exp(";")
            return d
        if self.at("broadcast") and self.pk().s == "use":
            while not self.at(";"):
                self.i += 1
            self.i += 1
            return None
        if self.at("broadcast") and self.pk().s == "group":
            self.i += 2
            self.ident()
            self.balanced()
            return None
        if self.at("global"):
            while not self.at(";"):
                self.i += 1
            self.i += 1
            return None
        if self.at("mod"):
            self.i += 1
            d = Decl("module", self.ident(), line)
            d.attrs = at
            if self.acc(";"):
                d.extra = "extern"
                return d
            self.exp("{")
            self.items(d, "}")
            self.exp("}")
            return d
        if self.at("struct", "union") or (self.c.s in ("tracked", "ghost", "closed", "open") and self.pk().s in ("struct", "enum")):
            mods = []
            while self.c.s in ("tracked", "ghost", "closed", "open"):
                mods.append(self.ident())
            if self.at("enum"):
                return self.enum(at, line, mods)
            self.i += 1
            d = Decl("struct", self.ident(), line)
            d.attrs, d.mods = at, mods
            d.tparams = self.generics()
            self.where()
            if self.acc("{"):
                d.ctors = [(d.name, self.fieldlist("}"))]
            elif self.acc("("):
                d.ctors = [(d.name, self.tuplefields())]
                self.where()
                self.exp(";")
            else:
                d.ctors = [(d.name, [])]
                self.exp(";")
            return d
        if self.at("enum"):
            return self.enum(at, line, [])
        if self.at("impl"):
            self.i += 1
            g = self.generics() if self.at("<") else []
            self.acc("!")
            t1 = self.type_()
            tr = None
            if self.acc("for"):
                tr = t1
                t1 = self.type_()
            self.where()
            d = Decl("impl", re.sub(r"<.*", "", t1).split("::")[0] if "::State" in t1 else re.sub(r"<.*", "", t1), line)
            d.attrs = at
            d.type = t1
            d.refines = tr
            d.tparams = g
            self.exp("{")
            self.items(d, "}")
            self.exp("}")
            return d
        if self.at("trait") or (self.at("unsafe") and self.pk().s == "trait"):
            self.acc("unsafe")
            self.i += 1
            d = Decl("trait", self.ident(), line)
            d.attrs = at
            d.tparams = self.generics()
            if self.acc(":"):
                while not self.at("{", "where"):
                    self.i += 1
            self.where()
            self.exp("{")
            self.items(d, "}")
            self.exp("}")
            return d
        if self.at("type"):
            self.i += 1
            d = Decl("type", self.ident(), line)
            d.tparams = self.generics()
            if self.acc(":"):
                while not self.at("=", ";"):
                    self.i += 1
            if self.acc("="):
                d.type = self.type_()
            self.exp(";")
            return d
        if self.at("assume_specification"):
            self.i += 1
            d = Decl("assume_spec", "assume_specification", line)
            while not self.at(";"):
                if self.at("(", "[", "{"):
                    self.balanced()
                else:
                    self.i += 1
            self.i += 1
            return d
        # fn or const
        mods = []
        while self.c.k == "id" and self.c.s in FNMODS and self.c.s not in ("fn",):
            if self.c.s == "const" and self.pk().s not in ("fn", "unsafe"):
                break
            m = self.ident()
            if self.at("(") and m in ("spec", "open", "closed", "pub"):
                a = self.i
                self.balanced()
                m += "".join(t.s for t in self.t[a:self.i])
            if m == "extern" and self.c.k == "str":
                self.i += 1
            if m == "pub" and self.at("("):
                self.balanced()
            mods.append(m)
        if self.at("const", "static"):
            self.i += 1
            self.acc("mut")
            d = Decl("const", self.ident(), line)
            d.attrs, d.mods = at, mods
            if self.acc(":"):
                d.type = self.type_()
            while self.c.k == "id" and self.c.s in SPECKW:
                self.i += 1
                self.nostruct += 1
                while True:
                    if self.at("{", "=", ";"):
                        break
                    self.expr()
                    if not self.acc(","):
                        break
                self.nostruct -= 1
            if self.acc("="):
                d.body = self.expr()
                d.bodykind = "expr"
                self.exp(";")
            elif self.at("{"):
                self.balanced()
            else:
                self.acc(";")
            return d
        if self.at("fn"):
            return self.fn(at, mods, line)
        self.err("unexpected item")

    def enum(self, at, line, mods):
        self.exp("enum")
        d = Decl("enum", self.ident(), line)
        d.attrs, d.mods = at, mods
        d.tparams = self.generics()
        self.where()
        self.exp("{")
        while not self.at("}"):
            self.attrs()
            n = self.ident()
            fs = []
            if self.acc("{"):
                fs = self.fieldlist("}")
            elif self.acc("("):
                fs = self.tuplefields()
            if self.acc("="):
                self.expr()
            d.ctors.append((n, fs))
            if not self.acc(","):
                break
        self.exp("}")
        return d

    def fieldlist(self, end):
        out = []
        while not self.at(end):
            self.attrs()
            self.vis()
            while self.c.s in GH and self.pk().k == "id":
                self.i += 1
            n = self.ident()
            self.exp(":")
            out.append((n, self.type_()))
            if not self.acc(","):
                break
        self.exp(end)
        return out

    def tuplefields(self):
        out = []
        while not self.at(")"):
            self.attrs()
            self.vis()
            out.append((str(len(out)), self.type_()))
            if not self.acc(","):
                break
        self.exp(")")
        return out

    def params(self):
        out = []
        while not self.at(")"):
            self.attrs()
            m = []
            while self.c.s in ("tracked", "ghost", "mut") and self.pk().s != ":":
                m.append(self.ident())
            a = self.i
            if self.at("&"):
                m.append("&")
                self.i += 1
                if self.c.k == "life":
                    self.i += 1
                if self.acc("mut"):
                    m.append("&mut")
            if self.at("self") and self.pk().s in (",", ")"):
                self.i += 1
                out.append(("self", "Self", m))
            elif self.at("self") and self.pk().s == ":":
                self.i += 2
                out.append(("self", self.type_(), m))
            else:
                self.i = a
                p = self.pattern()
                if self.acc(":"):
                    ty = self.type_()
                else:
                    ty = None
                n = p[1] if p[0] == "pvar" else (p[2][0][1] if p[0] == "pctor" and len(p[2]) == 1 and p[2][0][0] == "pvar" else "_")
                if p[0] == "pctor":
                    m.append(p[1])
                if ty and ty.startswith("&mut"):
                    m.append("&mut")
                out.append((n, ty, m))
            if not self.acc(","):
                break
        self.exp(")")
        return out

    def fn(self, at, mods, line):
        self.exp("fn")
        d = Decl("fn", self.ident(), line)
        d.attrs, d.mods = at, mods
        sp = [m for m in mods if m.startswith("spec")]
        d.kind = "spec" if sp or "uninterp" in mods else "proof" if ("proof" in mods or "axiom" in mods) else "exec"
        d.tparams = self.generics()
        self.exp("(")
        d.params = self.params()
        if self.acc("->"):
            s = self.i
            while self.c.s in GH:
                self.i += 1
            if self.at("(") and (self.pk().k == "id" and self.pk(2).s == ":" or self.pk().s in GH or
                                 (self.pk().s in ("Tracked", "Ghost", "mut"))):
                try:
                    self.i += 1
                    r = self.params()
                    d.rets = r
                except PErr:
                    self.i = s
            if not d.rets:
                self.i = s
                while self.c.s in GH:
                    self.i += 1
                d.rets = [("result", self.type_(), [])]
        self.where()
        self.fspecs(d)
        if self.acc(";"):
            return d
        if self.at("{"):
            a = self.i
            self.balanced()
            z = self.i
            d.toks = (a, z)
            self.i = a
            sv, self.nostruct = self.nostruct, 0
            try:
                d.body = self.blockx()
                d.bodykind = "blockx"
                if self.i != z:
                    self.err("trailing in fn body")
            except PErr as e:
                d.err = str(e)
                d.body = None
                self.errors.append(str(e))
                self.i = z
            self.nostruct = sv
            return d
        self.err("fn body")

    def fspecs(self, d):
        while True:
            if self.at("where"):
                self.where()
                continue
            if not (self.c.k == "id" and self.c.s in SPECKW):
                return
            kw = self.ident()
            if kw == "no_unwind":
                if self.acc("when"):
                    self.nostruct += 1
                    self.expr()
                    self.nostruct -= 1
                continue
            if kw == "when" and self.at("{"):
                sv, self.nostruct = self.nostruct, 0
                self.blockx()
                self.nostruct = sv
                continue
            if kw == "opens_invariants":
                if self.at("any", "none"):
                    self.i += 1
                elif self.at("["):
                    self.balanced()
                else:
                    self.nostruct += 1
                    self.expr()
                    self.nostruct -= 1
                continue
            sv, self.nostruct = self.nostruct, 1
            while not self.at("{", ";") and not (self.c.k == "id" and self.c.s in SPECKW):
                self.attrs()
                a = self.i
                e = self.expr()
                if d is not None and kw in ("requires", "ensures", "recommends", "returns", "invariant"):
                    d.specs.append((kw, e, (a, self.i)))
                if not self.acc(","):
                    break
            self.nostruct = sv

    # ---- state-machine bodies
    def smblock(self):
        self.exp("{")
        out = []
        while not self.at("}"):
            st = self.smstmt()
            if st is not None:
                out.append(st)
        self.exp("}")
        return out

    def smstmt(self):
        ln = self.c.line
        self.attrs()
        if self.acc(";"):
            return None
        s = self.c.s
        if self.at("birds_eye"):
            self.i += 1
            s = self.c.s
        if s == "{":
            return ("block", self.smblock())
        if s in ("require", "have"):
            self.i += 1
            if self.at("let"):
                self.i += 1
                p = self.pattern()
                self.exp("=")
                e = self.expr()
                self.exp(";")
                return ("requirelet", p, e, ln)
            e = self.expr()
            if s == "have" and self.at(">="):
                pass
            self.exp(";")
            return (s, e, ln)
        if s in ("update", "init", "add", "remove", "withdraw", "deposit", "guard"):
            self.i += 1
            n = self.ident()
            sub = None
            if self.at("["):
                self.i += 1
                sub = self.expr()
                self.exp("]")
            op = self.c.s
            if op == ">" and self.pk().s == "=":
                op = ">="
                self.i += 2
            else:
                self.i += 1
            sv = self.i
            try:
                e = self.expr()
            except PErr:
                if s not in ("add", "remove", "withdraw", "deposit", "guard", "have"):
                    raise
                self.i = sv
                while not self.at(";", "by", "}"):
                    if self.at("(", "[", "{"):
                        self.balanced()
                    else:
                        self.i += 1
                e = ("opaque", "".join(t.s for t in self.t[sv:self.i]))
            if self.at("by"):
                self.i += 1
                self.balanced()
                self.acc(";")
            else:
                self.exp(";")
            return ("sm" + s, n, sub, op, e, ln)
        if s == "let":
            self.i += 1
            p = self.pattern()
            if self.acc(":"):
                self.type_()
            self.exp("=")
            e = self.expr()
            self.exp(";")
            return ("var", [(p, None)], [e], False, ln)
        if s == "assert":
            self.i += 1
            e = self.expr()
            if self.at("by"):
                self.i += 1
                self.balanced()
            self.acc(";")
            return ("assert", e, ln)
        if s == "if":
            self.i += 1
            g = self.cond()
            a = self.smblock()
            b = []
            if self.acc("else"):
                b = [self.smstmt()] if self.at("if") else self.smblock()
            return ("ifs", g, a, b, ln)
        if s == "match":
            self.i += 1
            self.nostruct += 1
            e = self.expr()
            self.nostruct -= 1
            self.exp("{")
            cs = []
            while not self.at("}"):
                p = self.pattern()
                self.exp("=>")
                if self.at("{"):
                    b = self.smblock()
                else:
                    b = [self.smstmt()]
                self.acc(",")
                cs.append((p, b))
            self.exp("}")
            return ("matchs", e, cs, ln)
        # proof statement (rare)
        e = self.expr()
        self.acc(";")
        return ("exprs", e, ln)

    # ---- patterns
    def pattern(self):
        self.acc("|")
        p = self.pattern1()
        if self.at("|"):
            ps = [p]
            while self.acc("|"):
                ps.append(self.pattern1())
            return ("por", ps)
        return p

    def pattern1(self):
        while self.c.s in ("ref", "mut", "tracked", "ghost") and self.pk().k in ("id",) or self.at("&"):
            self.i += 1
        c = self.c
        if c.s == "_" and c.k == "id":
            self.i += 1
            return ("pwild",)
        if self.at(".."):
            self.i += 1
            return ("prest",)
        if c.k in ("num", "str", "chr") or self.at("-"):
            self.acc("-")
            v = self.c.s
            self.i += 1
            if self.at("..=", "..") and self.pk().k in ("num", "chr"):
                self.i += 2
                return ("prange",)
            return ("plit", v)
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.acc(","):
                    break
            self.exp(")")
            return ps[0] if len(ps) == 1 and self.t[self.i - 2].s != "," else ("ptuple", ps)
        if self.at("["):
            self.balanced()
            return ("pwild",)
        n = self.ident()
        if n in ("true", "false"):
            return ("plit", n)
        while self.at("::"):
            self.i += 1
            if self.at("<"):
                self.angle()
            else:
                n += "::" + self.ident()
        if self.at("<"):
            try:
                s = self.i
                self.angle()
                while self.at("::"):
                    self.i += 1
                    n += "::" + self.ident()
            except PErr:
                self.i = s
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.acc(","):
                    break
            self.exp(")")
            return ("pctor", n, ps)
        if self.at("{"):
            self.i += 1
            fs = []
            while not self.at("}"):
                self.attrs()
                if self.acc(".."):
                    break
                while self.c.s in ("ref", "mut") and self.pk().k == "id":
                    self.i += 1
                f = self.c.s
                self.i += 1
                if self.acc(":"):
                    fs.append((f, self.pattern()))
                else:
                    fs.append((f, ("pvar", f)))
                if not self.acc(","):
                    break
            self.exp("}")
            return ("pstruct", n, fs)
        if self.acc("@"):
            return ("pat@", n, self.pattern())
        if "::" in n or (n[0].isupper() and len(n) > 1 and not n.isupper()):
            return ("pctor", n, [])
        return ("pvar", n)

    # ---- expressions
    def cond(self):
        sv, self.nostruct = self.nostruct, 1
        try:
            return self.expr()
        finally:
            self.nostruct = sv

    def free(self):
        sv, self.nostruct = self.nostruct, 0
        try:
            return self.expr()
        finally:
            self.nostruct = sv

    def expr(self):
        # prefix conjunction / disjunction lists
        if self.at("&&&", "|||"):
            op = self.c.s
            e = None
            while self.at(op):
                self.i += 1
                x = self.assign()
                e = x if e is None else ("bin", "&&" if op == "&&&" else "||", e, x)
            return e
        return self.assign()

    def assign(self):
        e = self.range_()
        if self.at("="):
            self.i += 1
            return ("asg", e, self.assign())
        if self.at("+=", "-=", "*=", "/=", "%=", "^=", "&=", "|="):
            op = self.c.s[0]
            self.i += 1
            return ("asg", e, ("bin", op, e, self.assign()))
        return e

    def range_(self):
        if self.at("..", "..="):
            self.i += 1
            if self.at("]", ")", "}", ",", ";") or (self.nostruct and self.at("{")):
                return ("range", None, None)
            return ("range", None, self.equiv())
        e = self.equiv()
        if self.at("..", "..="):
            inc = self.c.s == "..="
            self.i += 1
            if self.at("]", ")", "}", ",", ";") or (self.nostruct and self.at("{")):
                return ("range", e, None)
            h = self.equiv()
            return ("range", e, ("bin", "+", h, ("int", 1)) if inc else h)
        return e

    def equiv(self):
        e = self.implies()
        while self.at("<==>"):
            self.i += 1
            e = ("bin", "<==>", e, self.implies())
        return e

    def implies(self):
        e = self.or_()
        if self.at("==>"):
            self.i += 1
            if self.at("&&&", "|||"):
                return ("bin", "==>", e, self.expr())
            return ("bin", "==>", e, self.implies())
        while self.at("<=="):
            self.i += 1
            e = ("bin", "==>", self.or_(), e)
        return e

    def or_(self):
        e = self.and_()
        while self.at("||"):
            self.i += 1
            e = ("bin", "||", e, self.and_())
        return e

    def and_(self):
        e = self.rel()
        while self.at("&&"):
            self.i += 1
            e = ("bin", "&&", e, self.rel())
        return e

    RELS = {"==": "==", "!=": "!=", "<": "<", "<=": "<=", ">": ">", ">=": ">=", "===": "==", "!==": "!=",
            "=~=": "==", "=~~=": "==", "!~=": "!="}

    def shift_at(self):
        return (self.at("<") and self.pk().s == "<" and not self.pk().sp) or \
               (self.at(">") and self.pk().s == ">" and not self.pk().sp)

    def rel(self):
        e = self.bor()
        parts = []
        while self.c.k == "op" and self.c.s in self.RELS and not self.shift_at():
            op = self.RELS[self.c.s]
            self.i += 1
            parts.append((op, self.bor()))
        if not parts:
            return e
        out, l = None, e
        for op, r in parts:
            x = ("bin", op, l, r)
            out = x if out is None else ("bin", "&&", out, x)
            l = r
        return out

    def bor(self):
        e = self.bxor()
        while self.at("|"):
            self.i += 1
            e = ("bin", "|", e, self.bxor())
        return e

    def bxor(self):
        e = self.band()
        while self.at("^"):
            self.i += 1
            e = ("bin", "^", e, self.band())
        return e

    def band(self):
        e = self.shift()
        while self.at("&"):
            self.i += 1
            e = ("bin", "&", e, self.shift())
        return e

    def shift(self):
        e = self.add()
        while self.shift_at():
            op = self.c.s * 2
            self.i += 2
            e = ("bin", op, e, self.add())
        return e

    def add(self):
        e = self.mul()
        while self.at("+", "-"):
            op = self.c.s
            self.i += 1
            e = ("bin", op, e, self.mul())
        return e

    def mul(self):
        e = self.asx()
        while self.at("*", "/", "%"):
            op = self.c.s
            self.i += 1
            e = ("bin", op, e, self.asx())
        return e

    def asx(self):
        e = self.unary()
        while self.c.k == "id" and self.c.s in ("as", "is", "matches", "has"):
            kw = self.ident()
            if kw == "as":
                e = ("as", e, self.type_())
            elif kw == "is":
                n = self.ident()
                while self.acc("::"):
                    n += "::" + self.ident()
                e = ("is", e, n)
            elif kw == "has":
                e = ("bin", "in", self.unary(), e)
            else:
                e = ("matches", e, self.pattern1())
        if self.c.s == "!" and self.pk().s in ("is", "has") and self.c.k == "op":
            kw = self.pk().s
            self.i += 2
            if kw == "is":
                n = self.ident()
                while self.acc("::"):
                    n += "::" + self.ident()
                e = ("un", "!", ("is", e, n))
            else:
                e = ("un", "!", ("bin", "in", self.unary(), e))
        return e

    def unary(self):
        self.attrs()
        if self.at("!"):
            self.i += 1
            return ("un", "!", self.unary())
        if self.at("-"):
            self.i += 1
            return ("un", "-", self.unary())
        if self.at("*"):
            self.i += 1
            return ("deref", self.unary())
        if self.at("&", "&&"):
            self.i += 1
            self.acc("raw")
            if self.at("mut"):
                self.i += 1
                return ("inout", self.unary())
            return self.unary()
        return self.postfix()

    def args(self):
        self.exp("(")
        sv, self.nostruct = self.nostruct, 0
        out = []
        while not self.at(")"):
            out.append(self.expr())
            if not self.acc(","):
                break
        self.exp(")")
        self.nostruct = sv
        return out

    def postfix(self):
        e = self.atom()
        blk = e[0] in ("if", "match", "blockx", "loop", "whilex", "forx")
        while True:
            if self.at("."):
                nx = self.pk()
                if nx.k == "num":
                    self.i += 2
                    for p in nx.s.split("."):
                        e = ("dot", e, p)
                    continue
                if nx.k == "id":
                    self.i += 2
                    if nx.s == "await":
                        continue
                    e = ("dot", e, nx.s)
                    if self.at("::"):
                        self.i += 1
                        self.angle()
                    continue
                self.err("bad postfix")
            if self.at("->"):
                self.i += 1
                f = self.c.s
                self.i += 1
                e = ("dot", e, f)
                continue
            if blk and self.stmtpos:
                return e
            if self.at("("):
                e = ("call", e, self.args())
                continue
            if self.at("["):
                self.i += 1
                sv, self.nostruct = self.nostruct, 0
                x = self.expr()
                self.nostruct = sv
                self.exp("]")
                if x[0] == "range":
                    e = ("slice", e, x[1], x[2])
                else:
                    e = ("idx", e, [x])
                continue
            if self.at("?"):
                self.i += 1
                e = ("try", e)
                continue
            if self.at("@"):
                self.i += 1
                e = ("dot", e, "@")
                continue
            return e

    stmtpos = False

    def qvars(self):
        self.exp("|")
        out = []
        while not self.at("|"):
            while self.c.s in ("tracked", "ghost", "mut") and self.pk().k == "id":
                self.i += 1
            p = self.pattern1()
            n = p[1] if p[0] == "pvar" else "_"
            if p[0] == "pctor" and len(p[2]) == 0:
                n = p[1]
            ty = None
            if self.acc(":"):
                ty = self.type_()
            out.append((n, ty) if p[0] != "ptuple" else (p, ty))
            if not self.acc(","):
                break
        self.exp("|")
        return out

    def atom(self):
        c = self.c
        s = c.s
        stmtpos, self.stmtpos = self.stmtpos, False
        if c.k == "num":
            self.i += 1
            x = re.sub(r"(int|nat|[iu](8|16|32|64|128|size)|f32|f64)$", "", s).replace("_", "")
            if x.startswith("0x"):
                return ("int", int(s.replace("_", "").split("u")[0].split("i")[0], 16))
            if x.startswith("0b"):
                return ("int", int(x, 2))
            if "." in x:
                return ("lit", x)
            return ("int", int(x))
        if c.k in ("str", "chr"):
            self.i += 1
            return ("str", s)
        if c.k == "life":
            self.i += 1
            self.exp(":")
            self.stmtpos = stmtpos
            return self.atom()
        if c.k == "id":
            if s in ("true", "false"):
                self.i += 1
                return ("bool", s == "true")
            if s in ("forall", "exists", "choose") and self.pk().s == "|":
                self.i += 1
                vs = self.qvars()
                self.attrs()
                b = self.expr()
                if s == "choose":
                    return ("chooseq", vs, b)
                return ("quant", s, vs, None, b)
            if s == "if":
                self.i += 1
                g = self.iflet()
                a = self.blockx()
                b = None
                if self.acc("else"):
                    if self.at("if"):
                        b = self.atom()
                    else:
                        b = self.blockx()
                self.stmtpos = stmtpos
                return ("if", g, a, b)
            if s == "match":
                self.i += 1
                sc = self.cond()
                self.exp("{")
                cs = []
                sv, self.nostruct = self.nostruct, 0
                while not self.at("}"):
                    self.attrs()
                    p = self.pattern()
                    gd = None
                    if self.acc("if"):
                        gd = self.expr()
                    self.exp("=>")
                    self.stmtpos = self.at("{")
                    b = self.expr()
                    self.stmtpos = False
                    cs.append((p, b) if gd is None else (p, b, gd))
                    if not self.acc(",") and not self.at("}"):
                        if b[0] not in ("blockx", "if", "match"):
                            self.err("match arm")
                self.exp("}")
                self.nostruct = sv
                self.stmtpos = stmtpos
                return ("match", sc, cs)
            if s == "unsafe" and self.pk().s == "{":
                self.i += 1
                return self.blockx()
            if s in ("loop", "while", "for"):
                return self.loop()
            if s in ("proof",) and self.pk().s == "{":
                self.i += 1
                b = self.blockx()
                self.stmtpos = stmtpos
                return ("proof", b)
            if s == "return":
                self.i += 1
                if self.at(";", "}", ",", ")"):
                    return ("ret", None)
                return ("ret", self.expr())
            if s in ("break", "continue"):
                self.i += 1
                if self.c.k == "life":
                    self.i += 1
                if s == "break" and not self.at(";", "}", ","):
                    return ("brk", self.expr())
                return ("brk", None) if s == "break" else ("cont",)
            if s in ("assert", "assume") and (self.pk().s in ("(", "forall")):
                self.i += 1
                if self.at("forall"):
                    self.i += 1
                    self.qvars()
                    self.attrs()
                    e = self.expr()
                    if self.at("implies"):
                        self.i += 1
                        e = ("bin", "==>", e, self.expr())
                else:
                    self.exp("(")
                    e = self.free()
                    self.acc(",")
                    self.exp(")")
                bl = None
                if self.at("by"):
                    self.i += 1
                    if self.at("("):
                        self.balanced()
                        while self.c.s in ("requires", "ensures"):
                            self.fspecs(None)
                    if self.at("{"):
                        bl = self.blockx()
                self.stmtpos = stmtpos
                return (s, e, bl)
            if s == "move" and self.pk().s in ("|", "||"):
                self.i += 1
                return self.closure()
            if s in ("tracked", "ghost") and self.pk().k == "id" and self.pk().s != "is":
                self.i += 1
                return self.atom()
            return self.path()
        if s in ("|", "||"):
            return self.closure()
        if s == "(":
            self.i += 1
            sv, self.nostruct = self.nostruct, 0
            es = []
            tup = False
            while not self.at(")"):
                es.append(self.expr())
                if not self.acc(","):
                    break
                tup = True
            self.exp(")")
            self.nostruct = sv
            if len(es) == 1 and not tup:
                return es[0]
            return ("tuple", es)
        if s == "[":
            self.i += 1
            sv, self.nostruct = self.nostruct, 0
            es = []
            rep = None
            while not self.at("]"):
                es.append(self.expr())
                if self.acc(";"):
                    rep = self.expr()
                    break
                if not self.acc(","):
                    break
            self.exp("]")
            self.nostruct = sv
            if rep is not None:
                return ("call", ("id", "array_repeat"), [es[0], rep])
            return ("seqlit", es)
        if s == "{":
            b = self.blockx()
            self.stmtpos = stmtpos
            return b
        if s == "<":
            a = self.i
            self.angle()
            n = "".join(t.s for t in self.t[a:self.i])
            while self.acc("::"):
                n += "::" + self.ident()
            return ("id", n)
        if s == "&&&" or s == "|||":
            return self.expr()
        if s == "$":
            self.i += 1
            return self.atom()
        self.err("unexpected in expression")

    def closure(self):
        if self.acc("||"):
            vs = []
        else:
            vs = self.qvars()
        if self.acc("->"):
            if self.at("("):
                self.balanced()
            else:
                self.type_()
            self.fspecs(None)
        while self.c.k == "id" and self.c.s in SPECKW:
            self.fspecs(None)
        sv, self.nostruct = self.nostruct, 0
        b = self.expr()
        self.nostruct = sv
        return ("lam", [v for v, t in vs], b)

    def iflet(self):
        if self.at("let"):
            self.i += 1
            p = self.pattern()
            self.exp("=")
            sv, self.nostruct = self.nostruct, 1
            e = self.or_()
            self.nostruct = sv
            return ("iflet", p, e)
        return self.cond()

    def loop(self):
        ln = self.c.line
        kw = self.ident()
        if kw == "loop":
            self.fspecs(None)
            return ("whilex", ("bool", True), self.blockx(), ln)
        if kw == "while":
            g = self.iflet()
            self.fspecs(None)
            return ("whilex", g, self.blockx(), ln)
        p = self.pattern()
        self.exp("in")
        e = self.cond()
        self.fspecs(None)
        return ("forx", p, e, self.blockx(), ln)

    def path(self):
        n = self.ident()
        while self.at("::"):
            self.i += 1
            if self.at("<"):
                self.angle()
            else:
                n += "::" + self.ident()
        if self.at("!") and self.pk().s in ("(", "[", "{") and not self.c.sp:
            self.i += 1
            return self.macro(n)
        if self.at("{") and not self.nostruct and self.looks_struct(n):
            self.i += 1
            fs, base = [], None
            while not self.at("}"):
                self.attrs()
                if self.acc(".."):
                    base = self.expr()
                    break
                f = self.c.s
                self.i += 1
                if self.acc(":"):
                    fs.append((f, self.expr()))
                else:
                    fs.append((f, ("id", f)))
                if not self.acc(","):
                    break
            self.exp("}")
            return ("struct", n, fs, base)
        return ("id", n)

    def looks_struct(self, n):
        last = n.split("::")[-1]
        if not (last[0].isupper()):
            return False
        a, b = self.pk(), self.pk(2)
        return a.s in ("}", "..") or (a.k in ("id", "num") and b.s in (":", ",", "}")) or a.s == "#"

    def macro(self, n):
        op = self.c.s
        close = self.OPEN[op]
        a = self.i
        name = n.split("::")[-1]
        try:
            self.i += 1
            sv, self.nostruct = self.nostruct, 0
            if name in ("seq", "vec", "set"):
                es = []
                while not self.at(close):
                    es.append(self.expr())
                    if not (self.acc(",") or self.acc(";")):
                        break
                self.exp(close)
                self.nostruct = sv
                return ("seqlit", es) if name != "set" else ("setlit", "set", es)
            if name in ("map", "imap"):
                prs = []
                while not self.at(close):
                    k = self.expr()
                    self.exp("=>")
                    prs.append((k, self.expr()))
                    if not self.acc(","):
                        break
                self.exp(close)
                self.nostruct = sv
                return ("maplit", prs)
            if name == "matches":
                e = self.expr()
                self.exp(",")
                p = self.pattern()
                self.acc(",")
                self.exp(close)
                self.nostruct = sv
                return ("matches", e, p)
            if name in ("assert", "assert_eq", "println", "print", "panic", "unimplemented", "unreachable", "todo", "format",
                        "assert_maps_equal", "assert_sets_equal", "assert_seqs_equal", "arbitrary", "debug_assert", "eprintln"):
                es = []
                while not self.at(close):
                    es.append(self.expr())
                    if not (self.acc(",") or self.acc("=>")):
                        break
                self.exp(close)
                self.nostruct = sv
                return ("macro", name, es)
        except PErr:
            pass
        self.i = a
        self.balanced()
        return ("macro", name, [])

    # ---- blocks
    def blockx(self):
        """{ stmts; tail }"""
        self.exp("{")
        sv, self.nostruct = self.nostruct, 0
        svp, self.stmtpos = self.stmtpos, False
        out = []
        tail = None
        while not self.at("}"):
            self.attrs()
            if self.at("}"):
                break
            if self.acc(";"):
                continue
            ln = self.c.line
            c = self.c
            if c.k == "id" and c.s == "let":
                self.i += 1
                gh = False
                while self.c.s in GH:
                    gh = True
                    self.i += 1
                p = self.pattern()
                ty = None
                if self.acc(":"):
                    ty = self.type_()
                es = None
                if self.acc("="):
                    e = self.expr()
                    if self.at("else"):
                        self.i += 1
                        b = self.blockx()
                        self.exp(";")
                        out.append(("letelse", p, e, b, ln))
                        continue
                    es = [e]
                self.exp(";")
                out.append(("var", [(p, ty)], es, gh, ln))
                continue
            if c.k == "id" and (c.s in ("use", "fn", "struct", "enum", "impl", "broadcast") or
                                (c.s in ("proof", "spec", "pub", "const", "open") and self.pk().s in ("fn", "open", "spec", "const", "static")
                                 or c.s == "const" and self.pk().k == "id")):
                tmp = Decl("file", "_", ln)
                x = self.item(tmp)
                continue
            self.stmtpos = True
            e = self.expr()
            self.stmtpos = False
            if self.acc(";"):
                out.append(("exprs", e, ln))
            elif self.at("}"):
                tail = e
            elif e[0] in ("if", "match", "blockx", "whilex", "forx", "proof", "assert", "assume", "macro", "loop"):
                out.append(("exprs", e, ln))
            else:
                self.err("statement end")
        self.exp("}")
        self.nostruct = sv
        self.stmtpos = svp
        return ("blockx", out, tail)


def parse(src, fname="?"):
    p = Parser(src, fname)
    d = p.file()
    d.errors = p.errors
    d.parser = p
    return d
