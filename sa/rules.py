"""Obligations.

A property is a list of obligations over constructs of the current source tree.
This module holds the obligation ledger and the declarative reference files
(/verif/ref/*.ref): each entry names one definition, binds its parameters by
position and states, in the source language, what the definition has to mean.
The code's definition is lowered with every non-recursive helper inlined, and
compared as a fact set, so names, order, helpers and control structure do not
matter; what it permits does.
"""
import os
import re
import signal
import sys
from . import db, dafny, rust, term as T, prove
from .db import Missing, Unsupported
from .term import TRUE, mk_and, implies, eq

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ledger:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.obl = []          # (rule, construct, ok, detail)
        self.files = set()
        self.notes = []
        self.samples = []
        self.progs = {}

    def prog(self, lang):
        if lang not in self.progs:
            p = db.Prog(lang)
            if lang == "rs":
                p.load_rs()
            self.progs[lang] = p
        return self.progs[lang]

    def ok(self, rule, where, detail=""):
        self.obl.append((rule, where, True, detail))

    def bad(self, rule, where, detail):
        self.obl.append((rule, where, False, detail))

    def check(self, cond, rule, where, detail=""):
        self.obl.append((rule, where, bool(cond), "" if cond else detail))
        return cond

    def guard(self, rule, where, fn):
        """run fn; a vanished anchor or an unreadable construct is a failure of the obligation"""
        try:
            return fn()
        except Missing as e:
            self.bad(rule, where, "anchor missing: %s" % e)
        except Unsupported as e:
            self.bad(rule, where, "cannot be read: %s" % e)
        except RecursionError:
            self.bad(rule, where, "definition too deeply nested to analyse")

    def violations(self):
        return [o for o in self.obl if not o[2]]


# ---------------------------------------------------------------- reference files
DIR = re.compile(r"^(@file|def|sm|promise|trusted|type|const|imp|subset|alias)\b\s*(.*)$")


class Entry:
    def __init__(self, kind, name, args, opts, text, lang, file, line):
        self.kind, self.name, self.args, self.opts = kind, name, args, opts
        self.text, self.lang, self.file, self.line = text, lang, file, line

    def where(self):
        return "%s:%s" % (self.file, self.name)


def read_ref(path):
    out = []
    lang = file = None
    cur = None
    for i, ln in enumerate(open(path, encoding="utf-8").read().split("\n"), 1):
        if ln.startswith("#"):
            continue
        m = DIR.match(ln)
        if m:
            if m.group(1) == "@file":
                lang, file = m.group(2).split()[:2]
                cur = None
                continue
            head = m.group(2).strip()
            opts = {}
            mm = re.search(r"\[([^\]]*)\]\s*$", head)
            if mm and m.group(1) != "type":
                for o in mm.group(1).split(";"):
                    o = o.strip()
                    if o:
                        k, _, v = o.partition("=")
                        opts[k.strip()] = v.strip()
                head = head[:mm.start()].strip()
            nm = re.match(r"([\w.'?<>:, ]+?)\s*(\((.*)\))?$", head)
            if not nm:
                raise ValueError("%s:%d: bad head %r" % (path, i, head))
            args = None
            if nm.group(2) is not None:
                args = [a.strip() for a in nm.group(3).split(",") if a.strip()]
            cur = Entry(m.group(1), nm.group(1).strip(), args, opts, "", lang, file, i)
            out.append(cur)
        elif cur is not None:
            cur.text += ln + "\n"
    return out


def apply_ref(L, path, keep=None):
    """run every entry of a reference file as obligations on ledger L"""
    if not os.path.isabs(path):
        path = os.path.join(HERE, "ref", path)
    n = 0
    for e in read_ref(path):
        if keep is not None and not keep(e):
            continue
        n += 1
        rule = {"def": "meaning", "sm": "transition-meaning", "promise": "promised-contract",
                "trusted": "trusted-contract", "type": "shape", "const": "meaning", "imp": "guarantee",
                "subset": "value-range", "alias": "instantiation"}[e.kind]
        if e.opts.get("rule"):
            rule = e.opts["rule"]
        L.guard(rule, e.where(), lambda: run_entry(L, e, rule))
    return n


class TooLong(Exception):
    pass


def timed(sec, fn):
    def onalarm(*a):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_inv = [None]


def inventory():
    """(file, qualified name) of every definition that has a reference entry of its own"""
    if _inv[0] is None:
        _inv[0] = set()
        rd = os.path.join(HERE, "ref")
        for f in sorted(os.listdir(rd)):
            if f.endswith(".ref"):
                for e in read_ref(os.path.join(rd, f)):
                    if e.kind == "def":
                        _inv[0].add((e.file, e.name))
    return _inv[0]


def lowerings(L, e):
    """calls kept uninterpreted; then only helpers without an entry of their own inlined; then everything"""
    p = L.prog(e.lang)
    op = tuple(e.opts.get("opaque", "").split())
    yield "calls kept", db.Low(p, opaque=op, inline=False), 20
    inv = inventory()
    yield "helpers inlined", db.Low(p, opaque=op, keep=lambda d: (d.file, d.qname()) in inv), 40
    yield "all inlined", db.Low(p, opaque=op), 60


def run_entry(L, e, rule):
    p = L.prog(e.lang)
    L.files.add(e.file)
    if e.kind == "type":
        return run_type(L, e, p)
    if e.kind == "alias":
        mod, al = e.name.rsplit(".", 1)
        m = p.find(e.file, mod)
        im = [x for x in m.members if x.kind == "import" and x.name == al]
        if not im:
            raise Missing("%s: no import named %s" % (mod, al))
        got = p.modpath(m, im[0].extra, skip=im[0])
        want = e.text.strip()
        return L.check(got is not None and got.name == want, rule, e.where(),
                       "stands for %s, expected %s" % (got.name if got is not None else im[0].extra, want))
    if e.kind == "imp":
        T.TYPES.clear()
        d = p.find(e.file, e.name)
        low = list(lowerings(L, e))[-1][1]
        env = low.formals(d, e.args)
        low.stack.append(d)
        low.body(d, env)
        code = low.body(d, env)
        facts = [code]
        for kw, x, _ in d.specs:
            if kw in ("requires", "recommends"):
                facts.append(low.e(x, env, d))
        return implied(L, rule, e, facts, low, d, env)
    last = "?"
    mult = 3 if L.tier == "thorough" else 1
    for label, low, sec in lowerings(L, e):
        T.TYPES.clear()
        try:
            last = timed(sec * mult, lambda: attempt(L, rule, e, p, low))
        except TooLong:
            last = last if last != "?" else "not established within the time budget"
            continue
        except RecursionError:
            last = last if last != "?" else "definition too deeply nested to analyse"
            continue
        if last is None:
            return L.ok(rule, e.where(), label)
    L.bad(rule, e.where(), last)


def attempt(L, rule, e, p, low):
    """None when the code means what the reference says, else a description of the difference"""
    if e.kind == "sm":
        smn, tn = e.name.rsplit(".", 1)
        sm = low.smdecl(e.file, smn)
        code = low.transition(sm, tn, e.args)
        d = [m for m in sm.members if m.kind == "transition" and m.name == tn][0]
        ref = ref_transition(low, sm, d, e)
        if code != ref:
            code = low.transition(sm, tn, e.args)   # types of shared terms are settled now
        return same(L, e, [], code, ref)
    d = p.find(e.file, e.name)
    if e.kind == "const":
        if d.body is None:
            raise Missing("%s has no value" % e.name)
        env = low.formals(d, None) if d.kind != "const" else {}
        code = low.e(d.body, env, d) if d.kind == "const" else low.body(d, env)
        return same(L, e, [], code, reftext(low, e, d, env))
    if e.kind == "subset":
        base, _, form = e.text.partition("::")
        if not d.extra or nt(d.type) != nt(base):
            return "is declared over %s without the bound %s" % (d.type, form.strip())
        v = ("var", e.args[0])
        low.settype(v, low.rtype(d.type, d))
        env = {d.extra[0]: v, e.args[0]: v}
        code = low.e(d.extra[1], env, d)
        e2 = Entry(e.kind, e.name, e.args, e.opts, form, e.lang, e.file, e.line)
        return same(L, e, [], code, reftext(low, e2, d, env))
    if e.kind == "def":
        if d.body is None:
            raise Missing("%s has no analysable body%s" % (e.name, " (%s)" % d.err if d.err else ""))
        env = low.formals(d, e.args)
        low.stack.append(d)
        code = low.body(d, env)
        ref = reftext(low, e, d, env)
        facts = []
        if code != ref:
            code = low.body(d, env)
            for kw, x, _ in d.specs:
                if kw in ("requires", "recommends"):
                    facts.append(low.e(x, env, d))
        low.stack.pop()
        return same(L, e, facts, code, ref)
    if e.kind in ("promise", "trusted"):
        return run_contract(L, e, p, low, d)
    raise ValueError(e.kind)


def reftext(low, e, d, env):
    if e.lang == "rs":
        ps = rust.Parser("{" + e.text + "}", "<ref>")
        raw = ps.blockx()
    else:
        ps = dafny.Parser(e.text, "<ref>")
        raw = ps.insemi()
        while ps.at('|'):
            ps.i += 1
            raw = ('bin', '|', raw, ps.insemi())
    if ps.c.k != "eof":
        raise ValueError("%s: reference text not fully read at %r" % (e.name, ps.c.s))
    return low.e(raw, env, d)


def ref_transition(low, sm, d, e):
    """the reference transition is read with the same state machine's fields"""
    ps = rust.Parser("{" + e.text + "}", "<ref>")
    body = ps.smblock()
    if ps.c.k != "eof":
        raise ValueError("%s: reference text not fully read at %r" % (e.name, ps.c.s))
    import copy
    d2 = copy.copy(d)
    d2.body = body
    if e.args is not None:
        d2.params = [(n, ty, m) for n, (_, ty, m) in zip(e.args, d.params)]
    sm2 = copy.copy(sm)
    sm2.members = [m for m in sm.members if m is not d] + [d2]
    return low.transition(sm2, d.name, e.args)


def same(L, e, facts, code, ref):
    if len(L.samples) < 40:
        L.samples.append("%s: %s" % (e.where(), T.show(code)[:160]))
    if code == ref:
        return None
    b = 200000 if L.tier == "thorough" else 60000
    if T.isbool(code) or T.isbool(ref):
        r1, w1 = prove.entails(facts + [code], ref, budget=b)
        if r1 is not True:
            return "admits what the reference forbids (%s)" % why(r1, w1, code, ref)
        r2, w2 = prove.entails(facts + [ref], code, budget=b)
        if r2 is not True:
            return "forbids what the reference admits (%s)" % why(r2, w2, ref, code)
        return None
    r, w = prove.entails(facts, eq(code, ref), budget=b)
    if r is not True:
        return "computes %s where %s is required (%s)" % (T.show(code)[:300], T.show(ref)[:300], why(r, w, code, ref))
    return None


def why(r, w, a, b):
    if r is None:
        return "not established within the analysis budget"
    s = []
    ca = conjset(a)
    for x in conj(b):
        if x not in ca:
            s.append(T.show(x)[:200])
    return "missing: " + " ; ".join(s[:3]) if s else "branch: " + " && ".join(sorted(T.show(x)[:80] for x in list(w or []))[:6])


def conj(t):
    return list(t[1:]) if t[0] == "and" else [t]


def conjset(t):
    return set(conj(t))


def implied(L, rule, e, facts, low, d, env):
    if not prove.consistent(facts):
        return L.bad(rule, e.where(), "the definition is unsatisfiable: the rule would hold vacuously")
    for part in re.split(r"^\s*--\s*", e.text, flags=re.M):
        part = part.strip()
        if not part:
            continue
        lab, _, tx = part.partition("\n") if "\n" in part and part.split("\n", 1)[0].endswith(":") else ("", "", part)
        e2 = Entry(e.kind, e.name, e.args, e.opts, tx, e.lang, e.file, e.line)
        goal = reftext(low, e2, d, env)
        r, w = prove.entails(facts, goal)
        if r is True:
            L.ok(rule, e.where(), lab)
        else:
            L.bad(rule, e.where(), "%s not guaranteed: %s" % (lab.rstrip(":") or "required fact", T.show(goal)[:200]))


SPLIT = re.compile(r"^\s*(requires|ensures|recommends)\b", re.M)


def run_contract(L, e, p, low, d):
    env = low.formals(d, e.args)
    rn = e.opts.get("returns")
    rn = rn.split() if rn else [n for n, _, _ in d.rets]
    if len(rn) != len(d.rets):
        raise Missing("%s returns %d values, the rule expects %d" % (e.name, len(d.rets), len(rn)))
    for n, (n0, ty, _) in zip(rn, d.rets):
        v = ("var", n)
        low.settype(v, low.rtype(ty, d))
        env[n0] = v
        env[n] = v
    low.stack.append(d)

    def lw(specs, kw):
        return mk_and(*[low.e(x[1], env, d) for x in specs if x[0] in kw])
    refs = []
    parts = SPLIT.split(e.text)
    for kw, tx in zip(parts[1::2], parts[2::2]):
        ps = (dafny if e.lang == "dfy" else rust).Parser(tx.strip().rstrip(","), "<ref>")
        if e.lang == "rs":
            while ps.c.k != "eof":
                refs.append((kw, ps.expr()))
                if not ps.acc(","):
                    break
        else:
            refs.append((kw, ps.nosemi()))
        if ps.c.k != "eof":
            raise ValueError("%s: reference text not fully read at %r" % (e.name, ps.c.s))
    RQ, EN = ("requires", "recommends"), ("ensures",)
    for _ in (1, 2):
        creq, cens = lw(d.specs, RQ), lw(d.specs, EN)
        rreq, rens = lw(refs, RQ), lw(refs, EN)

    def ent(f, g, msg):
        if f == g:
            return None
        r, w = prove.entails([f], g)
        return None if r is True else "%s (%s)" % (msg, why(r, w, f, g))
    if e.kind == "promise":
        if d.kind in ("method", "exec", "lemma", "proof") and d.body is None and not abstract_ok(d):
            return "has no body: nothing establishes the promise"
        return ent(rreq, creq, "demands more of its callers than the reference contract") or \
            (None if cens == rens else ent(mk_and(rreq, cens), rens, "promises less than the reference contract"))
    return ent(creq, rreq, "is trusted under weaker preconditions than the reference contract") or \
        (None if cens == rens else ent(mk_and(rreq, rens), cens, "is trusted to provide more than the reference contract"))


def abstract_ok(d):
    return d.parent is not None and d.parent.kind == "trait"


def run_type(L, e, p):
    d = p.find(e.file, e.name)
    tx = e.text.strip()
    got = {}
    for c, fs in d.ctors:
        got[c] = [(n, nt(t)) for n, t in fs]
    want = {}
    for alt in split_alt(tx):
        m = re.match(r"(\w+)\s*(\((.*)\))?$", alt.strip(), re.S)
        fs = []
        if m.group(3):
            for i, x in enumerate(db.split_top(m.group(3))):
                if ":" in x and "::" != x[x.find(":"):x.find(":") + 2]:
                    n, t = x.split(":", 1)
                else:
                    n, t = str(i), x
                fs.append((n.strip(), nt(t)))
        want[m.group(1)] = fs
    if e.kind == "type" and d.kind == "struct":
        got = {k: sorted(v) for k, v in got.items()}
        want = {k: sorted(v) for k, v in want.items()}
    L.check(got == want, "shape", e.where(), "alternatives are %s, expected %s" % (got, want))


def nt(t):
    return re.sub(r"\s+", "", t or "")


def split_alt(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "(<[":
            d += 1
        elif ch in ")>]":
            d -= 1
        if ch == "|" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out
