"""Escapes from proof: everything the verifiers accept without proving it.

The inventory of the current source (assume, admit, external bodies and axioms
that promise something, specifications assumed for foreign code) is compared
with the recorded one in /verif/ref/trust.ref.  An escape is identified by its
file, the function it stands in, its kind and its text, never by position; one
that moved into a helper of the same function, or whose function was renamed,
still counts as the recorded one."""
import os
import re
from . import rules, db, rust, dafny

REF = os.path.join(rules.HERE, "ref", "trust.ref")


class Esc:
    __slots__ = ("file", "owner", "kind", "text", "n")

    def __init__(self, file, owner, kind, text):
        self.file, self.owner, self.kind, self.text = file, owner, kind, text

    def key(self):
        return (self.file, self.owner, self.kind, self.text)


def balanced(t, i):
    o = t[i].s
    c = {"(": ")", "[": "]", "{": "}"}[o]
    d, j = 0, i
    while j < len(t) and t[j].k != "eof":
        if t[j].s == o:
            d += 1
        elif t[j].s == c:
            d -= 1
            if d == 0:
                return j
        j += 1
    return j


def scan_rust(src, f):
    """(escapes, {owner: names it mentions})"""
    t = rust.lex(src)
    out, fns = [], {}
    stack = []          # (closing index, name, kind)
    attrs = []
    i = 0
    pend = None         # header waiting for its body brace

    def cls():
        for c, n, k in reversed(stack):
            if k in ("impl", "trait", "sm"):
                return n + "."
        return ""

    def owner():
        for c, n, k in reversed(stack):
            if k == "fn":
                return n
        return "<file>"
    while i < len(t) and t[i].k != "eof":
        x = t[i]
        while stack and i >= stack[-1][0]:
            stack.pop()
        if x.s == "#" and t[i + 1].s in ("[", "!"):
            j = i + 1 + (t[i + 1].s == "!")
            if t[j].s == "[":
                e = balanced(t, j)
                attrs.append("".join(y.s for y in t[j + 1:e]))
                i = e + 1
                continue
        if x.k == "id" and x.s in ("impl", "trait", "state_machine", "tokenized_state_machine") and not any(k == "fn" for _, _, k in stack):
            j = i + 1
            if x.s.endswith("machine"):
                if t[j].s == "!":
                    b = j + 1
                    stack.append((balanced(t, b), t[b + 1].s, "sm"))
                    i = b + 2
                    attrs = []
                    continue
            else:
                d, name, seen = 0, None, False
                while t[j].k != "eof" and t[j].s not in ("{", ";"):
                    if t[j].s == "<":
                        d += 1
                    elif t[j].s == ">" and t[j - 1].s not in ("-", "="):
                        d -= 1
                    elif t[j].s == ">>":
                        d -= 2
                    elif d == 0 and t[j].s == "where":
                        seen = True
                    elif d == 0 and t[j].s == "for" and not seen:
                        name = None
                    elif d == 0 and t[j].k == "id" and not seen and (x.s == "impl" or name is None):
                        name = t[j].s
                    elif d == 0 and t[j].s == ":" and x.s == "trait":
                        seen = True
                    j += 1
                if t[j].s == "{":
                    stack.append((balanced(t, j), name or "?", x.s if x.s == "trait" else "impl"))
                i = j + 1
                attrs = []
                continue
        if x.k == "id" and x.s == "assume_specification":
            j = i
            while t[j].k != "eof" and t[j].s not in (";", "{"):
                j += 1
            out.append(Esc(f, "<file>", "assume_specification", "".join(y.s for y in t[i + 1:j])[:200]))
            i = j
            continue
        if x.k == "id" and x.s == "fn" and t[i + 1].k == "id":
            name = cls() + t[i + 1].s
            mods = []
            j = i - 1
            while j >= 0 and (t[j].s in rust.FNMODS or t[j].s in (")", "(", "checked", "crate", "super")):
                mods.append(t[j].s)
                j -= 1
            j = i + 2
            words = set()
            d = 0
            while t[j].k != "eof":
                if t[j].s in ("(", "[", "{"):
                    # the body is a brace that no specification expression can own
                    if t[j].s == "{" and d == 0 and bodybrace(t, j):
                        break
                    d += 1
                elif t[j].s in (")", "]", "}"):
                    d -= 1
                elif d == 0 and t[j].s == ";":
                    break
                elif t[j].k == "id":
                    words.add(t[j].s)
                j += 1
            sig = [y.s for y in t[i + 2:j]]
            promises = "ensures" in sig or ("->" in sig and any(s in ("Tracked", "tracked") for s in sig[len(sig) - sig[::-1].index("->"):])) or "returns" in sig
            promises = promises or "axiom" in mods
            ext = [a for a in attrs if "external_body" in a or "external_fn" in a]
            if (ext or "axiom" in mods) and promises:
                out.append(Esc(f, name, "axiom" if "axiom" in mods else "external_body", ""))
            elif t[j].s == ";" and "proof" in mods and promises and "ensures" in sig and not any(k == "trait" for _, _, k in stack) and not ext:
                out.append(Esc(f, name, "unproved", ""))
            fns.setdefault(name, set())
            attrs = []
            if t[j].s == "{":
                e = balanced(t, j)
                fns[name] |= {y.s for y in t[j:e] if y.k == "id"}
                stack.append((e, name, "fn"))
            i = j + 1
            continue
        if x.k == "id" and x.s in ("assume", "admit") and t[i + 1].s == "(" and t[i - 1].s not in (".", "fn", "::"):
            e = balanced(t, i + 1)
            tx = "".join(y.s for y in t[i + 2:e])
            if not (x.s == "assume" and tx == "true"):
                out.append(Esc(f, owner(), x.s, tx[:200]))
            i = e
            continue
        if x.k == "id" and x.s in ("assume_new", "assume_new_fallback", "assume_init") and t[i + 1].s in ("(", "::"):
            out.append(Esc(f, owner(), "forged", x.s))
        if x.k == "id" and x.s in ("struct", "enum", "use", "mod", "type"):
            attrs = []
        i += 1
    return out, fns


def bodybrace(t, j):
    """the brace at j opens a function body: what follows its partner starts a new item"""
    e = balanced(t, j)
    n = t[e + 1] if e + 1 < len(t) else None
    if n is None or n.k == "eof" or n.s in ("}", "#", ";"):
        return True
    return n.k == "id" and (n.s in rust.FNMODS or n.s in ("fn", "impl", "struct", "enum", "trait", "use", "mod", "type", "state_machine", "tokenized_state_machine", "transition",
                                                          "init", "property", "invariant", "readonly", "fields", "global", "verus", "static", "macro_rules", "union"))


# ---------------------------------------------------------------- Dafny
DHEAD = re.compile(r"\b(?:(?:static|ghost|linear|glinear|protected|inductive|twostate|least|greatest|shared|opaque)\s+)*"
                   r"(lemma|colemma|method|function\s+method|function|predicate\s+method|predicate|copredicate|constructor|iterator|module|abstract\s+module|class|trait)\b"
                   r"((?:\s*\{:[^}]*\})*)\s*(?:\([^()]*\)\s*)?([A-Za-z_?'][\w?']*)?")


def strip_dafny(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            out.append(" ")
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"' and s[j] != "\n":
                j += 2 if s[j] == "\\" else 1
            out.append('""')
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def scan_dafny(src, f):
    s = strip_dafny(src)
    heads = [m for m in DHEAD.finditer(s)]
    out, fns = [], {}
    mod, own = "", []
    cuts = [m.start() for m in heads] + [len(s)]
    for i, m in enumerate(heads):
        kw, at, name = m.group(1).split()[-1], m.group(2), m.group(3)
        if kw in ("module", "class", "trait"):
            mod = (name or "?")
            if kw == "module" and ":axiom" in at:
                out.append(Esc(f, mod, "axiom", ""))
            seg = s[m.end():cuts[i + 1]]
            qn = mod
        else:
            qn = "%s.%s" % (mod, name)
            seg = s[m.end():cuts[i + 1]]
            fns.setdefault(qn, set()).update(re.findall(r"[A-Za-z_]\w*", seg))
            if re.search(r"\bensures\b", seg):
                if ":axiom" in at:
                    out.append(Esc(f, qn, "axiom", ""))
                if ":extern" in at:
                    out.append(Esc(f, qn, "extern", ""))
                if re.search(r":verify\s+false", at):
                    out.append(Esc(f, qn, "unverified", ""))
        for x in re.finditer(r"\bassume\b\s*(\{:[^}]*\}\s*)?([^;]*);", seg):
            tx = re.sub(r"\s+", "", x.group(2))
            if tx != "true":
                out.append(Esc(f, qn, "assume", tx[:200]))
    try:
        tree = dafny.parse(src, f)
    except Exception as e:      # an unreadable file is reported, not skipped
        out.append(Esc(f, "<file>", "unreadable", type(e).__name__))
        return out, fns

    def go(d, ab):
        for m in d.members:
            if m.kind == "lemma" and m.body is None and m.bodykind is None and not ab and not any(a[:1] == ["axiom"] for a in m.attrs):
                if any(x[0] == "ensures" for x in m.specs):
                    out.append(Esc(f, m.qname(), "bodiless", ""))
            go(m, ab or "abstract" in m.mods)
    go(tree, False)
    return out, fns


def sources(kind):
    out = []
    top = os.path.join(db.REPO, "Splinter", "src") if kind == "rs" else db.REPO
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in (".git", "build", "node_modules") and not os.path.islink(os.path.join(d, x)))
        for n in sorted(fs):
            p = os.path.join(d, n)
            if n.endswith("." + kind) and os.path.isfile(p):
                out.append(os.path.relpath(p, db.REPO))
    return out


def recorded():
    """[(file, owner, kind, text, open?)]"""
    out = []
    if os.path.isfile(REF):
        for ln in open(REF, encoding="utf-8"):
            ln = ln.rstrip("\n")
            if ln and not ln.startswith("#"):
                st, f, o, k, tx = (ln.split(" | ", 4) + [""])[:5]
                out.append((f, o, k, tx, st.strip() == "open"))
    return out


def inventory(kind, files):
    out, fns = [], {}
    for f in files:
        src = open(os.path.join(db.REPO, f), encoding="utf-8", errors="replace").read()
        e, m = (scan_rust if kind == "rs" else scan_dafny)(src, f)
        out += e
        fns[f] = m
    return out, fns


def trust(kind, pred, rule="unproved", findings=False, floor=1):
    """every escape in the selected files is a recorded one; findings: recorded open proof holes are reported (as known findings)"""
    def run(L):
        files = [f for f in sources(kind) if pred(f)]
        if len(files) < floor:
            raise rules.Missing("%d source files, at least %d expected" % (len(files), floor))
        got, fns = inventory(kind, files)
        rec = {}
        for f, o, k, tx, op in recorded():
            if f.endswith("." + kind) and pred(f):
                rec.setdefault((f, o, k, tx), []).append(op)
        extra = {}
        for e in got:
            L.files.add(e.file)
            r = rec.get(e.key())
            if r:
                report(L, rule, e.key(), r.pop(), findings)
                if not r:
                    del rec[e.key()]
            else:
                extra.setdefault(e.key(), []).append(e)
        for k, es in sorted(extra.items()):
            for e in es:
                m = [r for r in rec if r[2] == e.kind and r[3] == e.text and (
                    (r[0] == e.file and (e.owner.split(".")[-1] in fns[e.file].get(r[1], ()) or r[1] not in fns[e.file])) or
                    (r[1] == e.owner and r[0] not in fns))]
                if m:
                    r = rec[m[0]]
                    report(L, rule, m[0], r.pop(), findings)
                    if not r:
                        del rec[m[0]]
                else:
                    L.bad(rule, "%s:%s" % (e.file, e.owner), "accepted without proof: %s%s" % (e.kind, " " + e.text if e.text else ""))
        for f in files:
            L.files.add(f)
            L.ok("scanned", f)
    run.__name__ = "escapes from proof in %s files" % kind
    return run


def report(L, rule, key, op, findings):
    w = "%s:%s" % (key[0], key[1])
    if op and findings:
        L.bad("open-proof", w, "accepted without proof: %s %s" % (key[2], key[3]))
    else:
        L.ok("recorded-assumption", w, "%s %s" % (key[2], key[3]))


if __name__ == "__main__":
    import sys
    print("# Everything the verifiers accept without proof on the analysed tree.  base: part of the declared trusted base; open: a proof hole in code that is meant to be verified.")
    for kind in ("rs", "dfy"):
        got, _ = inventory(kind, sources(kind))
        for e in got:
            b = os.path.basename(e.file)
            base = re.search(r"_t\.rs$|\.s\.dfy$", b) and e.kind not in ("assume", "admit")
            print(" | ".join(("base" if base or (kind == "dfy" and e.kind in ("extern",)) else "open", e.file, e.owner, e.kind, e.text)))
