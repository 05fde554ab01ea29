"""print reference-file drafts for the definitions of given source files"""
import sys
sys.path.insert(0, __import__('os').environ.get('V','/verif'))
from sa import db, dafny, rust
sys.setrecursionlimit(20000)


def toks(ps, a, z):
    out, line = "", None
    for t in ps.t[a:z]:
        if line is not None and t.line != line:
            out += "\n  "
        elif t.sp:
            out += " "
        out += t.s
        line = t.line
    return out


def go(ps, d, lang, pre=""):
    for m in d.members:
        q = pre + m.name
        if m.kind in ("function", "predicate", "spec") and m.body is not None:
            a, z = m.toks
            print("def %s(%s)\n  %s\n" % (q, ", ".join(n for n, _, _ in m.params), toks(ps, a + 1, z - 1)))
        elif m.kind == "transition":
            a = m.toks[0]
            ps.i = a
            ps.balanced()
            print("sm %s(%s)\n  %s\n" % (q, ", ".join(n for n, _, _ in m.params), toks(ps, a + 1, ps.i - 1)))
        elif m.kind in ("datatype", "enum", "struct"):
            print("type %s\n  %s\n" % (q, " | ".join(c + ("(%s)" % ", ".join("%s: %s" % f for f in fs) if fs else "") for c, fs in m.ctors)))
        elif m.kind in ("method", "lemma", "exec", "proof") and m.specs and "-c" in sys.argv:
            k = "trusted" if m.body is None else "promise"
            print("%s %s(%s) [returns=%s]" % (k, q, ", ".join(n for n, _, _ in m.params), " ".join(n for n, _, _ in m.rets)))
            for s in m.specs:
                if len(s) > 2 and s[2]:
                    print("  %s %s" % (s[0], toks(ps, *s[2])))
            print()
        if m.members:
            go(ps, m, lang, q + ".")


for f in sys.argv[1:]:
    if f.startswith("-"):
        continue
    lang = "rs" if f.endswith(".rs") else "dfy"
    src = open("/repo/" + f).read()
    mod = rust if lang == "rs" else dafny
    d = mod.parse(src, f)
    ps = mod.Parser(src, f)
    print("@file %s %s\n" % (lang, f))
    go(ps, d, lang)
