"""assemble draft reference files: mkref.py OUT file[:regex[:notregex]] ...   (drafting aid; the results are then edited by hand)"""
import sys, re, io
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools')
from sa import dafny, rust
sys.setrecursionlimit(20000)

def toks(ps, a, z):
    out, line = "", None
    for t in ps.t[a:z]:
        if line is not None and t.line != line:
            out += "\n  "
        elif t.sp:
            out += " "
        out += t.s
        line = t.line
    return out.strip()

lang = None
def go(ps, d, pre, acc):
    for m in d.members:
        q = pre + m.name
        if m.kind in ("function", "predicate", "spec") and m.body is not None:
            a, z = m.toks
            acc.append((q, "def %s(%s)\n  %s\n" % (q, ", ".join(n for n, _, _ in m.params), toks(ps, a + 1, z - 1))))
        elif m.kind == "transition" and m.body is not None:
            a = m.toks[0]
            ps.i = a
            ps.balanced()
            acc.append((q, "sm %s(%s)\n  %s\n" % (q, ", ".join(n for n, _, _ in m.params), toks(ps, a + 1, ps.i - 1))))
        elif m.kind == "const" and m.body is not None and lang == "dfy" and m.parent.kind == "module":
            acc.append((q, "const %s\n  %s\n" % (q, m.body[1] if m.body[0] == "int" else "TODO")))
        elif m.kind == "type" and m.extra and lang == "dfy":
            acc.append((q, "subset %s(%s)\n  %s :: TODO\n" % (q, m.extra[0], m.type)))
        elif m.kind == "import" and m.parent.kind == "module" and m.parent.refines and "abstract" not in m.mods:
            acc.append((q, "alias %s\n  %s\n" % (q, m.extra)))
        elif m.kind in ("function", "predicate", "spec", "method", "lemma", "exec", "proof") and m.specs and (m.kind in ("method", "exec") or m.body is None):
            ext = any("extern" in str(x) or "axiom" in str(x) or "external_body" in str(x) for x in m.attrs)
            k = "trusted" if (m.body is None and m.parent.kind != "trait" and (lang == "rs" or ext or m.kind == "lemma")) or ext else "promise"
            if m.body is None and k == "promise" and m.parent.kind != "trait":
                pass
            else:
                acc.append((q, "%s %s(%s) [returns=%s]\n%s" % (k, q, ", ".join(n for n, _, _ in m.params), " ".join(n for n, _, _ in m.rets), "".join("  %s %s\n" % (x[0], toks(ps, *x[2])) for x in m.specs if x[0] in ("requires", "ensures", "recommends")))))
        if m.members:
            go(ps, m, q + ".", acc)

def main(outp, specs):
    out = open(outp, "w")
    n = 0
    global lang
    for s in specs:
        f, rx, nrx = (s.split(":") + ["", ""])[:3]
        lang = "rs" if f.endswith(".rs") else "dfy"
        src = open("/repo/" + f).read()
        mod = rust if lang == "rs" else dafny
        d = mod.parse(src, f)
        ps = mod.Parser(src, f)
        acc = []
        go(ps, d, "", acc)
        seen = {}
        sel = []
        for q, t in acc:
            if rx and not re.search(rx, q) or nrx and re.search(nrx, q):
                continue
            if q in seen:
                print("duplicate", f, q)
                continue
            seen[q] = 1
            sel.append(t)
        n += len(sel)
        out.write("@file %s %s\n\n%s\n" % (lang, f, "\n".join(sel)))
    print(outp, n)

main(sys.argv[1], sys.argv[2:])
