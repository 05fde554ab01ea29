"""Syntax trees of C++ translation units, read with clang's type checker (nothing is compiled to code or run)."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, "stubs")
FLAGS = ["-std=c++17", "-march=x86-64-v3", "-mpclmul", "-w", "-ferror-limit=0", "-I", STUBS]


def closure(root, files):
    """the project files a translation unit pulls in, and the system headers they name"""
    seen, sysh = [], []
    todo = list(files)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.append(f)
        try:
            text = open(f, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        for m in re.finditer(r'^\s*#\s*include\s*([<"])([^>"]+)[>"]', text, re.M):
            if m.group(1) == "<":
                sysh.append(m.group(2))
            else:
                for d in (os.path.dirname(f), STUBS, root):
                    p = os.path.join(d, m.group(2))
                    if os.path.exists(p):
                        todo.append(p)
                        break
    return seen, sorted(set(sysh))


def variant(root, files, tmp, macros):
    """the sources with `#define NAME value` lines of their own set otherwise, as clang remappings"""
    out = []
    for f in closure(root, [os.path.join(root, f) for f in files])[0]:
        text = open(f, encoding="utf-8", errors="replace").read()
        new = text
        for m, v in macros:
            new = re.sub(r"^([ \t]*#[ \t]*define[ \t]+%s\b)[^\n]*$" % re.escape(m), lambda x: x.group(1) + " " + v, new, flags=re.M)
        if new != text:
            o = os.path.join(tmp, "v%d.%s" % (len(out), os.path.basename(f)))
            with open(o, "w") as h:
                h.write(new)
            out += ["-Xclang", "-remap-file", "-Xclang", "%s;%s" % (f, o)]
    return out


def parse(root, dirs, files, defines=()):
    """JSON syntax trees of `files` (relative to root)"""
    tmp = tempfile.mkdtemp(prefix="cppast.")
    try:
        flags = FLAGS + [x for d in dirs for x in ("-I", os.path.join(root, d))] + ["-D" + d for d in defines if not d.startswith("set:")]
        remap = variant(root, files, tmp, [d[4:].split("=") for d in defines if d.startswith("set:")])
        _, sysh = closure(root, [os.path.join(root, f) for f in files])
        hdr = os.path.join(tmp, "std.h")
        ok = []
        for h in sysh:
            if h not in ok:
                ok.append(h)
        pch = os.path.join(tmp, "std.pch")

        def build(hs):
            with open(hdr, "w") as o:
                o.write("".join("#include <%s>\n" % h for h in hs))
            return subprocess.run(["clang++"] + flags + ["-x", "c++-header", hdr, "-o", pch], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        if not build(ok):
            ok = [h for h in ok if subprocess.run(["clang++"] + flags + ["-fsyntax-only", "-x", "c++", "-include", h, "/dev/null"],
                                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0]
            if not build(ok):
                raise RuntimeError("the system headers cannot be read")
        out = []
        ps = []
        for f in files:
            o = open(os.path.join(tmp, os.path.basename(f) + ".json"), "w+")
            e = open(os.path.join(tmp, os.path.basename(f) + ".err"), "w+")
            ps.append((f, o, e, subprocess.Popen(["clang++"] + flags + remap + ["-include-pch", pch, "-fsyntax-only", "-Xclang", "-ast-dump=json", os.path.join(root, f)],
                                                 stdout=o, stderr=e)))
        for f, o, e, p in ps:
            p.wait(timeout=200)
            o.seek(0)
            e.seek(0)
            errs = [x for x in e.read().split("\n") if "error:" in x]
            try:
                text = o.read()
                for r in remap:
                    if ";" in r:
                        text = text.replace(r.split(";")[1], r.split(";")[0])
                out.append((f, json.loads(text), errs))
            except ValueError:
                out.append((f, {}, errs or ["no syntax tree"]))
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
