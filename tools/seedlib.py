"""helper to lay out planted bugs: patch.diff, demo.sh, meta.json under /verif/seeded/<id>"""
import difflib, json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DFY = '''#!/bin/bash
# cwd: the repository.  Verifies harness.dfy (it includes the repository's modules) with the stock Dafny.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
sed "s#@REPO@#$PWD#g" "$here/harness.dfy" > "$d/harness.dfy"
out=$(timeout 250 dafny /nologo /compile:0 /timeLimit:100 %s "$d/harness.dfy" 2>&1)
echo "$out"
echo "$out" | grep -q "verified, 0 errors"
'''


def seed(id, prop, edits, demo, needs, breaks, files=None, under="seeded"):
    d = os.path.join(H, under, id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    for f in dict.fromkeys(e[0] for e in edits):
        a = subprocess.check_output(["git", "-C", REPO, "show", "HEAD:" + f], text=True)
        b = a
        for g, old, new in edits:
            if g == f:
                assert b.count(old) == 1, (id, f, b.count(old), old)
                b = b.replace(old, new)
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def dfyseed(id, prop, edits, harness, needs, breaks, flags=""):
    seed(id, prop, edits, DFY % flags, needs, breaks, {"harness.dfy": harness})
