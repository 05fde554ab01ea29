"""planted bugs in the Python build tools"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed

PY = '''#!/bin/bash
# cwd: the repository.  Runs the tools on a scratch tree of its own.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/root" && cp -r tools "$d/root/tools"
echo 'def toposort(g): return iter([set(g)])' > "$d/root/tools/toposort.py"
cp "$here/demo.py" "$d/demo.py"
cd "$d/root" && PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 -W ignore "$d/demo.py"
'''
PRE = '''import os, sys, subprocess
sys.path.insert(0, "tools")
def w(path, text):
    if os.path.dirname(path): os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)
'''


def py(id, prop, edits, demo, needs, breaks):
    seed(id, prop, edits, PY, needs, breaks, {"demo.py": PRE + demo})


py("p01-first-count-decides", "P22", [("tools/lib_aggregate.py",
'''        if not match is None and int(match.group(1)) > 0:
            return err
''',
'''        if match is None:
            continue
        if int(match.group(1)) > 0:
            return err
        if reportType == SYNCHK or match.group(1) == "0":
            break
''')], '''
import lib_aggregate as a
w("A.i.dfy", "module A {}\\n")
w("build/A.i.verchk", "Dafny program verifier finished with 3 verified, 0 errors, 2 time outs\\n1.5user 0system\\n")
c = a.summarize(a.VERCHK, "build/A.i.verchk")
assert not c.is_success, c
w("build/A.i.verchk", "Dafny program verifier finished with 3 verified, 0 errors\\n1.5user 0system\\n")
assert a.summarize(a.VERCHK, "build/A.i.verchk").is_success
''', "a checker report with no errors but time-outs, inconclusive or resource-limited results",
"the loop over kinds of failure stops at the first count that is zero, so a report with 0 errors and 2 time outs is classified as verified")

py("p02-first-failure-unlisted", "P22", [("tools/aggregate-verchk.py",
'''                if condition.level not in fails:
                    fails[condition.level] = []
                    failTypes[condition.level] = condition.result
                fails[condition.level].append(dafnyFromVerchk(verchk))
''',
'''                if failTypes.get(condition.level) != condition.result:
                    fails[condition.level] = []
                    failTypes[condition.level] = condition.result
                fails[condition.level].append(dafnyFromVerchk(verchk))
''')], '''
for n, r in (("B", "1 time out"), ("C", "1 out of resource"), ("A", "0 errors")):
    w(n + ".i.dfy", "module %s {}\\n" % n)
    w("build/%s.i.verchk" % n, "Dafny program verifier finished with 1 verified, 0 errors, %s\\n" % r)
w("A.i.dfy", 'include "B.i.dfy"\\ninclude "C.i.dfy"\\n')
subprocess.check_call([sys.executable, "-W", "ignore", "tools/aggregate-verchk.py", "--verchk", "--root", "build/A.i.verchk", "--summary", "sum", "--errors", "err"])
t = open("sum").read()
assert t.startswith("Overall: Fail"), t
assert "B.i.dfy" in t and "C.i.dfy" in t, t
''', "two failing files whose kinds of failure share a level (time-out and resource limit)",
"a second kind of failure at the same level replaces the list of files already recorded, so failing files vanish from the summary")

py("p03-include-cache-by-spelling", "P23", [("tools/lib_deps.py",
'''def includePaths(iref):
    try:
''',
'''includeCache = {}

def includePaths(iref):
    key = (iref.raw_reference, os.path.basename(iref.referencing_abs_dir))
    if key not in includeCache:
        includeCache[key] = readIncludePaths(iref)
    return includeCache[key]

def readIncludePaths(iref):
    try:
''')], '''
w("A.i.dfy", 'include "x/lib/U.i.dfy"\\ninclude "y/lib/V.i.dfy"\\n')
w("x/lib/U.i.dfy", 'include "W.i.dfy"\\n')
w("y/lib/V.i.dfy", 'include "W.i.dfy"\\n')
w("x/lib/W.i.dfy", "")
w("y/lib/W.i.dfy", 'include "Z.i.dfy"\\n')
w("y/lib/Z.i.dfy", "")
import lib_deps
for order in (["A.i.dfy"],):
    got = {i.normPath for i in lib_deps.depsFromDfySources(order)}
    assert got == {"A.i.dfy", "x/lib/U.i.dfy", "y/lib/V.i.dfy", "x/lib/W.i.dfy", "y/lib/W.i.dfy", "y/lib/Z.i.dfy"}, got
w("B.i.dfy", 'include "y/lib/V.i.dfy"\\ninclude "x/lib/U.i.dfy"\\n')
w("x/lib/W.i.dfy", 'include "T.i.dfy"\\n'); w("x/lib/T.i.dfy", "")
code = "import sys; sys.path.insert(0,'tools'); import lib_deps; print(sorted(i.normPath for i in lib_deps.depsFromDfySources(['B.i.dfy'])))"
out = subprocess.check_output([sys.executable, "-W", "ignore", "-c", code], text=True)
assert "y/lib/Z.i.dfy" in out and "x/lib/T.i.dfy" in out, out
''', "two directories with the same last name that each contain a file included under the same spelling",
"the cache of parsed include lists is keyed by the spelling of the reference, so a file can get another file's includes and its real dependencies drop out of the closure")

py("p04-trust-from-any-part", "P23", [("tools/lib_deps.py",
'''        return self.isTrusted() or not self.origin.isTrusted()''',
'''        return self.isTrusted() or not self.trustedOrigin()

    def trustedOrigin(self):
        # the command line vouches for the roots and for what they name themselves
        return self.origin.isTrusted() and self.origin.origin is not None''')], '''
import lib_deps
w("A.s.dfy", 'include "B.i.dfy"\\n')
w("B.i.dfy", "")
try:
    lib_deps.depsFromDfySources(["A.s.dfy"])
except lib_deps.IncompatibleIncludeTrustedness:
    pass
else:
    raise SystemExit("a trusted root may include an untrusted file")
w("R.i.dfy", 'include "A.s.dfy"\\n')
try:
    lib_deps.depsFromDfySources(["R.i.dfy"])
except lib_deps.IncompatibleIncludeTrustedness:
    pass
else:
    raise SystemExit("a trusted file may include an untrusted file")
''', "a trusted file given as a root that itself includes an untrusted file",
"an include of an untrusted file is accepted when the trusted file that contains it was named on the command line")

py("p05-assume-behind-division", "P22", [("tools/lib_aggregate.py",
'''        line = re.sub("//.*$", "", line)    # ignore single-line comments
        if "assume" in line:''',
'''        line = re.sub(r"/[/*].*$", "", line)    # ignore comments
        if "assume" in line:''')], '''
import lib_aggregate as a
rep = "Dafny program verifier finished with 3 verified, 0 errors\\n"
w("build/A.i.verchk", rep)
for body, ok in (("lemma L() { assume false; }\\n", False), ("// assume\\n", True), ("lemma L() { /* by hand */ assume false; }\\n", False)):
    w("A.i.dfy", body)
    assert a.summarize(a.VERCHK, "build/A.i.verchk").is_success == ok, body
''', "an assumption that follows a bracketed comment on the same line of an untrusted file",
"everything after a bracketed comment's start is dropped too, so an assume statement after it is not seen and the file counts as verified")

py("p06-nested-comment-depth", "P36", [("tools/line_count_lib.py",
'''        elif region=="*/":
          depth-=1
''',
'''        elif region=="*/":
          depth=min(depth-1, 1)
''')], '''
import line_count_lib as l
c = l.Counter(".")
assert c.remove_paired_comments("a /*x /*y*/ z*/ b") == "a  b"
assert c.remove_paired_comments("a /*x /*y /*q*/ y*/ z*/ b") == "a  b", c.remove_paired_comments("a /*x /*y /*q*/ y*/ z*/ b")
''', "comments nested three deep", "the nesting depth is capped when a comment closes, so text still inside an outer comment is billed as source")
