"""Obligations over executable code: which functions are compared with which reference, per property."""
import os
from . import rules, flowref, db

EXEC = os.path.join(rules.HERE, "ref", "exec")
_worlds = {}


def src(path):
    try:
        return open(os.path.join(db.REPO, path), encoding="utf-8", errors="replace").read()
    except OSError:
        raise rules.Missing(path)


# ---------------------------------------------------------------- Python tools
PYNOISE = ("print", "sys.stdout.write", "sys.stdout.flush", "sys.stderr.flush")


def pyworlds(mods):
    from . import flowpy
    key = ("py",) + tuple(mods)
    if key not in _worlds:
        code = flowpy.World({os.path.basename(m)[:-3]: (src(m), m) for m in mods})
        ref = flowpy.World({os.path.basename(m)[:-3]: (open(os.path.join(EXEC, "py", os.path.basename(m)), encoding="utf-8").read(), m) for m in mods})
        _worlds[key] = (code, ref)
    return _worlds[key]


def py(mods, entries, names=None, skip=(), rule="tool-behaviour", extra=(), **opts):
    """every function of the reference modules `names` (default: of all of them); entries: those other code or users call"""
    def run(L):
        code, ref = pyworlds(mods)
        sel = names or [os.path.basename(m)[:-3] for m in mods]
        fs = [n for n in ref.fns if n[0] in sel and n[1] not in skip and not n[1].startswith(("=", "<"))]
        fs += list(extra)
        for n in fs:
            if ref.find(n) is None:
                raise rules.Missing("reference %s:%s" % n)
        meth = {}
        for n in fs:
            if "." in n[1]:
                meth.setdefault(n[1].split(".")[-1], []).append(n)
        # what is called implicitly or through dynamic dispatch is compared for itself
        ents = [e for e in entries] + list(extra) + [n for k, v in meth.items() for n in v if k != "__init__" and (k.startswith("__") or len(v) > 1)]
        o = dict(opts)
        o.setdefault("ignore", PYNOISE)
        o["keepmore"] = set(o.get("keepmore", ())) | {n[1] for n in ref.fns if n[0] not in sel and not n[1].startswith(("=", "<")) and "." not in n[1]}
        flowref.Unit(code, ref, fs, ents, where=lambda f: "%s:%s" % (code.path(f), f.name), **o).run(L, rule)
    run.__name__ = "path summaries of " + ", ".join(mods)
    return run


# ---------------------------------------------------------------- C++ framework
CPPFILES = ["framework/Framework.cpp", "framework/BundleWrapper.cpp", "framework/UnverifiedRowCache.cpp"]


def cppworlds(defines=()):
    from . import flowcpp
    key = ("cpp",) + tuple(defines)
    if key not in _worlds:
        for f in CPPFILES:
            src(f)
        _worlds[key] = (flowcpp.load(db.REPO, ["framework"], CPPFILES, defines), flowcpp.load(os.path.join(EXEC, "cpp"), ["framework"], CPPFILES, defines))
    return _worlds[key]


ZEROES = {str(x) for x in (("int", 0), ("bool", False), ("none",), ("list", []))}


def cpp(pred, entries, rule, defines=(), skip=(), **opts):
    """every function of the reference framework selected by `pred`; entries: predicate on names"""
    def run(L):
        code, ref = cppworlds(defines)
        fs = [n for n in ref.fns if pred(n[1]) and not any(s in n[1] for s in skip)]
        if not fs:
            raise rules.Missing("reference functions for %s" % rule)
        o = dict(opts)
        o.setdefault("inline", [n[1] for n in ref.fns if n[1].startswith("fail(")])
        o["keepmore"] = set(o.get("keepmore", ())) | {n[1] for n in ref.fns}
        flowref.Unit(code, ref, fs, [n for n in fs if entries(n[1])], where=lambda f: "%s:%s" % (code.path(f), f.name), **o).run(L, rule)
        for g, (init, const) in ref.globals.items():
            # variables of static storage: what the functions above start from
            if not const and pred(g + "(") and g in code.globals:
                mine, cc = code.globals[g]
                a, b = (x if x is not None else ("int", 0) for x in (mine, init))
                a, b = (x if x[0] != "call" or x[1][0] != "ctor" or x[2] else "default" for x in (a, b))
                if a == b or {str(a), str(b)} <= ZEROES:
                    L.ok(rule, g, "initial value %s" % (b,))
                else:
                    L.bad(rule, g, "starts as %s, where %s is required" % (a, b))
    run.__name__ = "path summaries of " + rule
    return run


# ---------------------------------------------------------------- Rust
RS = "Splinter/src/"
STORE = ["implementation/Implementation_v.rs", "implementation/DiskLayout_v.rs", "trusted/ClientAPI_t.rs", "trusted/TrustedEntry_t.rs", "trusted/ReqReply_t.rs", "trusted/KVStoreTrait_t.rs",
         "spec/ImplDisk_t.rs", "spec/KeyType_t.rs", "spec/Messages_t.rs", "spec/AsyncDisk_t.rs", "exec/MiniAllocator_v.rs", "abstract_system/MsgHistory_v.rs", "sequential_main.rs"]
BANK = ["example/SimpleBank_v.rs", "example/Bank_v.rs", "example/BankContract_t.rs", "example/BankSpec_t.rs", "example/ClientAPI_t.rs", "example/VerifiedEntry_t.rs", "example/main.rs"]

FORMATS = ["marshalling/%s_v.rs" % f for f in ("IntegerMarshalling", "KVPairFormat", "Marshalling", "ResizableUniformSizedSeq", "SeqMarshalling", "Slice", "StaticallySized", "UniformSizedSeq", "UniformSized",
                                               "VariableSizedElementSeq", "math")]


def rsworlds(files):
    from . import flowrs
    key = ("rs",) + tuple(files)
    if key not in _worlds:
        def load(alt):
            def text(f):
                p = os.path.join(EXEC, "rust", alt, f)
                if not os.path.isfile(p):
                    p = os.path.join(EXEC, "rust", f)
                return open(p, encoding="utf-8").read()
            return flowrs.World({RS + f: text(f) for f in files})
        code = flowrs.World({RS + f: src(RS + f) for f in files})
        gap = any(os.path.isfile(os.path.join(EXEC, "rust", "gap", f)) for f in files)
        _worlds[key] = (code, load(""), load("gap") if gap else None)
    return _worlds[key]


def rs(files, pred, rule, entries=lambda n: True, skip=(), gaps=None, **opts):
    """executable Rust functions of the reference selected by `pred` (file and name).
    gaps: {function: text} - functions known to do less than required, in exactly the way the gap reference describes"""
    def run(L):
        code, ref, gapw = rsworlds(files)
        for e in code.errors:
            L.bad(rule, e.split(":")[0], "cannot be read: %s" % e)
        fs = [n for n in ref.fns if ref.fns[n].raw.body is not None and pred(n[0] + ":" + n[1]) and n[1] not in skip]
        if not fs:
            raise rules.Missing("reference functions for %s" % rule)
        where = lambda f: "%s:%s" % (code.path(f), f.name)
        kept = {n[1] for n in ref.fns if ref.find(n) is not None}
        o = dict(opts)
        o["keepmore"] = set(o.get("keepmore", ())) | kept
        for n in fs:
            if n[1] in (gaps or {}) and gapw is not None and code.find(n) is not None and code.fns[n].params is not None:
                code.begin(gapw)
                u = flowref.Unit(code, gapw, [n], [n], where=where, **o)
                if gapw.find(n) is not None and u.compare(L, rule, n, code.fns[n], gapw.fns[n], set(kept)) is None:
                    L.files.add(n[0])
                    L.bad(rule + "-gap", "%s:%s" % n, gaps[n[1]])
                    fs = [m for m in fs if m != n]
        flowref.Unit(code, ref, fs, [n for n in fs if entries(n[1])], where=where, **o).run(L, rule)
    run.__name__ = "path summaries of " + rule
    return run
