"""Obligations over imperative code: a function behaves as its reference demands.

The reference is a function in the same language (files under /verif/ref/exec).
Code and reference are both reduced to path summaries (sa.flow) and every pair
of compatible paths has to agree on how it leaves, what it returns, which
observed calls it makes with which values, and what it leaves in observed
fields.  A helper that no longer matches (or no longer exists) is not itself a
violation while some caller with a reference covers it: it is followed through
the call instead, so moving code between helpers changes nothing.
"""
import time
from . import flow
from .flow import Exec, Compare, Diff, Unsupported, TooMany


class Unit:
    """one reference module against one code world"""

    def __init__(self, code, ref, names, entries, ignore=(), observe=None, ignoref=(), fields=None, unordered=(), where=None, keepmore=(), inline=()):
        self.inline = set(inline)
        self.code, self.ref, self.names = code, ref, list(names)
        self.entries = set(entries)
        self.opts = dict(ignore=ignore, observe=observe, ignoref=ignoref, fields=fields, unordered=unordered)
        self.where = where or (lambda f: "%s:%s" % (f.file, f.name))
        self.keepmore = set(keepmore)

    def callers(self):
        c = {n: set() for n in self.names}
        for n in self.names:
            f = self.ref.fns[n]
            for m in self.ref.mentions(f):
                for k in self.names:
                    if k[1] == m or k[1].split(".")[-1] == m:
                        if k != n:
                            c[k].add(n)
        return c

    def order(self, callers):
        out, seen = [], set()
        calls = {n: {m for m in self.names if n in callers[m]} for n in self.names}

        def go(n, st):
            if n in seen or n in st:
                return
            for m in sorted(calls[n]):
                go(m, st | {n})
            seen.add(n)
            out.append(n)
        for n in self.names:
            go(n, frozenset())
        return out

    def run(self, L, rule):
        self.code.begin(self.ref)
        callers = self.callers()
        keep = {n[1] for n in self.names} | self.keepmore
        pend = {}
        for n in self.order(callers):
            rf = self.ref.fns[n]
            cf = self.code.find(n)
            entry = n in self.entries or not callers[n]
            if cf is None:
                if entry:
                    L.bad(rule, "%s:%s" % n, "anchor missing: no function %s" % n[1])
                else:
                    keep.discard(n[1])
                    pend[n] = "is no longer a function of its own"
                continue
            L.files.add(self.code.path(cf))
            msg = self.compare(L, rule, n, cf, rf, keep)
            if msg is None:
                L.ok(rule, self.where(cf), "")
                continue
            down = [m for m in pend if n in callers[m]]
            if not entry:
                keep.discard(n[1])
                pend[n] = msg
                continue
            if down:
                msg += "".join(" (and %s %s)" % (m[1], pend[m]) for m in down)
            L.bad(rule, self.where(cf), msg)
        for n, m in pend.items():
            # excused while every route to an entry has been compared with the helper followed through
            if not self.covered(n, callers, set()):
                cf = self.code.find(n)
                L.bad(rule, self.where(cf) if cf else "%s:%s" % n, m)
            else:
                L.ok(rule, "%s:%s" % n, "followed through its callers: %s" % m[:100])

    def covered(self, n, callers, seen):
        if n in self.entries:
            return True
        return bool(callers[n])

    def compare(self, L, rule, n, cf, rf, keep):
        keep = keep - self.inline
        if getattr(cf, "selfm", None) != getattr(rf, "selfm", None):
            return "takes its receiver differently from what is required"
        if len(cf.params) != len(rf.params):
            return "takes %d arguments, where %d are required" % (len(cf.params), len(rf.params))
        lim = 240 if L.tier == "thorough" else 60
        L.deadline = getattr(L, "deadline", None) or time.time() + (780 if L.tier == "thorough" else 540)
        lim = min(lim, L.deadline - time.time())
        if lim <= 0:
            return "not established within the analysis budget"
        k = keep - {n[1]}
        msg = self.attempt(L, cf, rf, k, lim)
        if msg is None:
            return None
        # a helper that only one of the two calls is followed on both sides
        a, b = self.code.mentions(cf), self.ref.mentions(rf)
        one = {m for m in k for x in (m, m.split("::")[-1], m.split(".")[-1]) if (x in a) != (x in b)}
        if one and self.attempt(L, cf, rf, k - one, min(lim, max(1, L.deadline - time.time()))) is None:
            return None
        return msg

    def attempt(self, L, cf, rf, k, lim):
        try:
            args = [self.ref.argterm(rf, p) for p in rf.params]
            this = self.ref.thisterm(rf)
            b = self.ref.ExecCls(self.ref, keep=k, limit=lim).summarise(rf, args, this)
            a = self.code.ExecCls(self.code, keep=k, limit=lim).summarise(cf, args, this)
            pre = self.ref.pre(rf, args, this) if hasattr(self.ref, "pre") else []
            c = Compare(self.code, thorough=L.tier == "thorough", **self.opts)
            c.paths(a, b, facts=pre)
            c.paths(b, a, facts=pre)
            if len(L.samples) < 40:
                L.samples.append("%s: %d paths, %d comparisons; e.g. %s" % (self.where(cf), len(a), c.obl, a[0].show()[:160] if a else "-"))
            L.paths = getattr(L, "paths", 0) + len(a)
            return None
        except Diff as d:
            return str(d)
        except TooMany as d:
            return "not established within the analysis budget (%s)" % d
        except Unsupported as d:
            return "cannot be read: %s" % d
        except RecursionError:
            return "too deeply nested to analyse"
        except (KeyError, IndexError, TypeError, ValueError, AttributeError) as d:
            return "cannot be analysed: %s %s" % (type(d).__name__, d)
