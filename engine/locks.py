"""Lockset client for the walker: which mutexes are certainly held at each access."""
from core import *

GUARDS = ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<", "boost::lock_guard<", "boost::unique_lock<")

def is_mutex_type(t):
    return "mutex" in t and not any(g in t for g in GUARDS) and "unique_ptr" not in t

class LockClient(Client):
    """state: (frozenset of (mutexpath, how), extra). how: 'x:<var>' guard variable, 'm' manual."""
    def __init__(self, rep):
        self.rep = rep
        self.guardvars = {}

    # state helpers ---------------------------------------------------
    def held(self, s):
        return frozenset(m for m, h in s[0])
    def relock(self, s, n, m, ctx):
        pass
    def on_release(self, s, m):
        """Knowledge gained under the lock is lost."""
        return s

    def acquire(self, s, m, how, n, ctx):
        if m in self.held(s):
            self.relock(s, n, m, ctx)
        return (s[0] | {(m, how)}, s[1])
    def release(self, s, pred):
        gone = [x for x in s[0] if pred(x)]
        s2 = (frozenset(x for x in s[0] if not pred(x)), s[1])
        for g in gone:
            s2 = self.on_release(s2, g[0])
        return s2

    def on_decl(self, s, v, ctx):
        t = v["t"]
        if any(g in t for g in GUARDS) and v.get("init"):
            c = strip(v["init"])
            if c.get("k") in ("Ctor", "InitList") and c.get("a"):
                ms, tags = [], []
                for a in c["a"]:
                    if any(x in str(a.get("t", "")) + str(a.get("fn", "")) for x in ("defer_lock", "try_to_lock", "adopt_lock")):
                        tags.append(str(a.get("t", "")) + str(a.get("fn", "")))
                        continue
                    p = path(a, ctx)
                    if p:
                        ms.append(p)
                self.guardvars[v["i"]] = ms
                if not any("defer_lock" in x or "try_to_lock" in x for x in tags):
                    for m in ms:
                        s = self.acquire(s, m, "x:" + v["i"], v, ctx)
        return (s,)
    def on_scope_exit(self, s, v, ctx):
        if v["i"] in self.guardvars:
            s = self.release(s, lambda x: x[1] == "x:" + v["i"])
        return (s,)
    def after_call(self, s, n, ctx, inlined):
        if n["k"] == "MCall" and not inlined:
            sh = short(n.get("fn"))
            ot = n.get("ot", "")
            if sh in ("lock", "unlock", "release"):
                o = strip(n["o"])
                if any(g in ot for g in GUARDS) and o.get("k") == "Ref":
                    gv = o["i"]
                    if sh == "lock":
                        for m in self.guardvars.get(gv, []):
                            s = self.acquire(s, m, "x:" + gv, n, ctx)
                    else:
                        s = self.release(s, lambda x: x[1] == "x:" + gv)
                elif is_mutex_type(ot):
                    p = path(n["o"], ctx)
                    if p:
                        if sh == "lock":
                            s = self.acquire(s, p, "m", n, ctx)
                        else:
                            s = self.release(s, lambda x: x[0] == p)
        return (s,)
    def branch(self, s, c, truth, ctx):
        # if (guard.owns_lock()) / if (guard.try_lock()) / if (m.try_lock())
        if c.get("k") == "MCall" and truth:
            sh = short(c.get("fn"))
            o = strip(c["o"])
            if sh in ("owns_lock", "try_lock", "operator bool") and any(g in c.get("ot", "") for g in GUARDS) and o.get("k") == "Ref":
                for m in self.guardvars.get(o["i"], []):
                    if m not in self.held(s):
                        s = (s[0] | {(m, "x:" + o["i"])}, s[1])
            elif sh == "try_lock" and is_mutex_type(c.get("ot", "")):
                p = path(c["o"], ctx)
                if p:
                    s = (s[0] | {(p, "m")}, s[1])
        return (s,)
